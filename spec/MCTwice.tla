------------------------------ MODULE MCTwice -------------------------------
EXTENDS Twice
MK == {"abs", "avgp", "mabs", "mtype", "aspa", "f32", "np", "mT", "envw"}
=============================================================================
