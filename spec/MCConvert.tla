----------------------------- MODULE MCConvert -----------------------------
EXTENDS Convert
MK == {"abs", "avgp", "foo", "mis", "mabs", "mshar", "aname", "f32", "afoo", "np", "mT"}
=============================================================================
