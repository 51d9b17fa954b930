----------------------------- MODULE MCImports -----------------------------
EXTENDS Imports
MAs == <<"al1", "al2", "al3", "al4", "al5">>
=============================================================================
