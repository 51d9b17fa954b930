---------------------------- MODULE GenSession ----------------------------
EXTENDS Session
MR == 3
=============================================================================
