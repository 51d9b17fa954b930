---------------------------- MODULE GenContract ----------------------------
EXTENDS Contract
=============================================================================
