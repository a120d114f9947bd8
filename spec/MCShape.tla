------------------------------- MODULE MCShape -------------------------------
EXTENDS PSShape
=============================================================================
