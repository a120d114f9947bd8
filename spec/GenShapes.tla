------------------------------ MODULE GenShapes ------------------------------
EXTENDS PSShape
=============================================================================
