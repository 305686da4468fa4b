-------------------------- MODULE MCNonogramSolver --------------------------
EXTENDS NonogramSolver
Shapes22 == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<1, 3>>, <<3, 1>>}
Shapes23 == {<<2, 3>>, <<3, 2>>, <<1, 4>>}
Shapes33 == {<<3, 3>>}
=============================================================================
