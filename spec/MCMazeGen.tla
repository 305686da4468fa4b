---- MODULE MCMazeGen ----
EXTENDS MazeGen
Line == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<1, 3>>, <<3, 1>>, <<1, 5>>, <<4, 1>>, <<7, 1>>}
QuickFull == {<<1, 1>>, <<1, 2>>, <<1, 3>>, <<3, 1>>, <<2, 2>>}
QuickReduced == Line \cup {<<2, 2>>, <<2, 3>>, <<3, 2>>}
ThoroughFull == Line \cup {<<2, 2>>, <<2, 3>>, <<3, 2>>}
ThoroughReduced == QuickReduced \cup {<<3, 3>>, <<2, 4>>, <<4, 2>>, <<2, 5>>, <<5, 2>>, <<3, 4>>, <<4, 3>>}
====
