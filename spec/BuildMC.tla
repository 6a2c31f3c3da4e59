------------------------------- MODULE BuildMC -------------------------------
EXTENDS Build
(* In order; scattered with a repeated block; backwards in one file. *)
MCLayouts == {<<<<1, 2, 3>>, <<4, 5, 6>>, <<7>>>>, <<<<6, 2, 7>>, <<1, 1, 4>>, <<5, 3, 2>>>>, <<<<7, 6, 5, 4, 3, 2, 1>>>>}
MCBad == {<<>>, <<"f", 1>>, <<"b", 2>>, <<"b", 4>>, <<"m", 3>>}
==============================================================================
