---------------------------- MODULE MC_Root_Registry ----------------------------
(* C20, C18: registration, first one wins, totals and refused assignments. *)
EXTENDS MC_Root, IOUtils
MDepth == atoi(IOEnv.DEPTH)
MSetup == <<
  ONew("t", "T1", "t1"), ONew("t", "T1b", "t1"), ONew("t", "T2", "t2"), OReg("t", "T2"), ONew("p", "P1", "p"), ONew("p", "P2", "p"), ONew("r", "R1", "r"), ONew("r", "R1b", "r"), ONew("r", "R2", "q"),
  ONew("n", "N1", "a"), ONew("s", "S1", "s"), ONew("g", "G1", "g"), ONew("g", "G1b", "g"), OAttr("X", "x"), OAttr("Y", "x"), OAttr("Z", "z") >>
MOps == <<
  OReg("t", "T1"), OReg("t", "T1b"), ORegs("p", <<"P2", "P1">>), OReg("p", "P1"), OReg("r", "R1b"), ORegs("r", <<"R1", "R2">>), OReg("n", "N1"), OReg("s", "S1"),
  OReg("g", "G1"), ORegs("g", <<"G1b">>), ORegs("a", <<"X", "Z">>), OReg("a", "Y"),
  OAssign("T2", "p", <<"r", "q">>, FALSE), OAssign("T2", "p", <<"q", "r">>, TRUE), OAssignS("T2", "p", <<"s", "v">>, FALSE), OTDef("T2", "a") >>
MQueries ==
  << QTotals, QGet("t", "t1"), QGet("t", ""), QGet("p", "p"), QGet("r", "r"), QGet("r", "q"), QGet("n", "a"), QGet("s", "s"), QGet("g", "g"), QGet("a", "x GET"),
     QGet("a", "z GET"), QList("t"), QList("p"), QList("r"), QList("n"), QList("s"), QList("a"), QRows("Data", NIL, NIL, NIL, NIL),
     Ask("p", "t2", NIL, NIL), Ask("p", "t2", NIL, "s") >>
=============================================================================
