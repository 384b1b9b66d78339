---------------------------- MODULE MC_V1_Member ----------------------------
(* C24: every combination of places, asked after any calls. *)
EXTENDS MC_V1, IOUtils
MDepth == atoi(IOEnv.DEPTH)
MSetup == <<
  ONew("t", "T1", "t1"), ONew("t", "T2", "t2"), ONew("n", "N1", "a"), ONew("n", "N2", "b"), ONew("s", "S1", "s"), ONew("s", "S2", "u"),
  ONew("p", "P", "p"), ONew("p", "Q", "q"), ONew("r", "R1", "r1"), ONew("r", "R2", "r2"), ONew("g", "G", "g"), OAttr("X", "x"), OAttr("Y", "y"),
  ORegs("t", <<"T1", "T2">>), ORegs("n", <<"N1", "N2">>), ORegs("s", <<"S1", "S2">>), ORegs("r", <<"R1", "R2">>), ORegs("p", <<"P", "Q">>),
  OTNs("T1", <<"N1">>), OTScopes("T1", <<"s", "u">>) >>
MOps == <<
  OTNs("T2", <<"N2">>), OTScopes("T2", <<"s">>), OTNsScopes("T1", "a", <<"s">>), OAssign("T1", "p", "r1", "", "", TRUE), OAssign("T1", "q", "r1", "a", "u", TRUE),
  OAssign("T1", "p", "", "a", "", FALSE), OAssign("T1", "p", "r2", "", "s", FALSE), OAssign("T2", "p", "r1", "b", "s", FALSE), OAssign("T1", "p", "r1", "b", "u", FALSE), ODesc("T1", <<"T2">>) >>
Places == << <<NIL, NIL>>, <<"a", NIL>>, <<"b", NIL>>, <<NIL, "s">>, <<NIL, "u">>, <<"a", "s">>, <<"b", "s">>, <<"a", "u">>, <<"b", "u">> >>
MQueries ==
  Cross2(LAMBDA t, w : Ask("p", t, w[1], w[2]), <<"t1", "t2">>, Places) \o
  Cross2(LAMBDA p, w : Ask(p, NIL, w[1], w[2]), <<"p", "q">>, Places) \o
  << Ask("q", "t1", NIL, NIL), Ask("q", "t2", NIL, NIL), Ask("q", "t1", "a", "s"), Ask("q", "t1", "a", "u"), Ask("z", "t1", NIL, NIL), Ask("p", "t3", NIL, NIL), QBelow("T1"), QIn("t1") >>
=============================================================================
