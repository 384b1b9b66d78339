----------------------------- MODULE MC_V2_Dag -----------------------------
(* C04, C05: role links in any order, roles registered late, permissions added and removed. *)
EXTENDS MC_V2, IOUtils
MDepth == atoi(IOEnv.DEPTH)
Names == <<"r1", "r2", "r3", "r4">>
MSetup == <<
  ORole("R1", "r1"), OPerm("R1", <<"w">>), ORole("R2", "r2"), OPerm("R2", <<"x">>), ORole("R3", "r3"), OPerm("R3", <<"y">>),
  ORole("R4", "r4"), OPerm("R4", <<"z", "x">>), ORole("R5", "r2"), ORoles("A", <<"R1", "R2", "R3">>), ORoles("D", <<"R1", "R2", "R3">>),
  OTen("T1", "t1", TRUE, "n"), OTens(<<"T1">>), OAsg("A1", "p", "t1", "", "", "r1", FALSE), OHold(<<"A1">>) >>
MOps == SelectSeq(Cross2(LAMBDA a, b : OLink("D", a, <<b>>), Names, Names), LAMBDA e : e.r # "r4" \/ e.rs # <<"r4">>) \o
  << OLink("D", "r1", <<"r3", "r2">>), OLink("A", "r1", <<"r2">>), OLink("A", "r2", <<"r4">>), OLink("A", "r4", <<"r1", "r3">>),
     ORoles("D", <<"R4">>), ORoles("A", <<"R4">>), ORoles("D", <<"R5">>), OUnperm("R4", <<"z">>) >>
MQueries ==
  [k \in 1..4 |-> QPerms("D", Names[k])] \o [k \in 1..4 |-> QKids("D", Names[k])] \o
  [k \in 1..4 |-> AskCan("p", "t1", "", "", <<Names[k]>>)] \o
  << Ask("p", "t1", "", "", "x"), Ask("p", "t1", "", "", "y"), Ask("p", "t1", "", "", "z"), QRole("r2"), QRole("r4"), QPerms("D", "none") >>
=============================================================================
