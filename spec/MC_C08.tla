------------------------------ MODULE MC_C08 ------------------------------
(* The aggregate ISM accepts exactly when enough of its ISMs accept.       *)
EXTENDS MC

M1 == MsgR(3, 0, 5, "z1", 9, "r1", Raw("aa"))
M2 == MsgR(3, 1, 5, "z1", 9, "r1", Raw("aa"))
P1 == Raw("01")
P2 == Raw("0203")
\* i1 takes either part for M1, i2 one part of either message, i3 one part of M2
Acc1 == MockC("i1", [vmode |-> "acc", acc |-> << <<P1, M1>>, <<P2, M1>> >>])
Acc2 == MockC("i2", [vmode |-> "acc", acc |-> << <<P2, M1>>, <<P2, M2>> >>])
Acc3 == MockC("i3", [vmode |-> "acc", acc |-> << <<P1, M2>> >>])
Set(s, t, isms) == X(s, "ag", [k |-> "SetIsms", isms |-> isms, t |-> t])
XSetup == << Acc1, Acc2, Acc3, InstC("ip", "ipaus", [owner |-> "u1", paused |-> FALSE]),
             InstC("a2", "iagg", [owner |-> "u1", isms |-> <<"i2", "i1">>, t |-> 2]),
             InstC("ag", "iagg", [owner |-> "u1", isms |-> <<"i1", "i2">>, t |-> 1]) >>
XCalls(s) ==
  << Set("u1", 1, <<"i1", "i2">>), Set("u1", 2, <<"i1", "i2">>), Set("u1", 2, <<"i3", "i1", "i2">>), Set("u1", 3, <<"i2", "i3", "i1">>),
     Set("u1", 1, <<"i3">>), Set("u1", 2, <<"i1", "i1">>), Set("u1", 2, <<"i1", "i2", "i1">>), Set("u1", 2, <<"ip", "i2">>), Set("u1", 1, <<"ip", "i3">>),
     Set("u1", 2, <<"nobody", "i1">>), Set("u1", 1, <<"a2", "i3">>), Set("u1", 2, <<"i1", "a2">>),
     Set("u1", 0, <<"i1">>), Set("u1", 3, <<"i1", "i2">>), Set("u1", 1, <<>>), Set("u1", 1, <<"i1", "!bad">>), Set("u2", 1, <<"i1">>),
     X("u1", "ip", [k |-> "Pause"]), X("u1", "ip", [k |-> "Release"]),
     MockC("i1", [vmode |-> "no"]), MockC("i1", [vmode |-> "err"]), MockC("i2", [vmode |-> "yes"]), Acc1, Acc2 >>
Isms(s) == s.k["ag"].isms
(* one part per configured ISM; the nested aggregate takes two *)
Parts(i) == IF i = "a2" THEN << <<"agg", <<P2, P2>> >>, <<"agg", <<P1, P2>> >>, Raw("00") >> ELSE <<P1, P2>>
RECURSIVE Fill(_, _)
Fill(l, j) == IF j > Len(l) THEN << <<>> >>
              ELSE LET rest == Fill(l, j + 1) ps == Parts(l[j])
                   IN FlattenSeq([i \in DOMAIN ps |-> [n \in DOMAIN rest |-> <<ps[i]>> \o rest[n]]])
Metas(s) == LET f == Fill(Isms(s), 1)
            IN [j \in DOMAIN f |-> <<"agg", f[j]>>] \o << <<"agg", f[1] \o <<P2>> >>, Raw("0000"), <<"agg", [f[1] EXCEPT ![Len(f[1])] = <<"oob">>]>> >>
Vq(a, meta, msg) == [a |-> a, k |-> "Verify", meta |-> meta, msg |-> msg]
Asked(s) == FlattenSeq([j \in DOMAIN Metas(s) |-> << Vq("ag", Metas(s)[j], M1), Vq("ag", Metas(s)[j], M2) >>])
XQs(s) == << Q("ag", "Isms"), [a |-> "ag", k |-> "VerifyInfo", msg |-> M1], Q("ag", "ModuleType") >> \o Asked(s)

XG0 == <<1, <<"i1", "i2">> >>
XUpd(gg, s, c, r) == IF r.ok /\ Isk(c, "SetIsms") THEN <<c.m.t, c.m.isms>> ELSE gg
XStep(gg, s, c, r) == Isk(c, "SetIsms") => (r.ok <=> c.s = "u1" /\ c.m.t \in 1..Len(c.m.isms) /\ \A j \in DOMAIN c.m.isms : Valid(c.m.isms[j]))
Says(s, i, meta, msg) == Verify(s, i, meta, msg, 1)
XState(gg, s) ==
  /\ <<s.k["ag"].t, s.k["ag"].isms>> = gg
  /\ \A j \in DOMAIN Asked(s) :
       LET q == Asked(s)[j]
           l == gg[2]
           yes == {i \in ToSet(l) : \E n \in DOMAIN l : l[n] = i /\ q.meta[1] = "agg" /\ n <= Len(q.meta[2]) /\ q.meta[2][n][1] # "oob"
                                                          /\ Says(s, i, q.meta[2][n], q.msg) = "T"}
           answer == q.meta[1] = "agg" /\ Len(q.meta[2]) >= Len(l) /\ (\A n \in DOMAIN l : q.meta[2][n][1] # "oob" /\ Says(s, l[n], q.meta[2][n], q.msg) # "E")
           a == Query(s, q) IN
       /\ a = R(TRUE) => Cardinality(yes) >= gg[1]
       /\ (answer /\ IsInjective(l) /\ Cardinality(yes) >= gg[1]) => a = R(TRUE)
XTag(gg, s, c) == ""
XLen(d) == IF d THEN 6 ELSE 4
=============================================================================
