------------------------------ MODULE MC_C01 ------------------------------
(* A mailbox hands a message to its recipient at most once.               *)
EXTENDS MC

M1 == MsgR(3, 0, 7, "z1", 5, "r1", Raw("aa"))
M2 == MsgR(3, 1, 7, "z1", 5, "r1", Raw("aa"))       \* the same but for the nonce
M3 == MsgR(3, 0, 7, "z1", 5, "r2", Raw("aa"))       \* the same but for the recipient
M4 == MsgR(3, 0, 7, "z1", 5, "r1", Raw(""))         \* the same but for the body
M5 == MsgR(3, 0, 8, "z1", 5, "r1", Raw("aa"))       \* the same but for the origin
Ms == <<M1, M2, M3, M4, M5>>
Pr(s, meta, m) == X(s, "mb", [k |-> "Process", meta |-> meta, msg |-> m])
Again(m, try) == [a |-> "mb", m |-> [k |-> "Process", meta |-> Raw(""), msg |-> m], f |-> <<>>, try |-> try]
R1(x) == MockC("r1", x)

XSetup == << InstC("mb", "mailbox", [owner |-> "u1", dom |-> 5]), MockC("i1", E0), MockC("i2", [vmode |-> "acc"]),
             MockC("r1", E0), MockC("r2", [ism |-> <<"i1">>]), X("u1", "mb", [k |-> "SetDefaultIsm", x |-> "i1"]) >>
XCalls(s) ==
  << Pr("u1", Raw(""), M1), Pr("u2", Raw("01"), M1), Pr("u1", Raw(""), M2), Pr("u1", Raw(""), M3), Pr("u1", Raw(""), M4), Pr("u1", Raw(""), M5),
     R1([rmode |-> "fail"]), R1(E0),
     R1([subs |-> <<Again(M1, TRUE)>>]), R1([subs |-> <<Again(M1, FALSE)>>]), R1([subs |-> <<Again(M2, TRUE), Again(M2, TRUE)>>]),
     R1([subs |-> <<Again(M2, FALSE), Again(M1, TRUE)>>]), R1([ism |-> <<"i2">>]), R1([imode |-> "err"]),
     MockC("i1", [vmode |-> "no"]), MockC("i1", E0), X("u1", "mb", [k |-> "SetDefaultIsm", x |-> "i2"]),
     X("u1", "mb", [k |-> "SetDefaultIsm", x |-> "i1"]),
     XF("u1", "r1", [k |-> "Handle", o |-> 7, s |-> <<32, "z1">>, b |-> Raw("aa")], <<>>) >>
XQs(s) == [j \in DOMAIN Ms |-> [a |-> "mb", k |-> "Delivered", id |-> <<"m", Ms[j]>>]] \o << [a |-> "mb", k |-> "Delivered", id |-> <<"id", "00">>] >>

(* g.got: how often the mailbox has called a recipient, by what it was told; g.att: messages whose processing was refused *)
Key(m) == <<m.r, m.o, m.s, m.b>>
Hands(r, K) == Len(SelectSeq(r.ev, LAMBDA e : e[1] = "handle" /\ e[3] = "mb" /\ <<e[2], e[4], e[5][2], e[6]>> = K))
XG0 == [got |-> [K \in {Key(Ms[j]) : j \in DOMAIN Ms} |-> 0], att |-> {}]
XUpd(gg, s, c, r) == [got |-> [K \in DOMAIN gg.got |-> gg.got[K] + (IF r.ok THEN Hands(r, K) ELSE 0)],
                      att |-> IF Isk(c, "Process") /\ ~r.ok THEN gg.att \cup {c.m.msg} ELSE gg.att]
Done(s) == s.k["mb"].dl
XStep(gg, s, c, r) ==
  /\ ~r.ok => r.st = s
  /\ Isk(c, "Process") =>
       /\ r.ok => c.m.msg \notin Done(s) /\ c.m.msg \in Done(r.st)
       \* a message whose earlier attempts failed is as good as one never tried
       /\ (~r.ok /\ c.m.msg \notin Done(s)) => c.m.msg \notin Done(r.st)
  /\ Done(s) \subseteq Done(r.st)
XState(gg, s) == /\ \A K \in DOMAIN gg.got : gg.got[K] = Cardinality({m \in Done(s) : Key(m) = K})
                 /\ \A K \in DOMAIN gg.got : gg.got[K] <= Cardinality({j \in DOMAIN Ms : Key(Ms[j]) = K})
XTag(gg, s, c) == IF Isk(c, "Process") THEN (IF c.m.msg \in Done(s) THEN "/replay" ELSE IF c.m.msg \in gg.att THEN "/retry" ELSE "/first") ELSE ""
XLen(d) == IF d THEN 5 ELSE 3
=============================================================================
