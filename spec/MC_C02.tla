------------------------------ MODULE MC_C02 ------------------------------
(* Only authenticated, correctly addressed messages are delivered, as sent. *)
EXTENDS MC

A == Raw("a1")
B == Raw("b2")
Good(r, b) == MsgR(3, 0, 7, "z1", 5, r, Raw(b))
M1 == Good("r1", "aa")                                  \* r1 names no ISM
M2 == Good("r2", "aa")                                  \* r2 names i2
M3 == Good("r3", "aa")                                  \* r3 cannot be asked
M4 == Good("nobody", "aa")                              \* no such contract
Wrong == << [M1 EXCEPT !.v = 2], [M1 EXCEPT !.v = 0], [M1 EXCEPT !.d = 6], [M1 EXCEPT !.o = 5], [M1 EXCEPT !.s = "u2"],
            [M1 EXCEPT !.n = 1], [M1 EXCEPT !.b = Raw("")], [M1 EXCEPT !.r = "r2"],
            [v |-> -2, b |-> Raw("0300000000")] >>
Pr(s, meta, m) == X(s, "mb", [k |-> "Process", meta |-> meta, msg |-> m])
XSetup == << InstC("mb", "mailbox", [owner |-> "u1", dom |-> 5]),
             MockC("i1", [vmode |-> "acc", acc |-> << <<A, M1>>, <<B, M2>>, <<A, M3>>, <<A, M4>>, <<A, Wrong[1]>>, <<A, Wrong[3]>> >>]),
             MockC("i2", [vmode |-> "acc", acc |-> << <<B, M2>>, <<A, M1>>, <<A, Wrong[8]>> >>]),
             MockC("r1", E0), MockC("r2", [ism |-> <<"i2">>]), MockC("r3", [imode |-> "err"]),
             Bank("mb", << <<"uosmo", <<9>> >> >>) >>
XCalls(s) ==
  << Pr("u1", A, M1), Pr("u2", B, M1), Pr("u1", B, M2), Pr("u1", A, M2), Pr("u1", A, M3), Pr("u1", A, M4) >>
  \o [j \in DOMAIN Wrong |-> Pr("u1", A, Wrong[j])]
  \o << X("u1", "mb", [k |-> "SetDefaultIsm", x |-> "i1"]), X("u1", "mb", [k |-> "SetDefaultIsm", x |-> "i2"]),
        X("u1", "mb", [k |-> "SetDefaultIsm", x |-> "nobody"]), X("u2", "mb", [k |-> "SetDefaultIsm", x |-> "i2"]),
        MockC("r1", [ism |-> <<"i2">>]), MockC("r1", [ism |-> <<"nobody">>]), MockC("r1", E0), MockC("r1", [rmode |-> "fail"]),
        MockC("r2", E0), MockC("r2", [ism |-> <<"i1">>]), MockC("r3", E0),
        MockC("i1", [vmode |-> "no"]), MockC("i1", [vmode |-> "err"]), MockC("i2", [vmode |-> "yes"]),
        XF("u1", "mb", [k |-> "Process", meta |-> A, msg |-> M1], << <<"uosmo", <<3>> >> >>) >>
XQs(s) == << Q("mb", "DefaultIsm"), Q("mb", "LocalDomain"), [a |-> "mb", k |-> "RecipientIsm", x |-> "r1"],
             [a |-> "mb", k |-> "RecipientIsm", x |-> "r2"], [a |-> "mb", k |-> "RecipientIsm", x |-> "r3"],
             [a |-> "mb", k |-> "RecipientIsm", x |-> "nobody"],
             Q("mb", "allbal"), Q("r1", "allbal"), [a |-> "mb", k |-> "Delivered", id |-> <<"m", M1>>] >>

XG0 == 0
XUpd(gg, s, c, r) == 0
\* the ISM that has to accept, "" when it cannot be known
Ism(s, m) == LET c == s.k["mb"] IN
  IF m.r \notin DOMAIN s.k \/ c.dism = "" THEN ""
  ELSE LET x == s.k[m.r] IN
       IF x.kind # "mock" \/ x.imode = "err" THEN "" ELSE IF Len(x.ism) = 0 THEN c.dism ELSE x.ism[1]
Accepts(s, i, meta, m) ==
  i \in DOMAIN s.k /\ s.k[i].kind = "mock" /\
  (s.k[i].vmode = "yes" \/ (s.k[i].vmode = "acc" /\ \E j \in DOMAIN s.k[i].acc : s.k[i].acc[j] = <<meta, m>>))
XStep(gg, s, c, r) ==
  Isk(c, "Process") =>
    LET m == c.m.msg
        due == /\ m.v = 3 /\ m.d = 5 /\ m \notin s.k["mb"].dl
               /\ Ism(s, m) # "" /\ Accepts(s, Ism(s, m), c.m.meta, m) IN
    /\ r.ok => due
    /\ (due /\ s.k[m.r].rmode = "ok" /\ c.f = <<>>) => r.ok
    /\ r.ok => /\ Evs(r, "handle") = << <<"handle", m.r, "mb", m.o, <<32, m.s>>, m.b, <<>> >> >>
               /\ Evs(r, "procid") = << <<"procid", "mb", m>> >>
               /\ Evs(r, "proc") = << <<"proc", "mb", m.o, m.s, m.r>> >>
               /\ Bal(r.st, m.r) = Bal(s, m.r)
XState(gg, s) == TRUE
XTag(gg, s, c) == IF Isk(c, "Process") THEN (IF c.m.msg \in s.k["mb"].dl THEN "/replay" ELSE "/first") ELSE ""
XLen(d) == IF d THEN 5 ELSE 4
=============================================================================
