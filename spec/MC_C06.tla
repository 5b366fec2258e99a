------------------------------ MODULE MC_C06 ------------------------------
(* The merkle hook commits to the dispatched messages it was told of, in   *)
(* order.                                                                  *)
EXTENDS MC
Own(a, x) == X("u1", a, x)
XSetup == << InstC("mb", "mailbox", [owner |-> "u1", dom |-> 5]), InstC("mb2", "mailbox", [owner |-> "u1", dom |-> 5]),
  InstC("mk", "merkle", [mb |-> "mb"]), InstC("mk2", "merkle", [mb |-> "mb2"]), MockC("h1", E0),
  Own("mb", [k |-> "SetDefaultHook", x |-> "mk"]), Own("mb", [k |-> "SetRequiredHook", x |-> "h1"]),
  Own("mb2", [k |-> "SetDefaultHook", x |-> "h1"]), Own("mb2", [k |-> "SetRequiredHook", x |-> "h1"]), Bank("u1", << <<"uosmo", <<50>> >> >>) >>
Di(a, b, hook) == X("u2", a, [k |-> "Dispatch", d |-> 6, r |-> <<32, "r1">>, b |-> Raw(b), hook |-> hook, meta |-> <<>>])
Tell(a, m) == X("u2", a, [k |-> "PostDispatch", meta |-> Raw(""), msg |-> m])
Forged == MsgR(3, 0, 5, "u2", 6, "r1", Raw("ff"))
\* every message there is, and one nobody dispatched
Known(s) == SetToSeq(s.sent)
XCalls(s) ==
  << Di("mb", "aa", <<>>), Di("mb", "aa", <<"h1">>), Di("mb2", "aa", <<>>), Di("mb", "", <<"mk2">>),
     Own("mb", [k |-> "SetRequiredHook", x |-> "mk"]), Tell("mk", Forged), Tell("mk", [v |-> -2, b |-> Raw("03")]),
     XF("u1", "mk", [k |-> "PostDispatch", meta |-> Raw("01"), msg |-> Forged], << <<"uosmo", <<1>> >> >>) >>
  \o [j \in DOMAIN Known(s) |-> Tell("mk", Known(s)[j])] \o [j \in DOMAIN Known(s) |-> Tell("mk2", Known(s)[j])]
XQs(s) == << Q("mk", "Count"), Q("mk", "Root"), Q("mk", "Branch"), Q("mk", "Tree"), Q("mk", "Checkpoint"), Q("mk", "HMailbox"),
             Q("mk2", "Count"), Q("mk2", "Root"), Q("mk2", "Tree"), Q("mb", "LatestId"), Q("mk", "allbal") >>
\* the messages each hook has accepted, in order
XG0 == [mk |-> <<>>, mk2 |-> <<>>]
Adds(r, a) == LET e == Evs(r, "mk") x == SelectSeq(e, LAMBDA y : y[2] = a) IN [j \in DOMAIN x |-> x[j][3]]
XUpd(gg, s, c, r) == IF ~r.ok THEN gg ELSE [a \in DOMAIN gg |-> gg[a] \o Adds(r, a)]
XStep(gg, s, c, r) ==
  /\ Isk(c, "PostDispatch") =>
       /\ r.ok <=> s.k[s.k[c.a].mb].latest = <<c.m.msg>>
       /\ r.ok => /\ Adds(r, c.a) = <<c.m.msg>>
                  /\ Evs(r, "mk")[1][4] = Len(gg[c.a]) /\ Evs(r, "mkins") = << <<"mkins", c.a, Len(gg[c.a])>> >>
  /\ \A j \in DOMAIN Evs(r, "mk") : Evs(r, "mk")[j][3] \in r.st.sent
XState(gg, s) == \A a \in DOMAIN gg : s.k[a].leaves = gg[a] /\ s.k[a].n = Len(gg[a])
XTag(gg, s, c) == ""
XLen(d) == IF d THEN 7 ELSE 5
=============================================================================
