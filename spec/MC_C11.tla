------------------------------ MODULE MC_C11 ------------------------------
(* The aggregate hook notifies every hook once, each with its quote.       *)
EXTENDS MC
U(n) == <<"uosmo", <<n>> >>
Ua(n) == <<"uatom", <<n>> >>
M1 == MsgR(3, 0, 5, "z1", 6, "r1", Raw("aa"))
M2 == MsgR(3, 1, 5, "z1", -7, "r2", Raw(""))
Ms == <<M1, M2>>
Own(a, x) == X("u1", a, x)
Set(s, a, hs) == X(s, a, [k |-> "SetHooks", hooks |-> hs])
Pd(a, meta, m, f) == XF("u2", a, [k |-> "PostDispatch", meta |-> meta, msg |-> m], f)
H1 == [fee |-> <<U(1)>>, tab |-> << <<Raw("77"), 6, <<U(9)>> >>, <<Raw("01"), -7, <<Ua(4)>> >> >>, hmode |-> "strict"]
H2 == [fee |-> <<Ua(1), U(2)>>, hmode |-> "strict"]
XSetup == << MockC("h1", H1), MockC("h2", H2), MockC("h3", [fee |-> <<>>]), InstC("fe", "fee", [owner |-> "u1", fee |-> U(3)]),
  InstC("a2", "hagg", [owner |-> "u1", hooks |-> <<"h2", "fe">>]), InstC("ag", "hagg", [owner |-> "u1", hooks |-> <<"h1">>]),
  Bank("u2", << Ua(90), U(90) >>) >>
XCalls(s) ==
  << Set("u1", "ag", <<"h1", "h2">>), Set("u1", "ag", <<"h2", "h1">>), Set("u1", "ag", <<"h1", "h1", "h3">>), Set("u1", "ag", <<>>), Set("u1", "ag", <<"h3">>),
     Set("u1", "ag", <<"fe", "h2", "fe">>), Set("u1", "ag", <<"a2", "h1">>), Set("u1", "ag", <<"h1", "!bad">>), Set("u2", "ag", <<"h3">>), Set("u1", "ag", <<"nobody">>),
     Set("u1", "a2", <<"h3", "h1">>), MockC("h1", [fee |-> <<U(1)>>, hmode |-> "fail"]), MockC("h1", H1), MockC("h2", [fee |-> <<Ua(1)>>, qmode |-> "err"]),
     Own("fe", [k |-> "SetFee", fee |-> <<"uosmo", <<>> >>]), Bank("ag", <<U(5)>>),
     Pd("ag", Raw("00"), M1, <<>>), Pd("ag", Raw("00"), M1, <<U(1)>>), Pd("ag", Raw("00"), M1, <<Ua(1), U(3)>>), Pd("ag", Raw("77"), M1, <<U(9)>>),
     Pd("ag", Raw("77"), M1, <<Ua(1), U(11)>>), Pd("ag", Raw("01"), M2, <<Ua(5), U(2)>>), Pd("ag", Raw("01"), M2, <<Ua(4)>>), Pd("ag", Raw("00"), M2, <<Ua(2), U(8)>>),
     Pd("ag", Raw("00"), M1, <<U(2)>>), Pd("ag", Raw("00"), M1, <<Ua(1), U(12)>>), Pd("ag", Raw("00"), [v |-> -2, b |-> Raw("03")], <<U(1)>>) >>
Quo(a, meta, m) == [a |-> a, k |-> "Quote", meta |-> meta, msg |-> m]
QuoteQs == FlattenSeq([j \in DOMAIN Ms |-> << Quo("ag", Raw("00"), Ms[j]), Quo("ag", Raw("77"), Ms[j]), Quo("ag", Raw("01"), Ms[j]), Quo("a2", Raw("01"), Ms[j]) >>])
XQs(s) == QuoteQs \o << Q("ag", "Hooks"), Q("ag", "allbal"), Q("a2", "allbal"), Q("fe", "allbal"), Q("h1", "allbal"), Q("h2", "allbal"), Q("h3", "allbal"), Q("u2", "allbal") >>
(* the hooks as last set *)
XG0 == <<"h1">>
XUpd(gg, s, c, r) == IF r.ok /\ Isk(c, "SetHooks") /\ c.a = "ag" THEN c.m.hooks ELSE gg
Qt(s, h, meta, m) == Query(s, Quo(h, meta, m))
Sum(qs) == FoldLeft(LAMBDA acc, q : CAdd(acc, CM(q[2])), NoCoins, qs)
XStep(gg, s, c, r) ==
  /\ (Isk(c, "SetHooks") /\ r.ok) => c.s = "u1"
  /\ (Isk(c, "PostDispatch") /\ c.m.msg.v # -2) =>
       LET m == c.m
           qs == [j \in DOMAIN gg |-> Qt(s, gg[j], m.meta, m.msg)]
           quotes == \A j \in DOMAIN gg : qs[j][1] = "ok"
           have == CAdd(Bal(s, "ag"), CM(c.f))
           \* what a direct mock is told; nested ones are not looked into
           direct == SelectSeq(Evs(r, "hook"), LAMBDA e : e[3] = "ag")
           mocks == SelectSeq([j \in DOMAIN gg |-> <<gg[j], j>>], LAMBDA x : Kind(s, x[1]) = "mock") IN
       IF r.ok THEN /\ quotes /\ CLe(Sum(qs), have)
                    /\ direct = [j \in DOMAIN mocks |-> <<"hook", mocks[j][1], "ag", m.meta, m.msg, qs[mocks[j][2]][2]>>]
                    /\ Eq(Bal(r.st, "ag"), CNorm(CSub(have, Sum(qs))))
                    /\ \A h \in ToSet(gg) : h # "a2" =>      \* a2 hands on what it gets
                         Eq(Bal(r.st, h), CNorm(FoldLeft(LAMBDA acc, j : IF gg[j] = h THEN CAdd(acc, CM(qs[j][2])) ELSE acc, 
                              CAdd(Bal(s, h), IF h \in ToSet(s.k["a2"].hooks) /\ "a2" \in ToSet(gg) THEN CM(Qt(s, h, m.meta, m.msg)[2]) ELSE NoCoins),
                              [j \in DOMAIN gg |-> j])))
       ELSE \/ ~quotes \/ ~CLe(Sum(qs), have)
            \/ s.k["h1"].hmode = "fail" /\ {"h1", "a2"} \cap ToSet(gg) # {}
XState(gg, s) ==
  /\ Query(s, Q("ag", "Hooks")) = R(gg)
  /\ \A j \in DOMAIN QuoteQs : LET q == QuoteQs[j] l == s.k[q.a].hooks qs == [n \in DOMAIN l |-> Qt(s, l[n], q.meta, q.msg)] IN
       Query(s, q) = IF \A n \in DOMAIN l : qs[n][1] = "ok" THEN R(CSeq(s, Sum(qs))) ELSE ER
XTag(gg, s, c) == ""
XLen(d) == IF d THEN 4 ELSE 3
=============================================================================
