------------------------------ MODULE MC_C12 ------------------------------
(* The gas paymaster charges exactly the quote and refunds the rest.       *)
EXTENDS MC
U(x) == <<"uosmo", x>>
Ua(x) == <<"uatom", x>>
E10 == <<0, 0, 100>>                  \* 10^10
Half == <<0, 0, 50>>
Third == <<3333, 3333, 33>>           \* 3333333333
Big9 == <<9999, 9999, 9999, 9999, 9999, 9999, 9999, 9999, 9999, 99>>   \* 10^38-1
M1 == MsgR(3, 0, 5, "z1", 6, "r1", Raw("aa"))
M2 == MsgR(3, 1, 5, "u4", -7, "r2", Raw(""))
M3 == MsgR(3, 2, 5, "z1", 8, "r2", Raw(""))
Own(a, x) == X("u1", a, x)
Data(d, rate, price) == Own("or", [k |-> "SetGasData", c |-> <<d, rate, price>>])
Pay(s, d, g_, to, f) == XF(s, "ig", [k |-> "PayForGas", id |-> M1, d |-> d, g |-> g_, to |-> to], f)
Pd(meta, m, f) == XF("u2", "ig", [k |-> "PostDispatch", meta |-> meta, msg |-> m], f)
Igp(g_, to) == <<"igp", g_, IF to = "" THEN 0 ELSE IF to = "u3" THEN 20 ELSE 32, to>>
XSetup == << InstC("or", "oracle", [owner |-> "u1"]), InstC("or2", "oracle", [owner |-> "u1"]),
  InstC("ig", "igp", [owner |-> "u1", denom |-> "uosmo", gas |-> <<7>>, benef |-> "u3"]),
  Own("or", [k |-> "SetGasDatas", cfg |-> << <<6, Half, <<3>> >>, <<-7, E10, <<1>> >> >>]), Own("or2", [k |-> "SetGasData", c |-> <<6, E10, <<2>> >>]),
  Own("ig", [k |-> "SetRoutes", set |-> << <<6, <<"or">> >>, <<-7, <<"or">> >> >>]),
  Bank("u2", << Ua(<<0, 1>>), U(<<0, 1>>) >>), Bank("ig", << Ua(<<2>>) >>) >>
XCalls(s) ==
  << Pay("u2", 6, <<1>>, "u4", <<U(<<1>>)>>), Pay("u2", 6, <<3>>, "u4", <<U(<<4>>)>>), Pay("u2", 6, <<3>>, "u4", <<U(<<3>>)>>), Pay("u2", 6, <<3>>, "u2", <<U(<<50>>)>>),
     Pay("u2", 6, <<3>>, "u4", <<Ua(<<9>>)>>), Pay("u2", 6, <<3>>, "u4", <<Ua(<<1>>), U(<<9>>)>>), Pay("u2", 6, <<>>, "u4", <<>>), Pay("u2", 6, <<>>, "u4", <<U(<<5>>)>>),
     Pay("u2", 6, <<3>>, "!bad", <<U(<<5>>)>>), Pay("u2", 6, <<2>>, "!bad", <<U(<<3>>)>>), Pay("u2", 8, <<1>>, "u4", <<U(<<5>>)>>), Pay("u2", -7, <<20>>, "u3", <<U(<<21>>)>>),
     Pd(Raw(""), M1, <<U(<<10>>)>>), Pd(Raw(""), M1, <<U(<<25>>)>>), Pd(Raw("ff"), M1, <<U(<<9>>)>>), Pd(Igp(<<5>>, "u3"), M1, <<U(<<9>>)>>), Pd(Igp(<<5>>, "r2"), M1, <<U(<<8>>)>>),
     Pd(Igp(<<>>, "u3"), M1, <<>>), Pd(Igp(<<4>>, ""), M2, <<U(<<6>>)>>), Pd(Raw(""), M2, <<U(<<8>>)>>), Pd(Raw(""), M3, <<U(<<9>>)>>), Pd(Raw(""), M1, <<Ua(<<12>>)>>),
     Pd(Igp(Big9, "u3"), M1, <<U(<<9>>)>>),
     Own("ig", [k |-> "SetGas", cfg |-> << <<6, <<2>> >> >>]), Own("ig", [k |-> "UnsetGas", ds |-> <<6>>]), Own("ig", [k |-> "SetDefaultGas", g |-> <<>>]),
     Data(6, Third, <<3>>), Data(6, E10, <<>>), Data(6, <<1>>, <<9>>), Data(6, <<>>, <<2>>), Data(6, Big9, Big9), Own("ig", [k |-> "SetRoute", d |-> 6, r |-> <<"or2">>]), Own("ig", [k |-> "SetRoute", d |-> 6, r |-> <<>>]),
     X("u3", "ig", [k |-> "Claim"]), X("u1", "ig", [k |-> "Claim"]), X("u4", "ig", [k |-> "Claim"]),
     Own("ig", [k |-> "SetBenef", x |-> "u4"]), X("u3", "ig", [k |-> "SetBenef", x |-> "u2"]), Own("ig", [k |-> "SetBenef", x |-> "!bad"]) >>
Quo(meta, m) == [a |-> "ig", k |-> "Quote", meta |-> meta, msg |-> m]
Qg(d, g_) == [a |-> "ig", k |-> "QuoteGas", d |-> d, g |-> g_]
XQs(s) == << Quo(Raw(""), M1), Quo(Raw("ff"), M2), Quo(Igp(<<5>>, ""), M1), Quo(Igp(<<>>, "u3"), M1), Quo(Igp(<<3>>, "r2"), M2), Quo(Raw(""), M3), Quo(Igp(Big9, ""), M1),
             Qg(6, <<>>), Qg(6, <<1>>), Qg(6, <<3>>), Qg(6, Big9), Qg(-7, <<5>>), Qg(8, <<1>>), Q("ig", "Benef"),
             Q("ig", "allbal"), Q("u2", "allbal"), Q("u3", "allbal"), Q("u4", "allbal"), Q("r2", "allbal"), Q("z1", "allbal") >>
XG0 == 0
XUpd(gg, s, c, r) == 0
Ob(s, x) == CGet(Bal(s, x), "uosmo")
\* x is floor(g price rate / 10^10)
Floor(x, g_, price, rate) == LET p == BMul(BMul(g_, price), rate) y == BMul(x, E10) IN BLe(y, p) /\ BLt(p, BAdd(y, E10))
XStep(gg, s, c, r) ==
  /\ (Isk(c, "PayForGas") \/ Isk(c, "PostDispatch")) =>
     LET m == c.m
         pd == c.m.k = "PostDispatch"
         d == IF pd THEN m.msg.d ELSE m.d
         gas == IF ~pd THEN m.g ELSE IF m.meta[1] = "igp" THEN m.meta[2] ELSE IF d \in DOMAIN s.k["ig"].gas THEN s.k["ig"].gas[d] ELSE s.k["ig"].dgas
         to == IF ~pd THEN m.to ELSE IF m.meta[1] = "igp" /\ m.meta[4] # "" THEN m.meta[4] ELSE m.msg.s
         rt == RtGet(s.k["ig"], d)
         f == CM(c.f)
         paid == CGet(f, "uosmo")
         kept == BSub(Ob(r.st, "ig"), Ob(s, "ig")) IN
     IF r.ok
     THEN /\ rt # <<>> /\ d \in DOMAIN s.k[rt[1]].data
          /\ LET od == s.k[rt[1]].data[d] IN Floor(kept, gas, od[2], od[1])
          /\ DOMAIN f \subseteq {"uosmo"} /\ BLe(kept, paid)
          /\ BLe(kept, Ob(r.st, "ig"))
          /\ LET back == BSub(paid, kept) IN
             /\ to = c.s => Ob(r.st, c.s) = BSub(Ob(s, c.s), kept)
             /\ to # c.s => Ob(r.st, c.s) = BSub(Ob(s, c.s), paid) /\ Ob(r.st, to) = BAdd(Ob(s, to), back)
             /\ Evs(r, "gas") = << <<"gas", "ig", c.s, d, IF pd THEN m.msg ELSE m.id, gas, back, kept, paid>> >>
             /\ Query(s, Qg(d, gas)) = R(kept)
             /\ pd => Query(s, Quo(m.meta, m.msg)) = R(CSeq(s, COne("uosmo", kept)))
     ELSE \/ rt = <<>> \/ (IF rt = <<>> THEN TRUE ELSE d \notin DOMAIN s.k[rt[1]].data)
          \/ Query(s, Qg(d, gas)) = ER
          \/ ~CLe(f, Bal(s, c.s)) \/ ~(DOMAIN f \subseteq {"uosmo"})
          \/ BLt(paid, Query(s, Qg(d, gas))[2])
          \/ (~Valid(to) /\ BLt(Query(s, Qg(d, gas))[2], paid))
  /\ Isk(c, "Claim") => (r.ok <=> c.s = s.k["ig"].benef /\ Ob(s, "ig") # <<>>)
                        /\ (r.ok => Ob(r.st, "ig") = <<>> /\ Ob(r.st, c.s) = BAdd(Ob(s, c.s), Ob(s, "ig")))
  /\ (Isk(c, "SetBenef") /\ r.ok) => c.s = "u1"
XState(gg, s) == TRUE
XTag(gg, s, c) == ""
XLen(d) == IF d THEN 4 ELSE 3
=============================================================================
