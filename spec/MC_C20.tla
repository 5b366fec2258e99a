------------------------------ MODULE MC_C20 ------------------------------
(* The fee hook charges its fee and only its owner withdraws.               *)
EXTENDS MC
U(n) == <<"uosmo", <<n>> >>
Ua(n) == <<"uatom", <<n>> >>
Z(d) == <<d, <<>> >>
M1 == MsgR(3, 0, 5, "z1", 6, "r1", Raw("aa"))
Pd(f) == XF("u2", "fe", [k |-> "PostDispatch", meta |-> Raw("01"), msg |-> M1], f)
Fee(s, c) == X(s, "fe", [k |-> "SetFee", fee |-> c])
Claim(s, to) == X(s, "fe", [k |-> "FeeClaim", to |-> to])
Big38 == <<9999, 9999, 9999, 9999, 9999, 9999, 9999, 9999, 9999, 99>>
XSetup == << InstC("fe", "fee", [owner |-> "u1", fee |-> U(3)]), Bank("u2", << Ua(20), U(40), <<"uzzz", <<9>> >> >>) >>
XCalls(s) ==
  << Pd(<<>>), Pd(<<U(2)>>), Pd(<<U(3)>>), Pd(<<U(4)>>), Pd(<<Ua(3)>>), Pd(<<Ua(1), U(3)>>), Pd(<<U(3), <<"uzzz", <<1>> >> >>), Pd(<<Ua(2)>>),
     [Pd(<<>>) EXCEPT !.m.msg = [v |-> -2, b |-> Raw("")]],
     Fee("u1", U(4)), Fee("u1", Z("uosmo")), Fee("u1", Ua(2)), Fee("u1", <<"uatom", Big38>>), Fee("u2", U(1)),
     Claim("u1", <<>>), Claim("u1", <<"u3">>), Claim("u1", <<"fe">>), Claim("u1", <<"!bad">>), Claim("u2", <<>>), Claim("u2", <<"u2">>), Claim("u3", <<"u3">>),
     X("u1", "fe", [k |-> "InitOwn", to |-> "u3"]), X("u3", "fe", [k |-> "ClaimOwn"]) >>
XQs(s) == << Q("fe", "Fee"), [a |-> "fe", k |-> "Quote", meta |-> Raw("01"), msg |-> M1], [a |-> "fe", k |-> "Quote", meta |-> Raw(""), msg |-> [v |-> -2, b |-> Raw("")]],
             Q("fe", "allbal"), Q("u1", "allbal"), Q("u2", "allbal"), Q("u3", "allbal"), Q("fe", "Owner"), Q("fe", "HMailbox") >>
XG0 == [fee |-> U(3), own |-> "u1", got |-> NoCoins]
XUpd(gg, s, c, r) ==
  IF ~r.ok THEN gg
  ELSE CASE c.m.k = "SetFee" -> [gg EXCEPT !.fee = c.m.fee]
         [] c.m.k = "ClaimOwn" -> [gg EXCEPT !.own = c.s]
         [] c.m.k = "PostDispatch" -> [gg EXCEPT !.got = CAdd(@, CM(c.f))]
         [] c.m.k = "FeeClaim" -> IF c.m.to = <<"fe">> THEN gg ELSE [gg EXCEPT !.got = NoCoins]
         [] OTHER -> gg
XStep(gg, s, c, r) ==
  /\ ~r.ok => r.st = s
  /\ (Isk(c, "PostDispatch") /\ CLe(CM(c.f), Bal(s, c.s))) =>
       LET f == CM(c.f) IN r.ok <=> DOMAIN f \subseteq {gg.fee[1]} /\ BLe(gg.fee[2], CGet(f, gg.fee[1]))
  /\ Isk(c, "SetFee") => (r.ok <=> c.s = gg.own)
  /\ Isk(c, "FeeClaim") =>
       LET to == IF c.m.to = <<>> THEN gg.own ELSE c.m.to[1] IN
       /\ r.ok <=> c.s = gg.own /\ gg.got # NoCoins /\ Valid(to)
       /\ (r.ok /\ to # "fe") => Eq(Bal(r.st, to), CNorm(CAdd(Bal(s, to), gg.got))) /\ Bal(r.st, "fe") = NoCoins
XState(gg, s) == /\ Eq(Bal(s, "fe"), CNorm(gg.got))
                 /\ Query(s, XQs(s)[2]) = R(CSeq(s, COne(gg.fee[1], gg.fee[2]))) /\ Query(s, Q("fe", "Fee")) = R(gg.fee)
XTag(gg, s, c) == ""
XLen(d) == IF d THEN 9 ELSE 6
=============================================================================
