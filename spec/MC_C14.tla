------------------------------ MODULE MC_C14 ------------------------------
(* A pair of warp routes on two chains conserves value: what is locked on   *)
(* one equals what exists on the other and what is on the way.              *)
(* MCV picks the tokens of the two sides: n native, c cw20.                 *)
EXTENDS MC
NatA == IOEnv.MCV \in {"nn", "nc"}
NatB == IOEnv.MCV \in {"nn", "cn"}
DA == 1
DB == -2
U(n) == <<"uosmo", <<n>> >>
Ua(n) == <<"uatom", <<n>> >>
TokB == "F/wb/utok"
Own(a, x) == X("u1", a, x)
Mb(a, d, hook) == << InstC(a, "mailbox", [owner |-> "u1", dom |-> d]), Own(a, [k |-> "SetDefaultIsm", x |-> "i1"]),
                     Own(a, [k |-> "SetDefaultHook", x |-> hook]), Own(a, [k |-> "SetRequiredHook", x |-> "rq"]) >>
Side(a, nat, x) == InstC(a, IF nat THEN "wnat" ELSE "wcw", [owner |-> "u1"] @@ x)
XSetup == << MockC("i1", [vmode |-> "genuine"]), MockC("rq", E0), MockC("h1", E0) >> \o Mb("mba", DA, "h1") \o Mb("mbb", DB, "h1")
  \o << InstC("cw", "cw20", [minter |-> "nobody", bals |-> << <<"u1", <<4>> >>, <<"u2", <<1>> >> >>]),
        Side("wa", NatA, IF NatA THEN [mb |-> "mba", mode |-> "collateral", denom |-> "uosmo"] ELSE [mb |-> "mba", mode |-> "collateral", tok |-> "cw"]),
        Side("wb", NatB, IF NatB THEN [mb |-> "mbb", mode |-> "bridged", denom |-> "utok"] ELSE [mb |-> "mbb", mode |-> "bridged"]),
        Own("wa", [k |-> "SetRoute", d |-> DB, r |-> << <<32, "wb">> >>]), Own("wb", [k |-> "SetRoute", d |-> DA, r |-> << <<32, "wa">> >>]),
        Bank("u1", << Ua(3), U(4) >>), Bank("u2", << Ua(1), U(1) >>) >>
  \o (IF NatA THEN <<>> ELSE << X("u1", "cw", [k |-> "IncAllow", sp |-> "wa", amt |-> <<5>>]) >>)
  \o (IF NatB THEN <<>> ELSE << X("u2", "wb.tok", [k |-> "IncAllow", sp |-> "wb", amt |-> <<9>>]) >>)
Tr(s, a, d, to, n, f) == XF(s, a, [k |-> "TransferRemote", d |-> d, r |-> to, amt |-> n, hook |-> <<>>, meta |-> <<>>], f)
P(x) == <<32, x>>
A(s, to, n, more) == Tr(s, "wa", DB, to, n, IF NatA THEN more \o (IF n = <<>> THEN <<>> ELSE <<<<"uosmo", n>>>>) ELSE more)
B(s, to, n, more) == Tr(s, "wb", DA, to, n, IF NatB THEN (IF n = <<>> THEN <<>> ELSE <<<<TokB, n>>>>) \o more ELSE more)
Pr(m) == X("u3", IF m.d = DA THEN "mba" ELSE "mbb", [k |-> "Process", meta |-> Raw(""), msg |-> m])
Tm(to, n) == <<"tm", to, n, "">>
Forged == MsgR(3, 0, DA, "wa", DB, "wb", Tm("u3", <<3>>))
XCalls(s) ==
  << A("u1", P("u2"), <<1>>, <<>>), A("u1", P("u2"), <<2>>, <<Ua(1)>>), A("u1", P("u0x"), <<1>>, <<>>), A("u1", P("u2"), <<9>>, <<>>),
     A("u1", <<20, "u2">>, <<1>>, <<>>), Tr("u1", "wa", 7, P("u2"), <<1>>, <<U(1)>>), A("u1", P("u2"), <<>>, <<>>), A("u2", P("u2"), <<1>>, <<>>),
     B("u2", P("u3"), <<1>>, <<>>), B("u2", P("u1"), <<2>>, <<Ua(1)>>), B("u2", P("u3"), <<9>>, <<>>), B("u1", P("u1"), <<1>>, <<>>),
     \* more attached than stated, and less
     Tr("u1", "wa", DB, P("u2"), <<1>>, <<U(2)>>), Tr("u1", "wa", DB, P("u2"), <<2>>, <<U(1)>>), Tr("u2", "wb", DA, P("u3"), <<1>>, <<<<TokB, <<2>>>>>>),
     X("u1", "wb", [k |-> "Handle", o |-> DA, s |-> P("wa"), b |-> Tm("u1", <<1>>)]), X("u1", "wa", [k |-> "Handle", o |-> DB, s |-> P("wb"), b |-> Tm("u1", <<1>>)]),
     X("u1", "mba", [k |-> "Dispatch", d |-> DB, r |-> P("wb"), b |-> Tm("u1", <<3>>), hook |-> <<>>, meta |-> <<>>]), Pr(Forged) >>
  \o (LET l == SetToSeq(s.sent) IN [j \in DOMAIN l |-> Pr(l[j])])
  \* the same message again, with other metadata
  \o (LET l == SetToSeq(s.k["mba"].dl \cup s.k["mbb"].dl) IN [j \in DOMAIN l |-> [Pr(l[j]) EXCEPT !.s = "u2", !.m.meta = Raw("01")]])
Us == <<"u1", "u2", "u3", "u0x", "wa", "wb", "mba", "mbb", "h1", "rq">>
TQs == (IF NatA THEN <<>> ELSE [j \in DOMAIN Us |-> [a |-> "cw", k |-> "CBal", x |-> Us[j]]])
       \o (IF NatB THEN <<>> ELSE [j \in DOMAIN Us |-> [a |-> "wb.tok", k |-> "CBal", x |-> Us[j]]] \o << Q("wb.tok", "CSupply") >>)
XQs(s) == [j \in DOMAIN Us |-> Q(Us[j], "allbal")] \o TQs \o << Q("mba", "Nonce"), Q("mbb", "Nonce"), Q("wa", "TokMode"), Q("wb", "TokType"), Q("cw", "CSupply") >>

(* holdings of either token, apart from the way they are kept *)
HasA(s, x) == IF NatA THEN CGet(Bal(s, x), "uosmo") ELSE TBal(s.k["cw"], x)
HasB(s, x) == IF NatB THEN CGet(Bal(s, x), TokB) ELSE TBal(s.k["wb.tok"], x)
Holders(s) == IF NatB THEN DOMAIN s.b ELSE DOMAIN s.k["wb.tok"].bal
Sum(S, f(_)) == FoldSet(LAMBDA x, acc : BAdd(acc, f(x)), <<>>, S)
Real(m) == m.b[1] = "tm" /\ <<m.s, m.r>> \in {<<"wa", "wb">>, <<"wb", "wa">>}
Moving(s) == {m \in s.sent : Real(m) /\ m \notin s.k["mba"].dl \cup s.k["mbb"].dl}
Conserved(s) == HasA(s, "wa") = BAdd(Sum(Holders(s), LAMBDA x : HasB(s, x)), Sum(Moving(s), LAMBDA m : m.b[3]))
Diff(s, t, a, b, n, has(_, _)) ==       \* n left a and reached b, nobody else's holding changed
  /\ BAdd(has(t, a), n) = has(s, a) /\ (b # "" => has(t, b) = BAdd(has(s, b), n))
  /\ \A x \in ToSet(Us) \ {a, b} : has(s, x) = has(t, x)
Kept(s, t, has(_, _)) == \A x \in ToSet(Us) : has(s, x) = has(t, x)
Came(s, t, b, n, has(_, _)) == /\ has(t, b) = BAdd(has(s, b), n)
                               /\ \A x \in ToSet(Us) \ {b} : has(s, x) = has(t, x)
XG0 == 0
XUpd(gg, s, c, r) == 0
XStep(gg, s, c, r) ==
  LET t == r.st IN
  /\ ~r.ok => t = s
  /\ (r.ok /\ Isk(c, "TransferRemote")) =>
       \* any surplus of the token itself goes to the dispatch hooks, like other surplus
       LET over == IF c.a = "wa" /\ NatA THEN BSub(CGet(CM(c.f), "uosmo"), c.m.amt)
                   ELSE IF c.a = "wb" /\ NatB THEN BSub(CGet(CM(c.f), TokB), c.m.amt) ELSE <<>> IN
       /\ c.a = "wa" => Kept(s, t, HasB) /\ HasA(t, "wa") = BAdd(HasA(s, "wa"), c.m.amt)
                        /\ (over = <<>> => Diff(s, t, c.s, "wa", c.m.amt, HasA))
       /\ c.a = "wb" => Kept(s, t, HasA) /\ (over = <<>> => Diff(s, t, c.s, "", c.m.amt, HasB))
       /\ Cardinality(t.sent) = Cardinality(s.sent) + 1
       /\ \E m \in t.sent \ s.sent : Real(m) /\ m.s = c.a /\ m.d = c.m.d /\ m.b = Tm(c.m.r[2], c.m.amt)
       /\ \A x \in {"wa", "wb"} : CGet(Bal(t, x), "uatom") = <<>>
  /\ (r.ok /\ Isk(c, "Process")) =>
       LET m == c.m.msg IN
       /\ m \in Moving(s) /\ m \notin Moving(t)
       /\ m.r = "wb" => Kept(s, t, HasA) /\ Came(s, t, m.b[2], m.b[3], HasB)
       /\ m.r = "wa" => Kept(s, t, HasB) /\ Diff(s, t, "wa", m.b[2], m.b[3], HasA)
  /\ Isk(c, "Handle") => ~r.ok
XState(gg, s) == Conserved(s)
XTag(gg, s, c) == ""
XLen(d) == IF d THEN 7 ELSE 5
=============================================================================
