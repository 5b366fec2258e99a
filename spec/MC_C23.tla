------------------------------ MODULE MC_C23 ------------------------------
(* Every kind of contract is set up exactly as asked or not at all, and its *)
(* identity never changes afterwards.                                       *)
EXTENDS Kinds
XSetup == World0 \o << InstC("mb2", "mailbox", [owner |-> "u2", dom |-> -7]) >>
MkX(kd, m) == InstC("x", kd, [owner |-> "u1"] @@ m)
Box(h) == MkX("mailbox", [dom |-> 5, hrp |-> h])
Igp(h) == MkX("igp", [denom |-> "uosmo", benef |-> "u3", gas |-> <<7>>, hrp |-> h])
Agg(isms, t) == MkX("iagg", [isms |-> isms, t |-> t])
Nat1(mode, d) == MkX("wnat", [mb |-> "mb2", mode |-> mode, denom |-> d])
Dm(base) == MkX("wnat", [mb |-> "mb", mode |-> "bridged", denom |-> "utok",
                         dm |-> [desc |-> "a token", units |-> << <<"utok", 0, <<"micro">> >>, <<"tok", 6, <<>> >> >>, base |-> base,
                                 display |-> "tok", name |-> "Tok", sym |-> "TOK"]])
Tok(f) == MkX("wcw", [mb |-> "mb", mode |-> "bridged", tok |-> "", init |-> f @@ NoInit])
Good == [j \in DOMAIN AllKinds |-> Made(AllKinds[j], "u1")] \o
  << Box("foo"), Box(""), Igp("foo"), Agg(<<"h1">>, 1), Agg(<<"h1", "h2">>, 2), MkX("hpaus", [paused |-> TRUE]), MkX("ipaus", [paused |-> FALSE]),
     MkX("hagg", [hooks |-> <<>>]), MkX("hagg", [hooks |-> <<"h2", "h1">>]), MkX("va", [mb |-> "mb2"]), MkX("merkle", [mb |-> "mb2"]), MkX("merkle", [mb |-> "u2"]),
     MkX("iroute", [isms |-> <<>>]), MkX("iroute", [isms |-> << <<6, "h1">>, <<6, "h2">> >>]),
     Nat1("bridged", "utok"), Nat1("collateral", "uosmo"), Dm("F/x/utok"),
     Tok(E0), Tok([bals |-> << <<"u1", <<5>> >>, <<"u2", <<>> >> >>]), Tok([mint |-> <<"u2">>]), Tok([mint |-> <<"u2", <<3>> >>, bals |-> << <<"u2", <<4>> >> >>]),
     Tok([name |-> "Tok", sym |-> "a-b-c", dec |-> 18]) >>
Bad == << Box("Foo"), Box("foo1"), Igp("FOO"), MkX("igp", [denom |-> "uosmo", benef |-> "!bad", gas |-> <<7>>]),
     Agg(<<"h1">>, 0), Agg(<<>>, 0), Agg(<<"h1">>, 2), Agg(<<"h1", "!hrp">>, 1), MkX("hagg", [hooks |-> <<"h1", "">>]),
     MkX("va", [mb |-> "u1"]), MkX("va", [mb |-> "!bad"]), MkX("merkle", [mb |-> "!upper"]), MkX("iroute", [isms |-> << <<6, "h1">>, <<7, "!bad">> >>]),
     MkX("wnat", [mb |-> "!bad", mode |-> "collateral", denom |-> "uosmo"]), MkX("wcw", [mb |-> "", mode |-> "bridged", tok |-> ""]),
     MkX("wcw", [mb |-> "mb", mode |-> "collateral", tok |-> "!sum"]), Dm("uosmo"), Dm("F/x/other"),
     Tok([name |-> "To"]), Tok([sym |-> "TOK3N"]), Tok([dec |-> 19]), Tok([bals |-> << <<"u1", <<5>> >>, <<"u1", <<5>> >> >>]), Tok([bals |-> << <<"!bad", <<5>> >> >>]),
     Tok([bals |-> << <<"u1", BMax128>>, <<"u2", <<1>> >> >>]) >>
   \o [j \in DOMAIN WithOwner |-> Made(WithOwner[j], "!bad")]
XCalls(s) ==
  IF Kind(s, "x") = "" THEN Good \o Bad
  ELSE LET ad == Admin(s.k["x"].kind) IN
       FlattenSeq([n \in 1..2 |-> [j \in DOMAIN ad |-> X(<<"u1", "u2">>[n], "x", ad[j])]])
       \o << X("u1", "x", [k |-> "InitOwn", to |-> "u2"]), X("u2", "x", [k |-> "ClaimOwn"]) >>
Kin == << "HMailbox", "ModuleType", "TokType", "TokMode", "VMailbox", "VDomain", "Hrp", "LocalDomain", "Owner", "Pending" >>
TokQs == << Q("x.tok", "CInfo"), Q("x.tok", "CMinter"), Q("x.tok", "CSupply"), [a |-> "x.tok", k |-> "CBal", x |-> "u1"], [a |-> "x.tok", k |-> "CBal", x |-> "u2"] >>
XQs(s) == IF Kind(s, "x") = "" THEN <<>>
          ELSE [j \in DOMAIN Kin |-> Q("x", Kin[j])] \o Settings(s.k["x"].kind) \o (IF IsC(s, "x.tok") THEN TokQs ELSE <<>>)
(* what was asked for, on its own *)
XG0 == <<>>
XUpd(gg, s, c, r) == IF r.ok /\ c.t = "inst" THEN <<c.m>> ELSE gg
A(s, k) == Query(s, Q("x", k))
XStep(gg, s, c, r) ==
  /\ ~r.ok => r.st = s
  /\ c.t = "inst" => (r.ok <=> c \in Range(Good))
  /\ c.t = "inst" /\ r.ok =>
       LET kd == c.m.kind  n == r.st IN
       /\ kd # "va" /\ kd # "merkle" => A(n, "Owner") = R(c.m.owner) /\ A(n, "Pending") = R(<<>>)
       /\ kd \in {"hpaus", "ipaus"} => A(n, "Paused") = R(c.m.paused)
       /\ kd = "iagg" => A(n, "Isms") = R(<<c.m.t, c.m.isms>>)
       /\ kd = "hagg" => A(n, "Hooks") = R(c.m.hooks)
       /\ kd = "fee" => A(n, "Fee") = R(c.m.fee)
       /\ kd = "igp" => A(n, "Benef") = R(c.m.benef) /\ A(n, "DefaultGas") = R(c.m.gas)
       /\ kd = "mailbox" => A(n, "Nonce") = R(0) /\ A(n, "DefaultIsm") = ER /\ A(n, "DefaultHook") = ER /\ A(n, "RequiredHook") = ER
       /\ (r.ev # <<>>) <=> (kd = "wnat" /\ "dm" \in DOMAIN c.m)
       /\ kd = "wcw" /\ c.m.mode = "bridged" =>
            LET i == InitOf(c.m)  t == "x.tok" IN
            /\ Query(n, Q(t, "CMinter")) = R(<<"x", <<>>>>)
            /\ Query(n, Q(t, "CInfo")) = R(<<i.name, i.sym, i.dec>>)
            /\ \A j \in DOMAIN i.bals : Query(n, [a |-> t, k |-> "CBal", x |-> i.bals[j][1]]) = R(i.bals[j][2])
(* identity *)
XState(gg, s) ==
  gg # <<>> =>
    LET m == gg[1]  kd == m.kind IN
    /\ A(s, "Hrp") = (IF kd = "mailbox" THEN R(HrpOf(m)) ELSE ER)
    /\ A(s, "LocalDomain") = (IF kd = "mailbox" THEN R(m.dom) ELSE ER)
    /\ A(s, "VMailbox") = (IF kd = "va" THEN R(m.mb) ELSE ER)
    /\ A(s, "VDomain") = (IF kd = "va" THEN R(IF m.mb = "mb" THEN 11 ELSE -7) ELSE ER)
    /\ A(s, "HMailbox") = (IF kd = "merkle" THEN R(m.mb) ELSE IF kd \in {"hagg", "fee", "hpaus", "hroute", "hcustom", "hfall", "igp"} THEN R("unrestricted") ELSE ER)
    /\ A(s, "ModuleType") = (IF kd = "iagg" THEN R("aggregation") ELSE IF kd = "imulti" THEN R("message_id_multisig")
                             ELSE IF kd = "ipaus" THEN R("null") ELSE IF kd = "iroute" THEN R("routing") ELSE ER)
    /\ A(s, "TokMode") = (IF kd \in {"wnat", "wcw"} THEN R(m.mode) ELSE ER)
    /\ A(s, "TokType") = (IF kd = "wnat" THEN R(<<"native", IF m.mode = "bridged" THEN "F/x/utok" ELSE m.denom>>)
                          ELSE IF kd = "wcw" THEN R(<<"cw20", IF m.mode = "bridged" THEN "x.tok" ELSE m.tok>>) ELSE ER)
XTag(gg, s, c) == ""
XLen(d) == IF d THEN 8 ELSE 5
=============================================================================
