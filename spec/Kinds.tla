------------------------------- MODULE Kinds -------------------------------
(* One contract "x" of each kind: how it is made, its administrative        *)
(* operations, and what it answers about its settings.                      *)
EXTENDS MC

WithOwner == <<"mailbox", "hagg", "fee", "hpaus", "hroute", "hcustom", "hfall", "igp", "oracle", "iagg", "imulti", "ipaus", "iroute", "wnat", "wcw">>
AllKinds == WithOwner \o <<"va", "merkle">>
Co(d, n) == <<d, <<n>> >>
World0 == << InstC("mb", "mailbox", [owner |-> "u9", dom |-> 11]),
             InstC("cw", "cw20", [minter |-> "nobody", bals |-> << <<"u1", <<9>> >> >>]),
             MockC("h1", [fee |-> <<Co("uosmo", 2)>>]), MockC("h2", E0), Bank("u1", << Co("uatom", 90), Co("uosmo", 90) >>) >>
Made(kd, o) ==
  LET m == CASE kd = "mailbox" -> [dom |-> 5]
             [] kd \in {"va", "merkle"} -> [mb |-> "mb"]
             [] kd = "hagg" -> [hooks |-> <<"h1">>]
             [] kd = "fee" -> [fee |-> Co("uosmo", 3)]
             [] kd = "hpaus" -> [paused |-> FALSE]
             [] kd = "ipaus" -> [paused |-> TRUE]
             [] kd = "igp" -> [denom |-> "uosmo", benef |-> "u3", gas |-> <<7>>]
             [] kd = "iagg" -> [isms |-> <<"h1", "h2">>, t |-> 1]
             [] kd = "iroute" -> [isms |-> << <<5, "h1">> >>]
             [] kd = "wnat" -> [mb |-> "mb", mode |-> "bridged", denom |-> "utok"]
             [] kd = "wcw" -> [mb |-> "mb", mode |-> "collateral", tok |-> "cw"]
             [] OTHER -> E0
  IN InstC("x", kd, [owner |-> o] @@ m)
Route(kd, x) == IF kd \in {"wnat", "wcw"} THEN <<32, x>> ELSE x
P(x) == <<32, x>>
(* well-formed administrative messages of a kind *)
Admin(kd) ==
  (IF kd \in Routers THEN << [k |-> "SetRoute", d |-> 6, r |-> <<Route(kd, "h1")>>], [k |-> "SetRoutes", set |-> << <<6, <<>> >>, <<-1, <<Route(kd, "h2")>> >> >>] >> ELSE <<>>) \o
  CASE kd = "mailbox" -> << [k |-> "SetDefaultIsm", x |-> "h1"], [k |-> "SetDefaultHook", x |-> "h1"], [k |-> "SetRequiredHook", x |-> "h2"] >>
    [] kd = "hagg" -> << [k |-> "SetHooks", hooks |-> <<"h2", "h1">>] >>
    [] kd = "fee" -> << [k |-> "SetFee", fee |-> Co("uatom", 1)], [k |-> "FeeClaim", to |-> <<>>], [k |-> "FeeClaim", to |-> <<"u4">>] >>
    [] kd \in {"hpaus", "ipaus"} -> << [k |-> "Pause"], [k |-> "Release"] >>
    [] kd = "hcustom" -> << [k |-> "Register", regs |-> << <<6, P("r1"), "h1">>, <<6, P("r2"), "h2">> >>, one |-> FALSE], [k |-> "Register", regs |-> << <<6, P("r2"), "h1">> >>, one |-> TRUE],
                            [k |-> "Clear", regs |-> << <<6, P("r1")>> >>, one |-> TRUE], [k |-> "Clear", regs |-> << <<6, P("r2")>>, <<7, P("r1")>> >>, one |-> FALSE] >>
    [] kd = "hfall" -> << [k |-> "SetFallback", x |-> "h1"], [k |-> "SetFallback", x |-> "h2"] >>
    [] kd = "igp" -> << [k |-> "SetDefaultGas", g |-> <<9>>], [k |-> "SetGas", cfg |-> << <<6, <<5>> >>, <<7, <<1>> >> >>], [k |-> "UnsetGas", ds |-> <<6>>], [k |-> "SetBenef", x |-> "u4"] >>
    [] kd = "oracle" -> << [k |-> "SetGasData", c |-> <<6, <<4>>, <<2>> >>], [k |-> "SetGasDatas", cfg |-> << <<6, <<3>>, <<2>> >>, <<7, <<1>>, <<>> >> >>] >>
    [] kd = "iagg" -> << [k |-> "SetIsms", isms |-> <<"h2", "h1">>, t |-> 2] >>
    [] kd = "imulti" -> << [k |-> "SetVals", d |-> 6, t |-> 1, vals |-> << <<20, "k1">>, <<20, "k2">> >>], [k |-> "UnsetDomain", d |-> 6] >>
    [] kd = "iroute" -> << [k |-> "SetIsmRoute", d |-> 6, x |-> "h2"], [k |-> "UnsetIsmRoute", ds |-> <<5, 6>>] >>
    [] kd \in {"wnat", "wcw"} -> << [k |-> "SetMailbox", x |-> "mb"], [k |-> "SetHook", x |-> "h1"], [k |-> "SetIsm", x |-> "h2"] >>
    [] OTHER -> <<>>
Msg6 == MsgR(3, 0, 5, "z1", 6, "r1", Raw("aa"))
Msg7 == MsgR(3, 0, 6, "z1", 7, "r2", Raw("aa"))
Quo(m) == [a |-> "x", k |-> "Quote", meta |-> Raw(""), msg |-> m]
Ls(off, lim, ord) == [a |-> "x", k |-> "ListRoutes", off |-> off, lim |-> lim, ord |-> ord]
Settings(kd) ==
  << Q("x", "Owner"), Q("x", "Pending"), Q("x", "ver"), Q("x", "allbal") >>
  \o (IF kd \in Routers THEN << Q("x", "Domains"), Ls(<<>>, <<30>>, <<>>), [a |-> "x", k |-> "GetRoute", d |-> 6] >> ELSE <<>>)
  \o CASE kd = "mailbox" -> << Q("x", "DefaultIsm"), Q("x", "DefaultHook"), Q("x", "RequiredHook"), Q("x", "Nonce"), Q("x", "LocalDomain"), Q("x", "LatestId"),
                               [a |-> "x", k |-> "RecipientIsm", x |-> "h1"] >>
       [] kd = "hagg" -> << Q("x", "Hooks"), Quo(Msg6), Q("x", "HMailbox") >>
       [] kd = "fee" -> << Q("x", "Fee"), Quo(Msg6), Q("u3", "allbal"), Q("u4", "allbal") >>
       [] kd \in {"hpaus", "ipaus"} -> << Q("x", "Paused"), [a |-> "x", k |-> "Verify", meta |-> Raw(""), msg |-> Msg6] >>
       [] kd = "hroute" -> << Quo(Msg6) >>
       [] kd = "hcustom" -> << Quo(Msg6), [a |-> "x", k |-> "CustomHook", d |-> 6, r |-> P("r1")], [a |-> "x", k |-> "CustomHooks", d |-> 6, off |-> <<>>, lim |-> <<>>, ord |-> <<>>] >>
       [] kd = "hfall" -> << Quo(Msg6), Quo(Msg7) >>
       [] kd = "igp" -> << Q("x", "DefaultGas"), Q("x", "Benef"), [a |-> "x", k |-> "ListGas", off |-> <<>>, lim |-> <<30>>, ord |-> <<>>], [a |-> "x", k |-> "GasFor", ds |-> <<6>>] >>
       [] kd = "oracle" -> << [a |-> "x", k |-> "Oracle", d |-> 6], [a |-> "x", k |-> "Oracle", d |-> 7] >>
       [] kd = "iagg" -> << Q("x", "Isms"), Q("x", "ModuleType"), [a |-> "x", k |-> "VerifyInfo", msg |-> Msg6] >>
       [] kd = "imulti" -> << [a |-> "x", k |-> "Enrolled", d |-> 6], [a |-> "x", k |-> "VerifyInfo", msg |-> Msg7], Q("x", "ModuleType") >>
       [] kd = "iroute" -> << [a |-> "x", k |-> "Route", msg |-> Msg6], [a |-> "x", k |-> "Route", msg |-> Msg7], [a |-> "x", k |-> "VerifyInfo", msg |-> Msg6] >>
       [] kd \in {"wnat", "wcw"} -> << Q("x", "GetMailbox"), Q("x", "GetHook"), Q("x", "GetIsm"), Q("x", "TokType"), Q("x", "TokMode"), Q("x", "Ism") >>
       [] kd = "va" -> << Q("x", "VMailbox"), Q("x", "VDomain"), Q("x", "Anns"), [a |-> "x", k |-> "Locs", vs |-> << <<20, "k1">>, <<20, "k2">> >>] >>
       [] kd = "merkle" -> << Q("x", "HMailbox"), Q("x", "Count"), Q("x", "Root"), Q("x", "Branch"), Q("x", "Tree") >>
       [] OTHER -> <<>>
=============================================================================
