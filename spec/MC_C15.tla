------------------------------ MODULE MC_C15 ------------------------------
(* Only the mailbox and the enrolled remote router can release tokens.     *)
(* MCV: the route, native or cw20, collateral or bridged.                   *)
EXTENDS MC
IsNat == IOEnv.MCV \in {"nc", "nb"}
Br == IOEnv.MCV \in {"nb", "cb"}
U(n) == <<"uosmo", <<n>> >>
Ua(n) == <<"uatom", <<n>> >>
Tok == IF IsNat THEN (IF Br THEN "F/wa/utok" ELSE "uosmo") ELSE (IF Br THEN "wa.tok" ELSE "cw")
Own(a, x) == X("u1", a, x)
P(x) == <<32, x>>
Rt(s, d, r) == X(s, "wa", [k |-> "SetRoute", d |-> d, r |-> r])
Mb(a) == << InstC(a, "mailbox", [owner |-> "u1", dom |-> 5]), Own(a, [k |-> "SetDefaultIsm", x |-> "i1"]),
            Own(a, [k |-> "SetDefaultHook", x |-> "h1"]), Own(a, [k |-> "SetRequiredHook", x |-> "rq"]) >>
XSetup == << MockC("i1", E0), MockC("i2", [vmode |-> "no"]), MockC("rq", [fee |-> <<Ua(1)>>]), MockC("h1", E0), MockC("h2", E0) >> \o Mb("mb") \o Mb("mb2")
  \o << InstC("cw", "cw20", [minter |-> "nobody", bals |-> << <<"u1", <<9>> >>, <<"wa", <<9>> >> >>]),
        InstC("wa", IF IsNat THEN "wnat" ELSE "wcw", [owner |-> "u1", mb |-> "mb", mode |-> IF Br THEN "bridged" ELSE "collateral"]
                      @@ (IF IsNat THEN [denom |-> IF Br THEN "utok" ELSE "uosmo"] ELSE IF Br THEN E0 ELSE [tok |-> "cw"])),
        Bank("u1", << Ua(9), U(9) >>), Bank("wa", << U(9) >>) >>
  \o (IF IsNat THEN (IF Br THEN << Bank("u1", << <<Tok, <<9>> >> >>) >> ELSE <<>>) ELSE << X("u1", Tok, [k |-> "IncAllow", sp |-> "wa", amt |-> <<9>>]) >>)
Tm(to, n, trail) == <<"tm", to, <<n>>, trail>>
Huge == <<1, 0, 0, 0, 0, 0, 0, 0, 0, 500>>       \* more than 2^128 - 1
In(o, snd, b) == MsgR(3, 0, o, snd, 5, "wa", b)
Pr(a, m) == X("u3", a, [k |-> "Process", meta |-> Raw(""), msg |-> m])
Hd(s, o, snd, b) == X(s, "wa", [k |-> "Handle", o |-> o, s |-> snd, b |-> b])
Tr(d, n, hook, f) == XF("u1", "wa", [k |-> "TransferRemote", d |-> d, r |-> P("u2"), amt |-> <<n>>, hook |-> hook, meta |-> <<Raw("07")>>], f)
Fs(n) == << Ua(2) >> \o (IF ~IsNat THEN <<>> ELSE << <<Tok, <<n>> >> >>)
Ins == << In(7, "wb", Tm("u1", 1, "")), In(-7, "wb", Tm("u2", 1, "")), In(7, "zc", Tm("u2", 1, "")), In(7, "u4", Tm("u2", 2, "")), In(7, "wb", Tm("u2", 1, "ff")),
          In(7, "wb", <<"tm", "u2", Huge, "">>), In(7, "wb", Raw("aa")), In(-7, "zc", Tm("z1", 2, "")), In(8, "", Tm("u2", 1, "")) >>
XCalls(s) ==
  << Rt("u1", 7, <<P("wb")>>), Rt("u1", 7, <<P("zc")>>), Rt("u1", 7, <<>>), Rt("u1", 7, << <<20, "u4">> >>), Rt("u1", 7, <<P("u4")>>), Rt("u1", 7, << <<0, "x">> >>),
     Rt("u1", -7, <<P("wb")>>), Rt("u2", 7, <<P("wb")>>),
     Own("wa", [k |-> "SetMailbox", x |-> "mb2"]), Own("wa", [k |-> "SetIsm", x |-> "i2"]), Own("wa", [k |-> "SetIsm", x |-> "i1"]), Own("wa", [k |-> "SetHook", x |-> "h2"]),
     Own("wa", [k |-> "SetHook", x |-> "!bad"]), X("u2", "wa", [k |-> "SetIsm", x |-> "i1"]), X("u2", "wa", [k |-> "SetMailbox", x |-> "u2"]) >>
  \o [j \in 1..8 |-> Pr("mb", Ins[j])] \o << Pr("mb2", Ins[1]) >>
  \o << Hd("u2", 7, P("wb"), Tm("u2", 1, "")), Hd("u1", 7, P("wb"), Tm("u2", 1, "")), Hd("wb", 7, P("wb"), Tm("u2", 1, "")) >>
  \o << Tr(7, 1, <<>>, Fs(1)), Tr(7, 2, <<"h2">>, Fs(2)), Tr(-7, 1, <<>>, Fs(1)), Tr(8, 1, <<>>, Fs(1)), Tr(7, 1, <<"!bad">>, Fs(1)), Tr(7, 1, <<"nobody">>, Fs(1)), Tr(7, 1, <<>>, <<>>) >>
HasIt(s, x) == IF IsNat THEN CGet(Bal(s, x), Tok) ELSE TBal(s.k[Tok], x)
Us == <<"u1", "u2", "z1", "wa", "mb", "h1", "h2", "rq">>
XQs(s) == [j \in DOMAIN Us |-> Q(Us[j], "allbal")] \o (IF IsNat THEN <<>> ELSE [j \in DOMAIN Us |-> [a |-> Tok, k |-> "CBal", x |-> Us[j]]])
  \o << Q("wa", "GetMailbox"), Q("wa", "GetHook"), Q("wa", "GetIsm"), Q("wa", "Ism"), Q("wa", "TokType"), Q("wa", "TokMode"), [a |-> "mb", k |-> "RecipientIsm", x |-> "wa"],
        [a |-> "wa", k |-> "GetRoute", d |-> 7], [a |-> "wa", k |-> "GetRoute", d |-> -7] >>
XG0 == [rt |-> E0, mb |-> "", ism |-> "", hook |-> ""]
XUpd(gg, s, c, r) ==
  IF ~r.ok \/ c.a # "wa" THEN gg
  ELSE CASE c.m.k = "SetRoute" -> [gg EXCEPT !.rt = (c.m.d :> c.m.r) @@ @]
         [] c.m.k = "SetMailbox" -> [gg EXCEPT !.mb = c.m.x]
         [] c.m.k = "SetIsm" -> [gg EXCEPT !.ism = c.m.x]
         [] c.m.k = "SetHook" -> [gg EXCEPT !.hook = c.m.x]
         [] OTHER -> gg
To(gg, d) == IF d \in DOMAIN gg.rt THEN gg.rt[d] ELSE <<>>
Same(s, t) == \A j \in DOMAIN Us : HasIt(s, Us[j]) = HasIt(t, Us[j])
XStep(gg, s, c, r) ==
  /\ (c.t = "exec" /\ c.a = "wa" /\ c.m.k \in {"SetRoute", "SetMailbox", "SetIsm", "SetHook"} /\ r.ok) => c.s = "u1" /\ Same(s, r.st)
  /\ Isk(c, "Handle") => ~r.ok
  /\ Isk(c, "Process") =>
       LET m == c.m.msg
           good == c.a = "mb" /\ m.d = 5 /\ To(gg, m.o) = <<P(m.s)>> /\ gg.ism # "i2" /\ m.b[1] = "tm"
       IN /\ ~good => ~r.ok
          /\ r.ok => /\ HasIt(r.st, m.b[2]) = BAdd(HasIt(s, m.b[2]), m.b[3])
                     /\ \A x \in ToSet(Us) \ {m.b[2], "wa"} : HasIt(r.st, x) = HasIt(s, x)
  /\ (Isk(c, "TransferRemote") /\ r.ok) =>
       LET to == To(gg, c.m.d)
           h == IF c.m.hook # <<>> THEN c.m.hook[1] ELSE IF gg.hook # "" THEN gg.hook ELSE "h1"
           hs == Evs(r, "hook") IN
       /\ Len(to) = 1 /\ to[1][1] = 32
       /\ [j \in DOMAIN Evs(r, "disp") |-> SubSeq(Evs(r, "disp")[j], 1, 5)] = << <<"disp", "mb", "wa", c.m.d, to[1][2]>> >>
       /\ [j \in DOMAIN hs |-> hs[j][2]] = <<"rq", h>> /\ \A j \in DOMAIN hs : hs[j][4] = Raw("07") /\ hs[j][5].s = "wa" /\ hs[j][5].r = to[1][2]
XState(gg, s) ==
  /\ Query(s, Q("wa", "GetMailbox")) = R(Opt(gg.mb)) /\ Query(s, Q("wa", "GetIsm")) = R(Opt(gg.ism)) /\ Query(s, Q("wa", "GetHook")) = R(Opt(gg.hook))
  /\ Query(s, Q("wa", "Ism")) = R(Opt(gg.ism))
  /\ \A d \in {7, -7} : Query(s, [a |-> "wa", k |-> "GetRoute", d |-> d]) = R(<<d, To(gg, d)>>)
XTag(gg, s, c) == ""
XLen(d) == IF d THEN 4 ELSE 3
=============================================================================
