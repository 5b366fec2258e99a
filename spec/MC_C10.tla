------------------------------ MODULE MC_C10 ------------------------------
(* Routing hooks hand message, metadata and funds to the selected hook.    *)
EXTENDS MC
U(n) == <<"uosmo", <<n>> >>
Ua(n) == <<"uatom", <<n>> >>
Fs == << <<>>, <<U(3)>>, <<Ua(1), U(2)>> >>
M1 == MsgR(3, 0, 5, "z1", 6, "r1", Raw("aa"))       \* domain 6, recipient r1
M2 == MsgR(3, 1, 5, "z1", 6, "r2", Raw(""))
M3 == MsgR(3, 0, 5, "z1", -7, "r1", Raw("aa"))
Ms == <<M1, M2, M3>>
Own(a, x) == X("u1", a, x)
Pd(a, meta, m, f) == XF("u2", a, [k |-> "PostDispatch", meta |-> meta, msg |-> m], f)
Route(a, d, r) == Own(a, [k |-> "SetRoute", d |-> d, r |-> r])
Reg(one, regs) == Own("cu", [k |-> "Register", one |-> one, regs |-> regs])
Clr(one, regs) == Own("cu", [k |-> "Clear", one |-> one, regs |-> regs])
P(r) == <<32, r>>
Tab == << <<Raw("77"), 6, <<U(9)>> >>, <<Raw("01"), -7, <<Ua(4)>> >> >>
XSetup == << MockC("h1", [fee |-> <<U(1)>>, tab |-> Tab]), MockC("h2", [fee |-> <<Ua(1), U(2)>>]), MockC("h3", [fee |-> <<>>]),
  InstC("ro", "hroute", [owner |-> "u1"]), InstC("cu", "hcustom", [owner |-> "u1"]), InstC("fa", "hfall", [owner |-> "u1"]),
  Bank("u2", << Ua(50), U(50) >>), Bank("ro", <<U(5)>>), Bank("fa", <<Ua(5)>>) >>
XCalls(s) ==
  << Route("ro", 6, <<"h1">>), Route("ro", -7, <<"cu">>), Route("ro", 6, <<>>), Route("cu", 6, <<"h2">>), Route("cu", -7, <<"h1">>), Route("cu", 6, <<>>),
     Route("fa", 6, <<"h1">>), Route("fa", -7, <<"cu">>), Route("fa", 6, <<>>),
     Own("fa", [k |-> "SetFallback", x |-> "h2"]), Own("fa", [k |-> "SetFallback", x |-> "ro"]), Own("fa", [k |-> "SetFallback", x |-> "!bad"]),
     X("u2", "fa", [k |-> "SetFallback", x |-> "h3"]),
     Reg(TRUE, << <<6, P("r1"), "h3">> >>), Reg(FALSE, << <<6, P("r2"), "h1">>, <<-7, P("r1"), "h2">> >>), Reg(FALSE, << <<6, P("r1"), "h1">>, <<6, P("r1"), "h2">> >>),
     Reg(FALSE, << <<6, P("r2"), "h3">>, <<6, P("r1"), "!bad">> >>), Reg(TRUE, << <<6, <<20, "u2">>, "h3">> >>),
     Clr(TRUE, << <<6, P("r1")>> >>), Clr(FALSE, << <<6, P("r2")>>, <<-7, P("r1")>> >>),
     X("u2", "cu", [k |-> "Register", one |-> TRUE, regs |-> << <<6, P("r1"), "h2">> >>]), X("u2", "cu", [k |-> "Clear", one |-> TRUE, regs |-> << <<6, P("r1")>> >>]) >>
  \o (IF Len(Fs) = 0 THEN <<>> ELSE << Pd("ro", Raw("77"), M1, Fs[2]), Pd("ro", Raw(""), M3, Fs[3]), Pd("ro", Raw("01"), M2, Fs[1]),
     Pd("cu", Raw("77"), M1, Fs[3]), Pd("cu", Raw("01"), M2, Fs[2]), Pd("cu", Raw("01"), M3, Fs[1]),
     Pd("fa", Raw(""), M1, Fs[1]), Pd("fa", Raw("77"), M2, Fs[3]), Pd("fa", Raw("01"), M3, Fs[2]),
     Pd("ro", Raw(""), [v |-> -2, b |-> Raw("03")], Fs[2]), MockC("h1", [hmode |-> "fail"]) >>)
Quo(a, meta, m) == [a |-> a, k |-> "Quote", meta |-> meta, msg |-> m]
Cl(d, off, lim, ord) == [a |-> "cu", k |-> "CustomHooks", d |-> d, off |-> off, lim |-> lim, ord |-> ord]
As == <<"ro", "cu", "fa">>
QuoteQs == FlattenSeq([i \in DOMAIN As |-> FlattenSeq([j \in DOMAIN Ms |-> << Quo(As[i], Raw("77"), Ms[j]), Quo(As[i], Raw("01"), Ms[j]) >>])])
XQs(s) == QuoteQs \o << Cl(6, <<>>, <<>>, <<>>), Cl(6, <<"r1">>, <<>>, <<>>), Cl(6, <<"r2">>, <<1>>, <<"desc">>), Cl(6, <<>>, <<1>>, <<"asc">>), Cl(-7, <<>>, <<30>>, <<"desc">>),
     Cl(-7, <<>>, <<31>>, <<>>), Cl(5, <<>>, <<>>, <<>>),
     [a |-> "cu", k |-> "CustomHook", d |-> 6, r |-> P("r1")], [a |-> "cu", k |-> "CustomHook", d |-> 6, r |-> P("r2")], [a |-> "cu", k |-> "CustomHook", d |-> -7, r |-> P("r1")],
     Q("ro", "allbal"), Q("cu", "allbal"), Q("fa", "allbal"), Q("h1", "allbal"), Q("h2", "allbal"), Q("h3", "allbal"), Q("u2", "allbal") >>

(* what the owner last said *)
XG0 == [rt |-> E0, cust |-> E0, fb |-> ""]
RECURSIVE PutAll(_, _, _), DelAll(_, _, _)
PutAll(f, rs, j) == IF j > Len(rs) THEN f ELSE PutAll((<<rs[j][1], rs[j][2][2]>> :> rs[j][3]) @@ f, rs, j + 1)
DelAll(f, rs, j) == IF j > Len(rs) THEN f ELSE DelAll([x \in (DOMAIN f) \ {<<rs[j][1], rs[j][2][2]>>} |-> f[x]], rs, j + 1)
XUpd(gg, s, c, r) ==
  IF ~r.ok \/ c.t # "exec" THEN gg
  ELSE CASE c.m.k = "SetRoute" -> [gg EXCEPT !.rt = (<<c.a, c.m.d>> :> c.m.r) @@ @]
         [] c.m.k = "Register" -> [gg EXCEPT !.cust = PutAll(@, c.m.regs, 1)]
         [] c.m.k = "Clear" -> [gg EXCEPT !.cust = DelAll(@, c.m.regs, 1)]
         [] c.m.k = "SetFallback" -> [gg EXCEPT !.fb = c.m.x]
         [] OTHER -> gg
Via(gg, a, d) == IF <<a, d>> \in DOMAIN gg.rt THEN gg.rt[<<a, d>>] ELSE <<>>
\* the hook selected, as <<h>>, or <<>>
Sel(gg, a, m) ==
  IF Short(m) THEN <<>>
  ELSE CASE a = "ro" -> Via(gg, a, m.d)
         [] a = "cu" -> IF <<m.d, m.r>> \in DOMAIN gg.cust THEN <<gg.cust[<<m.d, m.r>>]>> ELSE Via(gg, a, m.d)
         [] a = "fa" -> IF Via(gg, a, m.d) # <<>> THEN Via(gg, a, m.d) ELSE IF gg.fb = "" THEN <<>> ELSE <<gg.fb>>
RECURSIVE EndAt(_, _, _)
\* <<who calls it, the mock reached>> or <<>>
EndAt(gg, a, m) == LET x == Sel(gg, a, m) IN IF x = <<>> THEN <<>> ELSE IF x[1] \in ToSet(As) THEN EndAt(gg, x[1], m) ELSE <<a, x[1]>>
XStep(gg, s, c, r) ==
  /\ (c.t = "exec" /\ c.m.k # "PostDispatch" /\ r.ok) => c.s = "u1"
  /\ Isk(c, "PostDispatch") =>
       LET e == EndAt(gg, c.a, c.m.msg) IN
       IF r.ok THEN /\ e # <<>>
                    /\ r.ev = << <<"hook", e[2], e[1], c.m.meta, c.m.msg, CSeq(s, CM(c.f))>> >>
                    /\ \A j \in DOMAIN As : Bal(r.st, As[j]) = Bal(s, As[j])
                    /\ Eq(Bal(r.st, e[2]), CNorm(CAdd(Bal(s, e[2]), CM(c.f))))
       ELSE e = <<>> \/ s.k[e[2]].hmode = "fail" \/ ~CLe(CM(c.f), Bal(s, c.s))
XState(gg, s) ==
  /\ \A j \in DOMAIN QuoteQs : LET q == QuoteQs[j] e == Sel(gg, q.a, q.msg)
                               IN Query(s, q) = IF e = <<>> THEN ER ELSE Query(s, [q EXCEPT !.a = e[1]])
  /\ s.k["cu"].cust = gg.cust
XTag(gg, s, c) == ""
XLen(d) == IF d THEN 4 ELSE 3
=============================================================================
