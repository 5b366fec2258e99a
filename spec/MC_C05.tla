------------------------------ MODULE MC_C05 ------------------------------
(* Whatever the hooks are composed of, the quoted fee is enough to dispatch *)
(* and less is not.                                                         *)
EXTENDS MC

Uo(n) == <<"uosmo", <<n>> >>
Ua(n) == <<"uatom", <<n>> >>
HS == <<"fe", "fe2", "ig", "mk", "pa", "ag", "a2", "ro", "cu", "fa">>
Own(a, x) == X("u1", a, x)
ScaleN == <<0, 0, 100>>             \* 10^10
XSetup == << InstC("mb", "mailbox", [owner |-> "u1", dom |-> 5]),
  InstC("fe", "fee", [owner |-> "u1", fee |-> Uo(3)]), InstC("fe2", "fee", [owner |-> "u1", fee |-> Ua(2)]),
  InstC("or", "oracle", [owner |-> "u1"]), InstC("ig", "igp", [owner |-> "u1", denom |-> "uosmo", gas |-> <<7>>, benef |-> "u3"]),
  InstC("mk", "merkle", [mb |-> "mb"]), InstC("pa", "hpaus", [owner |-> "u1", paused |-> FALSE]),
  InstC("ag", "hagg", [owner |-> "u1", hooks |-> <<"fe", "ig">>]), InstC("a2", "hagg", [owner |-> "u1", hooks |-> <<"fe2", "ag", "mk">>]),
  InstC("ro", "hroute", [owner |-> "u1"]), InstC("cu", "hcustom", [owner |-> "u1"]), InstC("fa", "hfall", [owner |-> "u1"]),
  Own("or", [k |-> "SetGasDatas", cfg |-> << <<6, ScaleN, <<2>> >>, <<7, <<1, 50>>, <<300>> >> >>]),
  Own("ig", [k |-> "SetRoutes", set |-> << <<6, <<"or">> >>, <<7, <<"or">> >> >>]),
  Own("ro", [k |-> "SetRoutes", set |-> << <<6, <<"a2">> >>, <<7, <<"fe">> >> >>]),
  Own("cu", [k |-> "SetRoutes", set |-> << <<6, <<"ro">> >>, <<7, <<"ig">> >> >>]),
  Own("cu", [k |-> "Register", regs |-> << <<6, <<32, "r2">>, "fe2">> >>]),
  Own("fa", [k |-> "SetFallback", x |-> "ig"]), Own("fa", [k |-> "SetRoute", d |-> 7, r |-> <<"cu">>]),
  Own("mb", [k |-> "SetDefaultHook", x |-> "mk"]), Own("mb", [k |-> "SetRequiredHook", x |-> "fe"]),
  Bank("u2", << <<"uatom", <<0, 100>> >>, <<"uosmo", <<0, 100>> >>, <<"uzzz", <<0, 100>> >> >>) >>

Qm(d, r, hook, meta) == [a |-> "mb", k |-> "MQuote", sender |-> "u2", d |-> d, r |-> <<32, r>>, b |-> Raw("00"), hook |-> hook, meta |-> meta]
Wants == IF Deep THEN << Qm(6, "r1", <<>>, <<>>), Qm(6, "r2", <<>>, <<>>), Qm(7, "r1", <<>>, <<>>), Qm(7, "r1", <<"a2">>, << <<"igp", <<9>>, 0, "">> >>),
                         Qm(6, "r1", <<"fa">>, << <<"igp", <<>>, 20, "u4">> >>), Qm(8, "r1", <<>>, <<>>), Qm(6, "r1", <<"fe">>, <<Raw("ff")>>) >>
         ELSE << Qm(6, "r1", <<>>, <<>>), Qm(6, "r2", <<>>, <<>>), Qm(7, "r1", <<>>, << <<"igp", <<9>>, 20, "u4">> >>), Qm(8, "r1", <<"fe">>, <<>>) >>
Di(w, f) == XF("u2", "mb", [k |-> "Dispatch", d |-> w.d, r |-> w.r, b |-> w.b, hook |-> w.hook, meta |-> w.meta], f)
\* exactly the quote, one unit less in each denomination, one more
Pays(s, w) == LET q == Query(s, w) IN
  IF q[1] = "err" THEN << Di(w, <<Uo(3)>>) >>
  ELSE << Di(w, q[2]), Di(w, CSeq(s, CAdd(CM(q[2]), COne("uosmo", <<1>>)))) >>
       \o [j \in DOMAIN q[2] |-> Di(w, CSeq(s, CSub(CM(q[2]), COne(q[2][j][1], <<1>>))))]
Cfg == << Own("fe", [k |-> "SetFee", fee |-> <<"uosmo", <<>> >>]), Own("fe2", [k |-> "SetFee", fee |-> Uo(1)]),
          Own("pa", [k |-> "Pause"]), Own("ig", [k |-> "SetDefaultGas", g |-> <<>>]),
          Own("ig", [k |-> "SetGas", cfg |-> << <<6, <<11>> >> >>]), Own("or", [k |-> "SetGasData", c |-> <<7, <<1>>, <<1>> >>]),
          Own("ro", [k |-> "SetRoute", d |-> 6, r |-> <<"fa">>]), Own("ag", [k |-> "SetHooks", hooks |-> <<"fe", "fe", "pa">>]) >>
Sets == [j \in DOMAIN HS |-> Own("mb", [k |-> "SetRequiredHook", x |-> HS[j]])] \o [j \in DOMAIN HS |-> Own("mb", [k |-> "SetDefaultHook", x |-> HS[j]])]
XCalls(s) == FlattenSeq([j \in DOMAIN Wants |-> Pays(s, Wants[j])]) \o Sets \o Cfg
XQs(s) == Wants \o << Q("mb", "allbal"), Q("fe", "allbal"), Q("fe2", "allbal"), Q("ig", "allbal"), Q("ag", "allbal"), Q("a2", "allbal"),
                      Q("ro", "allbal"), Q("cu", "allbal"), Q("fa", "allbal"), Q("u2", "allbal"), Q("u4", "allbal"), Q("mk", "Count") >>

XG0 == 0
XUpd(gg, s, c, r) == 0
RECURSIVE Involved(_, _, _), Leaves(_, _, _)
\* the hooks a message reaches, as a sequence
Involved(s, h, msg) ==
  LET c == s.k[h] IN
  CASE c.kind = "hagg" -> <<h>> \o FlattenSeq([j \in DOMAIN c.hooks |-> Involved(s, c.hooks[j], msg)])
    [] c.kind \in {"hroute", "hcustom", "hfall"} -> <<h>> \o (LET x == HookOf(c, msg) IN IF x = "" THEN <<>> ELSE Involved(s, x, msg))
    [] OTHER -> <<h>>
Leaves(s, h, msg) == SelectSeq(Involved(s, h, msg), LAMBDA x : s.k[x].kind \in {"fee", "igp"})
XStep(gg, s, c, r) ==
  Isk(c, "Dispatch") =>
    LET m == c.m
        w == Qm(m.d, m.r[2], m.hook, m.meta)
        q == Query(s, w)
        f == CM(c.f)
        msg == MsgOf(s.k["mb"], c.s, m)
        other == IF Len(m.hook) = 1 THEN m.hook[1] ELSE s.k["mb"].dhook
        inv == Involved(s, s.k["mb"].rhook, msg) \o Involved(s, other, msg)
        lv == Leaves(s, s.k["mb"].rhook, msg) \o Leaves(s, other, msg)
        meta == MetaOf(m)
        owed(x) == FoldLeft(LAMBDA acc, y : IF y = x THEN CAdd(acc, Quote(s, x, meta, msg, 0).c) ELSE acc, NoCoins, lv) IN
    IF q[1] = "err" THEN TRUE
    ELSE LET due == CM(q[2]) IN
      /\ Eq(CNorm(due), CNorm(CAdd(Quote(s, s.k["mb"].rhook, meta, msg, 0).c, Quote(s, other, meta, msg, 0).c)))
      /\ (f = due /\ \A j \in DOMAIN inv : s.k[inv[j]].kind = "hpaus" => ~s.k[inv[j]].paused)
           => /\ r.ok
              /\ \A x \in ToSet(lv) : Eq(Bal(r.st, x), CNorm(CAdd(Bal(s, x), owed(x))))
              /\ \A x \in {"mb", "ag", "a2", "ro", "cu", "fa"} : Bal(r.st, x) = Bal(s, x)
              /\ Eq(Bal(r.st, "u2"), CSub(Bal(s, "u2"), due))
      /\ (~CLe(due, f) /\ \A j \in DOMAIN inv : s.k[inv[j]].kind = "hagg" => Bal(s, inv[j]) = NoCoins) => ~r.ok
XState(gg, s) == TRUE
XTag(gg, s, c) == ""
XLen(d) == IF d THEN 3 ELSE 2
=============================================================================
