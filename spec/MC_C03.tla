------------------------------ MODULE MC_C03 ------------------------------
(* Dispatch commits to exactly the requested message with consecutive      *)
(* nonces (C03); the required hook is paid its fee, the other the rest     *)
(* (C04).                                                                  *)
EXTENDS MC

C(d, n) == <<d, IF n = 0 THEN <<>> ELSE <<n>> >>
Di(s, d, r, b, hook, meta, f) == XF(s, "mb", [k |-> "Dispatch", d |-> d, r |-> r, b |-> b, hook |-> hook, meta |-> meta], f)
F2 == << C("uosmo", 2) >>
F5 == << C("uosmo", 5) >>
F12 == << C("uatom", 1), C("uosmo", 2) >>
FA == << C("uatom", 4) >>
R32 == <<32, "r1">>
Own(x) == X("u1", "mb", x)
XSetup == << InstC("mb", "mailbox", [owner |-> "u1", dom |-> -2]), MockC("rq", [fee |-> F2]), MockC("dh", E0), MockC("h1", E0),
             InstC("mk", "merkle", [mb |-> "mb"]),
             Own([k |-> "SetDefaultHook", x |-> "dh"]), Own([k |-> "SetRequiredHook", x |-> "rq"]),
             Bank("u1", << C("uatom", 60), C("uosmo", 60) >>), Bank("z1", << C("uosmo", 60) >>), Bank("u0x", << C("uosmo", 60) >>) >>
XCalls(s) ==
  << Di("u1", 6, R32, Raw(""), <<>>, <<>>, F2), Di("u1", 6, R32, Raw("aa"), <<>>, <<Raw("77")>>, F5),
     Di("z1", -1, <<32, "z1">>, Raw("aabb"), <<"h1">>, <<>>, F5), Di("u0x", -2, <<32, "u0x">>, Raw("00"), <<"mk">>, <<Raw("")>>, F2),
     Di("u1", 0, R32, Raw("aa"), <<"rq">>, <<>>, << C("uatom", 4), C("uosmo", 4) >>),
     Di("u1", 6, R32, Raw(""), <<>>, <<>>, <<>>), Di("u1", 6, R32, Raw(""), <<>>, <<>>, << C("uosmo", 1) >>), Di("u1", 6, R32, Raw(""), <<>>, <<>>, FA),
     Di("u1", 6, R32, Raw(""), <<>>, <<>>, F12),
     Di("u1", 6, <<20, "u2">>, Raw(""), <<>>, <<>>, F2), Di("u1", 6, <<0, "x">>, Raw(""), <<>>, <<>>, F2),
     Di("u1", 6, <<33, "x000000000000000000000000000000000000000000000000000000000000000001">>, Raw(""), <<>>, <<>>, F2),
     Di("u1", 6, R32, Raw(""), <<"!bad">>, <<>>, F2), Di("u1", 6, R32, Raw(""), <<"nobody">>, <<>>, F2),
     Own([k |-> "SetDefaultHook", x |-> "mk"]), Own([k |-> "SetRequiredHook", x |-> "mk"]), Own([k |-> "SetRequiredHook", x |-> "rq"]),
     Own([k |-> "SetDefaultHook", x |-> "nobody"]), X("u2", "mb", [k |-> "SetRequiredHook", x |-> "h1"]),
     MockC("rq", [fee |-> F12, hmode |-> "strict"]), MockC("rq", [fee |-> <<>>]), MockC("rq", [fee |-> F2, qmode |-> "err"]),
     MockC("rq", [fee |-> F2, hmode |-> "fail"]), MockC("dh", [hmode |-> "fail"]) >>
XQs(s) == << Q("mb", "Nonce"), Q("mb", "LatestId"), Q("mb", "LocalDomain"), Q("mb", "DefaultHook"), Q("mb", "RequiredHook"),
             Q("mb", "allbal"), Q("rq", "allbal"), Q("dh", "allbal"), Q("h1", "allbal"), Q("mk", "allbal"), Q("u1", "allbal"), Q("z1", "allbal"), Q("mk", "Count") >>

\* the messages the mailbox has committed to, in order
XG0 == <<>>
Want(gg, c) == MsgR(3, Len(gg), -2, c.s, c.m.d, c.m.r[2], c.m.b)
XUpd(gg, s, c, r) == IF Isk(c, "Dispatch") /\ r.ok THEN Append(gg, Want(gg, c)) ELSE gg
MetaIn(c) == IF Len(c.m.meta) = 0 THEN Raw("") ELSE c.m.meta[1]
XStep(gg, s, c, r) ==
  Isk(c, "Dispatch") =>
    IF ~r.ok THEN r.st = s
    ELSE LET w == Want(gg, c)
             f == CM(c.f)
             other == IF Len(c.m.hook) = 1 THEN c.m.hook[1] ELSE s.k["mb"].dhook
             q == Quote(s, s.k["mb"].rhook, MetaIn(c), w, 1)
             hev == Evs(r, "hook")
             want(h, x) == IF Kind(s, h) = "mock" THEN << <<"hook", h, "mb", MetaIn(c), w, CSeq(s, x)>> >> ELSE <<>> IN
         \* C03
         /\ c.m.r[1] = 32
         /\ r.data = <<w>> /\ r.st.k["mb"].latest = <<w>> /\ r.st.k["mb"].nonce = Len(gg) + 1
         /\ Evs(r, "dispid") = << <<"dispid", "mb", w>> >> /\ Evs(r, "disp") = << <<"disp", "mb", c.s, c.m.d, c.m.r[2], w>> >>
         /\ w \notin ToSet(gg)
         \* C04
         /\ q.ok /\ CLe(q.c, f)
         /\ hev = want(s.k["mb"].rhook, q.c) \o want(other, CSub(f, q.c))
         /\ Bal(r.st, "mb") = Bal(s, "mb")
XState(gg, s) == s.k["mb"].nonce = Len(gg) /\ s.k["mb"].latest = (IF gg = <<>> THEN <<>> ELSE <<gg[Len(gg)]>>) /\ ToSet(gg) = s.sent
XTag(gg, s, c) == ""
XLen(d) == IF d THEN 5 ELSE 4
=============================================================================
