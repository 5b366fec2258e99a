------------------------------ MODULE MC_C21 ------------------------------
(* Migration only ever upgrades the same contract and preserves state.      *)
EXTENDS Kinds
XSetup == World0
C == St0.ver[2]                       \* the code's version, without pre-release
Str(v) == ToString(v[1]) \o "." \o ToString(v[2]) \o "." \o ToString(v[3])
Ver(maj, min, pat) == <<Str(<<maj, min, pat>>), <<maj, min, pat, <<>> >> >>
Pre(maj, min, pat, text, ids) == <<Str(<<maj, min, pat>>) \o "-" \o text, <<maj, min, pat, ids>> >>
Vs == << Ver(C[1], C[2], C[3]), Ver(C[1], C[2], C[3] + 1), Ver(C[1], C[2], C[3] + 10), Ver(C[1], C[2] + 1, 0), Ver(C[1] + 1, 0, 0), Ver(C[1], C[2] + 10, 0), Ver(C[1], C[2], C[3] * 10),
         Pre(C[1], C[2], C[3], "rc.1", << <<1, 6>>, <<0, 1>> >>), Pre(C[1], C[2], C[3], "alpha", << <<1, 3>> >>), Pre(C[1], C[2], C[3] + 1, "alpha", << <<1, 3>> >>), <<"", <<>> >>, <<"0.0", <<>> >>, <<"v0.0.1", <<>> >> >>
      \o (IF C[3] > 0 THEN << Ver(C[1], C[2], C[3] - 1), Ver(C[1], C[2], 0), Pre(C[1], C[2], C[3] - 1, "rc1", << <<1, 7>> >>) >> ELSE <<>>)
      \o (IF C[2] > 0 THEN << Ver(C[1], C[2] - 1, C[3] + 5), Ver(C[1], 0, 99) >> ELSE <<>>)
      \o (IF C[1] > 0 THEN << Ver(C[1] - 1, C[2] + 5, C[3] + 5), Ver(0, 99, 99) >> ELSE <<>>)
SetV(cn, v) == [t |-> "setver", s |-> "", a |-> "x", m |-> [k |-> "setver", cn |-> cn, cvs |-> v[1], cv |-> v[2]], f |-> <<>>]
Old == Pre(C[1], C[2], C[3], "rc.1", << <<1, 6>>, <<0, 1>> >>)
Up == [t |-> "migrate", s |-> "u1", a |-> "x", m |-> [k |-> "Migrate"], f |-> <<>>]
Next1(kd) == LET i == CHOOSE j \in DOMAIN AllKinds : AllKinds[j] = kd IN AllKinds[(i % Len(AllKinds)) + 1]
XCalls(s) ==
  IF Kind(s, "x") = "" THEN [j \in DOMAIN AllKinds |-> Made(AllKinds[j], "u1")]
  ELSE LET kd == s.k["x"].kind ad == Admin(kd) IN
    <<Up>> \o [j \in DOMAIN Vs |-> SetV(kd, Vs[j])] \o << SetV(Next1(kd), Old), SetV("other", Old) >>
    \o [j \in DOMAIN ad |-> X("u1", "x", ad[j])] \o (IF kd \in Owned THEN << X("u1", "x", [k |-> "InitOwn", to |-> "u2"]) >> ELSE <<>>)
    \o (CASE kd = "va" -> << X("u2", "x", [k |-> "Announce", v |-> <<20, "k1">>, loc |-> "s3://a", sig |-> [key |-> "k1", dom |-> 11, mb |-> "mb", loc |-> "s3://a", kind |-> "ok"]]) >>
          [] kd = "fee" -> << Bank("x", <<Co("uosmo", 1)>>) >>
          [] kd = "mailbox" -> << X("u2", "x", [k |-> "Dispatch", d |-> 6, r |-> P("r1"), b |-> Raw("aa"), hook |-> <<>>, meta |-> <<>>]) >>
          [] OTHER -> <<>>)
XQs(s) == IF Kind(s, "x") = "" THEN <<>> ELSE Settings(s.k["x"].kind)
XG0 == <<"", <<>> >>
XUpd(gg, s, c, r) == IF ~r.ok THEN gg ELSE IF c.t = "inst" THEN <<c.m.kind, C>> ELSE IF c.t = "setver" THEN <<c.m.cn, c.m.cv>> ELSE IF c.t = "migrate" THEN <<gg[1], C>> ELSE gg
\* semantic-version order, where the code's version has no pre-release part
Older(v) == \/ <<v[1], v[2], v[3]>> # <<C[1], C[2], C[3]>> /\ LET i == CHOOSE j \in 1..3 : v[j] # C[j] /\ \A n \in 1..(j - 1) : v[n] = C[n] IN v[i] < C[i]
            \/ <<v[1], v[2], v[3]>> = <<C[1], C[2], C[3]>> /\ v[4] # <<>>
XStep(gg, s, c, r) ==
  c.t = "migrate" =>
    LET kd == s.k["x"].kind IN
    /\ r.ok <=> gg[1] = kd /\ gg[2] # <<>> /\ Older(gg[2])
    /\ ~r.ok => r.st = s
    /\ r.ok => /\ \A q \in ToSet(Settings(kd)) : q.k # "ver" => Query(r.st, q) = Query(s, q)
               /\ Query(r.st, Q("x", "ver")) = R(<<kd, Str(C)>>)
XState(gg, s) == TRUE
XTag(gg, s, c) == ""
XLen(d) == IF d THEN 4 ELSE 3
=============================================================================
