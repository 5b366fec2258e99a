------------------------------ MODULE MC_C17 ------------------------------
(* Pausing stops a pausable hook or ISM until released.                     *)
EXTENDS MC
M1 == MsgR(3, 0, 5, "z1", 6, "r1", Raw("aa"))
M2 == [v |-> -2, b |-> Raw("")]
Own(a, x) == X("u1", a, x)
XSetup == << InstC("mb", "mailbox", [owner |-> "u1", dom |-> 6]), MockC("h1", E0), MockC("r1", E0), MockC("i1", E0), Bank("u2", << <<"uosmo", <<5>> >> >>),
             Own("mb", [k |-> "SetDefaultHook", x |-> "pa"]), Own("mb", [k |-> "SetRequiredHook", x |-> "h1"]), Own("mb", [k |-> "SetDefaultIsm", x |-> "ip"]) >>
As == <<"pa", "ip">>
XCalls(s) ==
  IF ~IsC(s, "pa") THEN << InstC("pa", "hpaus", [owner |-> "u1", paused |-> FALSE]), InstC("pa", "hpaus", [owner |-> "u1", paused |-> TRUE]) >>
  ELSE IF ~IsC(s, "ip") THEN << InstC("ip", "ipaus", [owner |-> "u1", paused |-> FALSE]), InstC("ip", "ipaus", [owner |-> "u1", paused |-> TRUE]) >>
  ELSE FlattenSeq([j \in DOMAIN As |-> FlattenSeq([n \in 1..2 |-> << X(<<"u1", "u2">>[n], As[j], [k |-> "Pause"]), X(<<"u1", "u2">>[n], As[j], [k |-> "Release"]) >>])])
    \o << XF("u2", "pa", [k |-> "PostDispatch", meta |-> Raw("aa"), msg |-> M1], << <<"uosmo", <<1>> >> >>), X("mb", "pa", [k |-> "PostDispatch", meta |-> Raw(""), msg |-> M1]),
          X("u1", "pa", [k |-> "PostDispatch", meta |-> Raw(""), msg |-> M2]),
          X("u2", "mb", [k |-> "Dispatch", d |-> 9, r |-> <<32, "r1">>, b |-> Raw("01"), hook |-> <<>>, meta |-> <<>>]),
          X("u2", "mb", [k |-> "Process", meta |-> Raw(""), msg |-> M1]), X("u2", "mb", [k |-> "Process", meta |-> Raw(""), msg |-> [M1 EXCEPT !.n = 1]]),
          Own("pa", [k |-> "InitOwn", to |-> "u2"]), X("u2", "pa", [k |-> "ClaimOwn"]) >>
Vq(meta, m) == [a |-> "ip", k |-> "Verify", meta |-> meta, msg |-> m]
XQs(s) == << Q("pa", "Paused"), Q("ip", "Paused"), Vq(Raw(""), M1), Vq(Raw("aabb"), M2), [a |-> "pa", k |-> "Quote", meta |-> Raw("aa"), msg |-> M1], Q("mb", "Nonce"), Q("ip", "ModuleType"),
             [a |-> "ip", k |-> "VerifyInfo", msg |-> M1], [a |-> "mb", k |-> "Delivered", id |-> <<"m", M1>>], Q("pa", "allbal") >>
XG0 == [pa |-> FALSE, ip |-> FALSE, own |-> "u1"]
XUpd(gg, s, c, r) == IF ~r.ok THEN gg
                     ELSE IF c.t = "inst" THEN [gg EXCEPT ![c.a] = c.m.paused]
                     ELSE IF c.m.k \in {"Pause", "Release"} THEN [gg EXCEPT ![c.a] = c.m.k = "Pause"]
                     ELSE IF c.m.k = "ClaimOwn" THEN [gg EXCEPT !.own = c.s] ELSE gg
Boss(gg, a) == IF a = "pa" THEN gg.own ELSE "u1"
XStep(gg, s, c, r) ==
  /\ ~r.ok => r.st = s
  /\ Isk(c, "Pause") => (r.ok <=> c.s = Boss(gg, c.a) /\ ~gg[c.a])
  /\ Isk(c, "Release") => (r.ok <=> c.s = Boss(gg, c.a) /\ gg[c.a])
  /\ Isk(c, "PostDispatch") /\ CLe(CM(c.f), Bal(s, c.s)) => (r.ok <=> ~gg.pa)
  /\ Isk(c, "Dispatch") => (r.ok <=> ~gg.pa)
  /\ Isk(c, "Process") => (r.ok <=> ~gg.ip /\ c.m.msg \notin s.k["mb"].dl)
XState(gg, s) ==
  /\ IsC(s, "pa") => Query(s, Q("pa", "Paused")) = R(gg.pa)
  /\ IsC(s, "ip") => Query(s, Q("ip", "Paused")) = R(gg.ip) /\ \A m \in {M1, M2} : (Query(s, Vq(Raw(""), m)) = R(TRUE)) = ~gg.ip
XTag(gg, s, c) == ""
XLen(d) == IF d THEN 14 ELSE 8
=============================================================================
