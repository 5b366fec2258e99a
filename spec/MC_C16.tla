------------------------------ MODULE MC_C16 ------------------------------
(* Every kind of contract: only the current owner administers, and          *)
(* ownership moves in two steps.                                             *)
EXTENDS Kinds
XSetup == World0
Us == <<"u1", "u2", "u3">>
By(ms) == FlattenSeq([j \in DOMAIN ms |-> [n \in DOMAIN Us |-> X(Us[n], "x", ms[j])]])
XCalls(s) ==
  IF Kind(s, "x") = "" THEN [j \in DOMAIN WithOwner |-> Made(WithOwner[j], "u1")] \o [j \in DOMAIN WithOwner |-> Made(WithOwner[j], "!bad")]
  ELSE By(<< [k |-> "InitOwn", to |-> "u2"], [k |-> "InitOwn", to |-> "u1"], [k |-> "RevokeOwn"], [k |-> "ClaimOwn"] >> \o Admin(s.k["x"].kind))
       \o << X("u1", "x", [k |-> "InitOwn", to |-> "u3"]), X("u1", "x", [k |-> "InitOwn", to |-> "!bad"]), X("u1", "x", [k |-> "InitOwn", to |-> ""]) >>
       \o (IF s.k["x"].kind = "fee" THEN << Bank("x", <<Co("uosmo", 1)>>) >> ELSE <<>>)
XQs(s) == IF Kind(s, "x") = "" THEN <<>> ELSE Settings(s.k["x"].kind)
(* the rules of ownership, on their own *)
XG0 == [own |-> "", pend |-> ""]
XUpd(gg, s, c, r) ==
  IF ~r.ok THEN gg
  ELSE IF c.t = "inst" THEN [own |-> c.m.owner, pend |-> ""]
  ELSE IF c.t # "exec" THEN gg
  ELSE CASE c.m.k = "InitOwn" -> [gg EXCEPT !.pend = c.m.to]
         [] c.m.k = "RevokeOwn" -> [gg EXCEPT !.pend = ""]
         [] c.m.k = "ClaimOwn" -> [own |-> gg.pend, pend |-> ""]
         [] OTHER -> gg
XStep(gg, s, c, r) ==
  /\ ~r.ok => r.st = s
  /\ c.t = "inst" => (r.ok <=> Valid(c.m.owner))
  /\ c.t = "exec" =>
       CASE c.m.k = "InitOwn" -> r.ok <=> c.s = gg.own /\ gg.pend = "" /\ Valid(c.m.to)
         [] c.m.k = "RevokeOwn" -> r.ok <=> c.s = gg.own /\ gg.pend # ""
         [] c.m.k = "ClaimOwn" -> r.ok <=> gg.pend # "" /\ c.s = gg.pend
         [] c.m.k = "Pause" -> r.ok <=> c.s = gg.own /\ ~s.k["x"].paused
         [] c.m.k = "Release" -> r.ok <=> c.s = gg.own /\ s.k["x"].paused
         [] c.m.k = "FeeClaim" -> r.ok <=> c.s = gg.own /\ Bal(s, "x") # NoCoins
         [] OTHER -> r.ok <=> c.s = gg.own
XState(gg, s) == Kind(s, "x") # "" => Query(s, Q("x", "Owner")) = R(gg.own) /\ Query(s, Q("x", "Pending")) = R(Opt(gg.pend))
XTag(gg, s, c) == ""
XLen(d) == IF d THEN 9 ELSE 6
=============================================================================
