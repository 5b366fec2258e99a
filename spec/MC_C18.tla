------------------------------ MODULE MC_C18 ------------------------------
(* Validator announcements are authentic, unique and complete.              *)
EXTENDS MC
Locs == <<"s3://a", "s3://b", "">>
Ks == <<"k1", "k2">>
Sig(k, d, mb, loc) == [key |-> k, dom |-> d, mb |-> mb, loc |-> loc, kind |-> "ok"]
An(at, v, loc, sig) == X("u1", at, [k |-> "Announce", v |-> v, loc |-> loc, sig |-> sig])
V(k) == <<20, k>>
XSetup == << InstC("mb", "mailbox", [owner |-> "u1", dom |-> 5]), InstC("mb2", "mailbox", [owner |-> "u1", dom |-> -6]), InstC("va", "va", [mb |-> "mb"]), InstC("va2", "va", [mb |-> "mb2"]) >>
Good == FlattenSeq([j \in DOMAIN Ks |-> [n \in DOMAIN Locs |-> An("va", V(Ks[j]), Locs[n], Sig(Ks[j], 5, "mb", Locs[n]))]])
S1 == Sig("k1", 5, "mb", "s3://a")
XCalls(s) ==
  Good \o << An("va2", V("k1"), "s3://a", Sig("k1", -6, "mb2", "s3://a")), [An("va", V("k1"), "s3://a", [S1 EXCEPT !.kind = "long"]) EXCEPT !.s = "u2"],
     An("va", V("k1"), "s3://a", [S1 EXCEPT !.key = "k2"]), An("va", V("k2"), "s3://a", S1), An("va", V("k1"), "s3://b", S1), An("va2", V("k1"), "s3://a", S1),
     An("va", V("k1"), "s3://a", [S1 EXCEPT !.dom = -6]), An("va", V("k1"), "s3://a", [S1 EXCEPT !.mb = "mb2"]), An("va", V("k1"), "s3://a", [S1 EXCEPT !.kind = "flip"]),
     An("va", V("k1"), "s3://a", [S1 EXCEPT !.kind = "badv"]), An("va", V("k1"), "s3://a", [S1 EXCEPT !.kind = "lowv"]), An("va", V("k1"), "s3://a", [S1 EXCEPT !.kind = "zero"]),
     An("va", V("k1"), "s3://a", [S1 EXCEPT !.kind = "short"]), An("va", <<32, "k1">>, "s3://a", S1), An("va", <<0, "x">>, "s3://a", S1),
     An("va", <<19, "x00112233445566778899aabbccddeeff001122">>, "s3://a", S1), An("va", V("u2"), "s3://a", S1) >>
Asked == << <<20, "k1">>, <<20, "k2">>, <<20, "k3">>, <<20, "k1">>, <<0, "x">> >>
XQs(s) == << [a |-> "va", k |-> "Locs", vs |-> Asked], [a |-> "va2", k |-> "Locs", vs |-> Asked], Q("va", "Anns"), Q("va2", "Anns"), Q("va", "VMailbox"), Q("va", "VDomain"), Q("va2", "VDomain"), Q("va2", "VMailbox"),
             [a |-> "va", k |-> "Locs", vs |-> <<>>] >>
(* what has been announced where, in order *)
XG0 == [va |-> <<>>, va2 |-> <<>>]
Dom == [va |-> <<5, "mb">>, va2 |-> <<-6, "mb2">>]
XUpd(gg, s, c, r) == IF r.ok THEN [gg EXCEPT ![c.a] = Append(@, <<c.m.v[2], c.m.loc>>)] ELSE gg
XStep(gg, s, c, r) ==
  /\ ~r.ok => r.st = s
  /\ r.ok <=> /\ c.m.v[1] = 20 /\ <<c.m.v[2], c.m.loc>> \notin ToSet(gg[c.a])
              /\ c.m.sig.kind \in {"ok", "long"} /\ c.m.sig.key = c.m.v[2] /\ c.m.sig.loc = c.m.loc /\ <<c.m.sig.dom, c.m.sig.mb>> = Dom[c.a]
Of(gg, a, k) == LET l == SelectSeq(gg[a], LAMBDA x : x[1] = k) IN [j \in DOMAIN l |-> l[j][2]]
XState(gg, s) == \A a \in DOMAIN gg :
  /\ LET l == Query(s, [a |-> a, k |-> "Locs", vs |-> Asked])[2] IN \A j \in DOMAIN Asked : l[j] = <<Asked[j], Of(gg, a, Asked[j][2])>>
  /\ LET l == Query(s, Q(a, "Anns"))[2] IN ToSet(l) = {x[1] : x \in ToSet(gg[a])} /\ IsInjective(l)
XTag(gg, s, c) == ""
XLen(d) == IF d THEN 8 ELSE 5
=============================================================================
