------------------------------ MODULE MC_C22 ------------------------------
(* Two chains: what the destination delivers is what the origin dispatched. *)
(* Of three validators k3 signs whatever it is asked to; k1 and k2 sign     *)
(* only messages the origin's mailbox has dispatched.  The adversary uses   *)
(* every signature there is, in any metadata, for any message.              *)
EXTENDS MC
DA == 1
DB == -2
Own(a, x) == X("u1", a, x)
XSetup == << MockC("h1", E0), MockC("r1", E0), MockC("r2", [ism |-> <<"ms">>]) >>
  \o << InstC("mba", "mailbox", [owner |-> "u1", dom |-> DA]), InstC("mbb", "mailbox", [owner |-> "u1", dom |-> DB]),
        InstC("mk", "merkle", [mb |-> "mba"]),
        Own("mba", [k |-> "SetRequiredHook", x |-> "mk"]), Own("mba", [k |-> "SetDefaultHook", x |-> "h1"]),
        InstC("ms", "imulti", [owner |-> "u1"]), InstC("ip", "ipaus", [owner |-> "u1", paused |-> FALSE]),
        InstC("ag", "iagg", [owner |-> "u1", isms |-> <<"ms", "ip">>, t |-> 2]),
        InstC("ro", "iroute", [owner |-> "u1", isms |-> << <<DA, "ag">> >>]),
        Own("mbb", [k |-> "SetDefaultIsm", x |-> "ro"]), Own("mba", [k |-> "SetDefaultIsm", x |-> "ro"]),
        Own("ms", [k |-> "SetVals", d |-> DA, t |-> 2, vals |-> << <<20, "k1">>, <<20, "k2">>, <<20, "k3">> >>]) >>

Di(s, d, r, b) == X(s, "mba", [k |-> "Dispatch", d |-> d, r |-> <<32, r>>, b |-> Raw(b), hook |-> <<>>, meta |-> <<>>])
Sg(k, msg) == [k |-> k, o |-> msg.o, tree |-> "mk", root |-> "rt1", idx |-> 1, msg |-> msg, kind |-> "ok"]
Ms(sigs) == <<"ms", "mk", "rt1", 1, sigs, "">>
Meta(msg, sigs) == IF msg.r = "r2" THEN Ms(sigs) ELSE <<"agg", << Ms(sigs), Raw("") >> >>
Pr(a, msg, sigs) == X("u3", a, [k |-> "Process", meta |-> Meta(msg, sigs), msg |-> msg])
Forged(m) == << [m EXCEPT !.b = Raw("bb")], [m EXCEPT !.n = @ + 1], [m EXCEPT !.s = "u3"], [m EXCEPT !.r = IF @ = "r1" THEN "r2" ELSE "r1"],
                [m EXCEPT !.o = 3], [m EXCEPT !.d = DA], [m EXCEPT !.v = 2] >>
(* signatures that come to be: k3 over the message, k1 and k2 over the dispatched one *)
TryReal(m) == << <<Sg("k1", m), Sg("k2", m)>>, <<Sg("k3", m), Sg("k1", m)>>, <<Sg("k1", m), Sg("k1", m)>>, <<Sg("k3", m), Sg("kx", m)>>, <<Sg("k3", m)>> >>
TryForged(f, m) == << <<Sg("k3", f), Sg("k1", m)>>, <<Sg("k1", m), Sg("k2", m)>>, <<Sg("k3", f), Sg("k3", f), Sg("k3", f)>> >>
Each(s, F(_)) == LET l == SetToSeq(s.sent) IN FlattenSeq([j \in DOMAIN l |-> F(l[j])])
XCalls(s) ==
  << Di("u1", DB, "r1", "aa"), Di("u1", DB, "r2", "aa"), Di("u2", DB, "r1", "bb"), Di("u1", DA, "r1", "aa"),
     Own("ip", [k |-> "Pause"]), Own("ip", [k |-> "Release"]),
     Own("ms", [k |-> "SetVals", d |-> DA, t |-> 2, vals |-> << <<20, "k2">>, <<20, "k3">> >>]) >>
  \o Each(s, LAMBDA m : [j \in 1..5 |-> Pr("mbb", m, TryReal(m)[j])] \o << Pr("mba", m, TryReal(m)[1]) >>
                        \o FlattenSeq([i \in 1..7 |-> LET f == Forged(m)[i] IN
                             IF f \in s.sent THEN <<>> ELSE [j \in 1..3 |-> Pr(IF f.d = DA THEN "mba" ELSE "mbb", f, TryForged(f, m)[j])]]))
XQs(s) == LET l == SetToSeq(s.sent) IN
  [j \in DOMAIN l |-> [a |-> "mbb", k |-> "Delivered", id |-> <<"m", l[j]>>]] \o [j \in DOMAIN l |-> [a |-> "mba", k |-> "Delivered", id |-> <<"m", l[j]>>]]
  \o << Q("mba", "Nonce"), Q("mba", "LatestId"), Q("mbb", "Nonce"), Q("mk", "Count"), Q("mk", "Root"), Q("mbb", "DefaultIsm"),
        [a |-> "ms", k |-> "Enrolled", d |-> DA], Q("ip", "Paused") >>

(* who is enrolled, what the ghost has seen dispatched and handled *)
XG0 == [en |-> {"k1", "k2", "k3"}, run |-> TRUE, sent |-> {}, got |-> {}]
XUpd(gg, s, c, r) ==
  IF ~r.ok THEN gg
  ELSE CASE c.m.k = "SetVals" -> [gg EXCEPT !.en = {c.m.vals[j][2] : j \in DOMAIN c.m.vals}]
         [] c.m.k = "Pause" -> [gg EXCEPT !.run = FALSE]
         [] c.m.k = "Release" -> [gg EXCEPT !.run = TRUE]
         [] c.m.k = "Dispatch" -> [gg EXCEPT !.sent = @ \cup {[v |-> 3, n |-> Cardinality(gg.sent), o |-> DA, s |-> c.s, d |-> c.m.d, r |-> c.m.r[2], b |-> c.m.b]}]
         [] c.m.k = "Process" -> [gg EXCEPT !.got = @ \cup {<<c.a, c.m.msg>>}]
         [] OTHER -> gg
Sigs(c) == IF c.m.msg.r = "r2" THEN c.m.meta[5] ELSE c.m.meta[2][1][5]
Signers(c) == LET z == Sigs(c) IN {z[j].k : j \in {i \in DOMAIN z : z[i].msg = c.m.msg}}
XStep(gg, s, c, r) ==
  /\ Isk(c, "Dispatch") => r.ok
  /\ Isk(c, "Process") =>
       LET m == c.m.msg IN
       \* never anything the origin has not dispatched, never to the wrong chain, never twice
       /\ r.ok => m \in gg.sent /\ c.a = (IF m.d = DA THEN "mba" ELSE "mbb") /\ <<c.a, m>> \notin gg.got
                  /\ r.ev # <<>> /\ Evs(r, "handle") = << <<"handle", m.r, c.a, m.o, <<32, m.s>>, m.b, <<>>>> >>
       \* and always what enough validators have signed
       /\ (/\ m \in gg.sent /\ c.a = (IF m.d = DA THEN "mba" ELSE "mbb") /\ <<c.a, m>> \notin gg.got
           /\ Cardinality(Signers(c) \cap gg.en) >= 2 /\ (m.r = "r1" => gg.run)) => r.ok
       /\ ~r.ok => r.st = s
XState(gg, s) == /\ s.sent = gg.sent
                 /\ {<<"mbb", m>> : m \in s.k["mbb"].dl} \cup {<<"mba", m>> : m \in s.k["mba"].dl} = gg.got
                 /\ s.k["mk"].n = Cardinality(gg.sent)
XTag(gg, s, c) == IF Isk(c, "Process") THEN IF <<c.a, c.m.msg>> \in gg.got THEN "/replay" ELSE "/first" ELSE ""
XLen(d) == IF d THEN 5 ELSE 4
=============================================================================
