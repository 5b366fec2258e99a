------------------------------ MODULE MC_C07 ------------------------------
(* The multisig ISM accepts exactly the messages that a threshold of the   *)
(* validators enrolled for their origin have signed.                       *)
EXTENDS MC

M5 == MsgR(3, 0, 5, "z1", 9, "r1", Raw("aa"))
M6 == MsgR(3, 0, -6, "z1", 9, "r1", Raw("aa"))
M7 == MsgR(3, 1, 5, "z1", 9, "r1", Raw("aa"))

(* signatures over the checkpoint (origin, mk, rt1, 1) of a message *)
Sg(k, msg) == [k |-> k, o |-> msg.o, tree |-> "mk", root |-> "rt1", idx |-> 1, msg |-> msg, kind |-> "ok"]
Good(msg) == [j \in 1..3 |-> Sg(<<"k1", "k2", "k3">>[j], msg)]
Odd(msg) == << Sg("kx", msg), [Sg("k1", msg) EXCEPT !.root = "rt2"], [Sg("k1", msg) EXCEPT !.tree = "mk2"], [Sg("k1", msg) EXCEPT !.idx = 2],
               [Sg("k1", msg) EXCEPT !.msg = M7], [Sg("k1", msg) EXCEPT !.o = 7], [Sg("k1", msg) EXCEPT !.kind = "flip"] >>
Broken(msg) == << [Sg("k1", msg) EXCEPT !.kind = "badv"], [Sg("k2", msg) EXCEPT !.kind = "zero"] >>
Alpha(msg) == Good(msg) \o Odd(msg) \o Broken(msg)
Few(msg) == Good(msg) \o << Odd(msg)[1], Odd(msg)[2], Broken(msg)[1] >>

Ms(sigs, trail) == <<"ms", "mk", "rt1", 1, sigs, trail>>
Seqs0(A) == << <<>> >>
Seqs1(A) == [i \in DOMAIN A |-> <<A[i]>>]
Prepend(A, S) == FlattenSeq([i \in DOMAIN A |-> [j \in DOMAIN S |-> <<A[i]>> \o S[j]]])
Lists5 == Seqs0(1) \o Seqs1(Alpha(M5)) \o Prepend(Alpha(M5), Seqs1(Alpha(M5)))
          \o Prepend(Few(M5), Prepend(Few(M5), Seqs1(IF Deep THEN Alpha(M5) ELSE Few(M5))))
          \o (IF Deep THEN Prepend(Few(M5), Prepend(Few(M5), Prepend(Few(M5), Seqs1(Good(M5))))) ELSE <<>>)
Lists6 == Seqs0(1) \o Seqs1(Alpha(M6)) \o Prepend(Good(M6), Seqs1(Good(M6) \o <<Sg("k2", M5)>>))
Vq(meta, msg) == [a |-> "ms", k |-> "Verify", meta |-> meta, msg |-> msg]
Asked == [j \in DOMAIN Lists5 |-> Vq(Ms(Lists5[j], ""), M5)] \o [j \in DOMAIN Lists6 |-> Vq(Ms(Lists6[j], ""), M6)]
         \o << Vq(Ms(Good(M5), ""), M6), Vq(Ms(Good(M5), ""), M7), Vq(Ms(Good(M5), "ab"), M5),
               Vq(Raw("00"), M5), Vq(Ms(Good(M5), ""), [v |-> -2, b |-> Raw("0300")]),
               Vq(<<"ms", "mk2", "rt1", 1, Good(M5), "">>, M5), Vq(<<"ms", "mk", "rt2", 1, Good(M5), "">>, M5), Vq(<<"ms", "mk", "rt1", 2, Good(M5), "">>, M5) >>

Own(s, x) == X(s, "ms", x)
En(s, d, t, vals) == Own(s, [k |-> "SetVals", d |-> d, t |-> t, vals |-> [j \in DOMAIN vals |-> <<20, vals[j]>>]])
XSetup == << InstC("ms", "imulti", [owner |-> "u1"]) >>
Confs(d) == << En("u1", d, 1, <<"k1">>), En("u1", d, 1, <<"k2", "k3">>), En("u1", d, 2, <<"k1", "k2">>), En("u1", d, 2, <<"k3", "k1", "k2">>),
               En("u1", d, 3, <<"k1", "k2", "k3">>), En("u1", d, 2, <<"k1", "k1">>), Own("u1", [k |-> "UnsetDomain", d |-> d]) >>
XCalls(s) ==
  Confs(5) \o (IF Deep THEN Confs(-6) ELSE SubSeq(Confs(-6), 4, 7)) \o
  << En("u1", 5, 0, <<"k1">>), En("u1", 5, 2, <<"k1">>), En("u1", 5, 1, <<>>), En("u2", 5, 1, <<"k2">>), Own("u2", [k |-> "UnsetDomain", d |-> 5]),
     Own("u1", [k |-> "SetVals", d |-> 5, t |-> 1, vals |-> << <<20, "k1">>, <<32, "k2">> >>]),
     Own("u1", [k |-> "SetVals", d |-> 5, t |-> 1, vals |-> << <<0, "x">> >>]), En("u1", 0, 1, <<"k3">>) >>
Doms == <<5, -6, 0, 7>>
XQs(s) == Asked \o [j \in DOMAIN Doms |-> [a |-> "ms", k |-> "Enrolled", d |-> Doms[j]]]
          \o << [a |-> "ms", k |-> "VerifyInfo", msg |-> M5], [a |-> "ms", k |-> "VerifyInfo", msg |-> M6], Q("ms", "ModuleType") >>

(* what was last enrolled *)
XG0 == [d \in ToSet(Doms) |-> <<>>]
XUpd(gg, s, c, r) == IF ~r.ok THEN gg
                     ELSE IF c.m.k = "SetVals" THEN [gg EXCEPT ![c.m.d] = <<c.m.t, {c.m.vals[j][2] : j \in DOMAIN c.m.vals}>>]
                     ELSE [gg EXCEPT ![c.m.d] = <<>>]
XStep(gg, s, c, r) ==
  /\ (c.s = "u1" /\ c.m.k = "SetVals" /\ Len(c.m.vals) <= 9)
       => (r.ok <=> c.m.t \in 1..Len(c.m.vals) /\ \A j \in DOMAIN c.m.vals : c.m.vals[j][1] = 20)
  /\ c.s # "u1" => ~r.ok
WF(y) == y.kind \in {"ok", "flip"}
For(y, meta, msg) == y.kind = "ok" /\ y.o = msg.o /\ y.tree = meta[2] /\ y.root = meta[3] /\ y.idx = meta[4] /\ y.msg = msg
Accepts(conf, meta, msg) ==
  /\ conf # <<>> /\ meta[1] = "ms" /\ msg.v # -2
  /\ \E n \in 0..Len(meta[5]) :
       /\ \A j \in 1..n : WF(meta[5][j])
       /\ Cardinality({v \in conf[2] : \E j \in 1..n : meta[5][j].k = v /\ For(meta[5][j], meta, msg)}) >= conf[1]
XState(gg, s) ==
  /\ \A j \in DOMAIN Asked : (Query(s, Asked[j]) = R(TRUE)) <=> Accepts(IF Short(Asked[j].msg) THEN <<>> ELSE gg[Asked[j].msg.o], Asked[j].meta, Asked[j].msg)
  /\ \A d \in DOMAIN gg : (gg[d] = <<>>) = (d \notin DOMAIN s.k["ms"].set)
XTag(gg, s, c) == ""
XLen(d) == IF d THEN 3 ELSE 2
=============================================================================
