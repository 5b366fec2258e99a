------------------------------ MODULE MC_C09 ------------------------------
(* The routing ISM answers what the ISM routed for the origin answers.     *)
EXTENDS MC
Msg(o) == MsgR(3, 0, o, "z1", 9, "r1", Raw("aa"))
Os == <<5, -6, 7>>
Ms == [j \in DOMAIN Os |-> Msg(Os[j])] \o <<MsgR(3, 1, 5, "z1", 9, "r1", Raw("aa"))>>
P1 == Raw("01")
P2 == Raw("02")
Set(s, a, d, x) == X(s, a, [k |-> "SetIsmRoute", d |-> d, x |-> x])
Unset(s, a, ds) == X(s, a, [k |-> "UnsetIsmRoute", ds |-> ds])
A1 == MockC("i1", [vmode |-> "acc", acc |-> << <<P1, Msg(5)>>, <<P2, Msg(-6)>> >>, vi |-> <<1, <<"k1">> >>])
A2 == MockC("i2", [vmode |-> "acc", acc |-> << <<P2, Msg(5)>>, <<P1, Msg(7)>> >>, vi |-> <<2, <<"k2", "k3">> >>])
XSetup == << A1, A2, InstC("ip", "ipaus", [owner |-> "u1", paused |-> FALSE]), InstC("ag", "iagg", [owner |-> "u1", isms |-> <<"i1", "i2">>, t |-> 2]),
             InstC("ro2", "iroute", [owner |-> "u1", isms |-> << <<5, "i2">>, <<7, "i1">> >>]), InstC("ro", "iroute", [owner |-> "u1", isms |-> << <<5, "i1">> >>]) >>
XCalls(s) ==
  << Set("u1", "ro", 5, "i1"), Set("u1", "ro", 5, "i2"), Set("u1", "ro", 5, "ag"), Set("u1", "ro", 5, "ro2"), Set("u1", "ro", 5, "nobody"),
     Set("u1", "ro", -6, "i1"), Set("u1", "ro", -6, "ro2"), Set("u1", "ro", 7, "ip"), Set("u1", "ro", 7, "ro2"), Set("u1", "ro", 5, "!bad"), Set("u2", "ro", 5, "i2"),
     Set("u1", "ro2", -6, "i1"), Unset("u1", "ro2", <<5>>),
     Unset("u1", "ro", <<5>>), Unset("u1", "ro", <<-6, 7>>), Unset("u2", "ro", <<5>>), Unset("u1", "ro", <<8>>),
     MockC("i1", [vmode |-> "err"]), MockC("i2", [vmode |-> "no"]), A1, X("u1", "ip", [k |-> "Pause"]) >>
Metas == <<P1, P2, <<"agg", <<P1, P2>> >>, <<"agg", <<P2, P1>> >> >>
Vq(a, meta, msg) == [a |-> a, k |-> "Verify", meta |-> meta, msg |-> msg]
Ask1(a) == FlattenSeq([j \in DOMAIN Ms |-> [n \in DOMAIN Metas |-> Vq(a, Metas[n], Ms[j])]])
ShortM == [v |-> -2, b |-> Raw("03")]
XQs(s) == Ask1("ro") \o FlattenSeq([j \in DOMAIN Ms |-> << [a |-> "ro", k |-> "VerifyInfo", msg |-> Ms[j]], [a |-> "ro", k |-> "Route", msg |-> Ms[j]] >>])
          \o << Vq("ro", P1, ShortM), [a |-> "ro", k |-> "Route", msg |-> ShortM], [a |-> "ro", k |-> "VerifyInfo", msg |-> ShortM], Q("ro", "ModuleType") >>
(* the routes of ro, as last set *)
XG0 == (5 :> "i1")
Gone(gg, ds) == [d \in (DOMAIN gg) \ ToSet(ds) |-> gg[d]]
XUpd(gg, s, c, r) == IF ~r.ok \/ c.a # "ro" THEN gg
                     ELSE IF c.m.k = "SetIsmRoute" THEN (c.m.d :> c.m.x) @@ gg ELSE Gone(gg, c.m.ds)
XStep(gg, s, c, r) == c.t = "exec" => (r.ok => c.s = "u1")
XState(gg, s) ==
  \A j \in DOMAIN Ms :
    LET m == Ms[j] at(k) == Query(s, [a |-> "ro", k |-> k, msg |-> m]) IN
    IF m.o \in DOMAIN gg
    THEN LET x == gg[m.o] IN
         /\ \A n \in DOMAIN Metas : (Query(s, Vq("ro", Metas[n], m)) = R(TRUE)) = (Query(s, Vq(x, Metas[n], m)) = R(TRUE))
         /\ at("VerifyInfo") = (IF IsC(s, x) THEN Query(s, [a |-> x, k |-> "VerifyInfo", msg |-> m]) ELSE ER)
         /\ at("Route") = R(x)
    ELSE /\ \A n \in DOMAIN Metas : Query(s, Vq("ro", Metas[n], m)) = ER
         /\ at("VerifyInfo") = ER /\ at("Route") = ER
XTag(gg, s, c) == ""
XLen(d) == IF d THEN 5 ELSE 4
=============================================================================
