-------------------------------- MODULE MC --------------------------------
(***************************************************************************)
(* Exhaustive exploration of Hpl from a given set-up with given calls.     *)
(* A property module MC_Cxx fixes the constants and states the property:   *)
(* StepOk about every transition, StateOk about every state, both over the *)
(* contracts' state st and the history variable g.                         *)
(* Every transition explored is printed with what the specification says   *)
(* can be observed; the harness runs them all on the real contracts.       *)
(***************************************************************************)
EXTENDS Hpl, Json, IOUtils

CONSTANTS Setup,            \* calls made before the exploration, all accepted
          CallsOf(_),       \* state -> sequence of calls tried in it
          QsOf(_),          \* state -> questions asked after every accepted call
          Tag(_, _, _),     \* suffix of the category of a refused or accepted call
          G0, Upd(_, _, _, _),      \* history variable: g, st, call, result
          StepOk(_, _, _, _),       \* g, st, call, result
          StateOk(_, _),            \* g, st
          MaxLen(_)                 \* longest history, by tier

VARIABLES st, g, hist
vars == <<st, g, hist>>

Deep == IOEnv.VERIF_TIER = "thorough"
I == JsonDeserialize(IOEnv.INIT)
St0 == [k |-> E0, b |-> E0, sent |-> {}, dn |-> I.dn, ra |-> I.ra, rb |-> I.rb, ver |-> I.ver]

RECURSIVE SetUp(_, _)
SetUp(s, i) == IF i > Len(Setup) THEN s
               ELSE LET r == Run(s, Setup[i])
                    IN IF r.ok THEN SetUp(r.st, i + 1) ELSE Assert(FALSE, <<"set-up refused", Setup[i]>>)
Start == SetUp(St0, 1)

Ask(s, qs) == [j \in DOMAIN qs |-> <<qs[j], Query(s, qs[j])>>]
Edge(h, i, s, gg, c, r) ==
  PrintT("EDGE " \o ToJson([h |-> h, i |-> i, c |-> c, ok |-> r.ok, ev |-> r.ev, data |-> r.data, tag |-> Tag(gg, s, c),
                            q |-> IF r.ok THEN Ask(r.st, QsOf(r.st)) ELSE <<>>]))

Init == /\ st = Start /\ g = G0 /\ hist = <<>>
        /\ PrintT("SETUP " \o ToJson(Setup))

Next ==
  /\ Len(hist) < MaxLen(Deep)
  /\ LET cs == CallsOf(st) IN
     \E i \in DOMAIN cs :
       LET c == cs[i]
           r == Run(st, c) IN
       /\ Edge(hist, i, st, g, c, r)
       /\ Assert(StepOk(g, st, c, r), <<"the step breaks the property", hist, c, r>>)
       /\ st' = r.st
       /\ g' = Upd(g, st, c, r)
       /\ hist' = IF r.ok THEN Append(hist, i) ELSE hist

Spec == Init /\ [][Next]_vars
Inv == StateOk(g, st)
View == <<st, g>>

(* ------------------------------------------------ writing calls and questions *)
X(s, a, m) == [t |-> "exec", s |-> s, a |-> a, m |-> m, f |-> <<>>]
XF(s, a, m, f) == [t |-> "exec", s |-> s, a |-> a, m |-> m, f |-> f]
InstC(a, kd, m) == [t |-> "inst", s |-> "u1", a |-> a, m |-> [k |-> "Inst", kind |-> kd] @@ m, f |-> <<>>]
Mock0 == [fee |-> <<>>, hmode |-> "ok", qmode |-> "ok", tab |-> <<>>, vmode |-> "yes", acc |-> <<>>, vi |-> <<1, <<>>>>,
          ism |-> <<>>, imode |-> "ok", rmode |-> "ok", subs |-> <<>>]
MockC(a, m) == [t |-> "mock", s |-> "", a |-> a, m |-> m @@ Mock0, f |-> <<>>]
Bank(a, f) == [t |-> "bank", s |-> "", a |-> a, m |-> [k |-> "mint"], f |-> f]
Q(a, k) == [a |-> a, k |-> k]
Raw(x) == <<"raw", x>>
MsgR(v, n, o, s, d, r, b) == [v |-> v, n |-> n, o |-> o, s |-> s, d |-> d, r |-> r, b |-> b]
Isk(c, k) == c.t = "exec" /\ c.m.k = k
Evs(r, t) == SelectSeq(r.ev, LAMBDA e : e[1] = t)
NoTag(gg, s, c) == ""
NoUpd(gg, s, c, r) == gg
True2(x, y) == TRUE
True4(x, y, z, w) == TRUE
=============================================================================
