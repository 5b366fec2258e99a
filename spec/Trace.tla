------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Steps the specification along executions recorded from the real         *)
(* contracts (one JSON value per line) and compares, at every step, whether *)
(* the call succeeded, the events, the response and every query answer.    *)
(* A difference is printed as  MISMATCH {...}  and is a violation of the    *)
(* property the category belongs to (tools/check.py).                      *)
(***************************************************************************)
EXTENDS Hpl, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Lines)

VARIABLES i,      \* next line
          st,     \* state of the specification
          failed, \* messages whose processing was attempted and failed
          skip,   \* TRUE after a difference that makes the rest of the scenario meaningless
          bad     \* differences seen in this scenario
vars == <<i, st, failed, skip, bad>>

St0(L) == [k |-> E0, b |-> E0, sent |-> {}, dn |-> L.dn, ra |-> L.ra, rb |-> L.rb, ver |-> L.ver]

Tags(es) == {es[j][1] : j \in DOMAIN es}
Bag(es, t) == SortSeq([j \in DOMAIN SelectSeq(es, LAMBDA e : e[1] = t) |->
                         TLCFP(SelectSeq(es, LAMBDA e : e[1] = t)[j])], LAMBDA x, y : x < y)
Ordered(es) == LET s == SelectSeq(es, LAMBDA e : e[1] \in {"hook", "handle", "sub"})
               IN [j \in DOMAIN s |-> TLCFP(s[j])]

Report(cat, spec, impl, line) ==
  PrintT("MISMATCH " \o ToJson([cat |-> cat, line |-> line, spec |-> spec, impl |-> impl]))

(* what a refused or wrongly accepted process call was about *)
ProcTag(c) ==
  IF c.t = "exec" /\ c.m.k = "Process" /\ Kind(st, c.a) = "mailbox"
  THEN IF c.m.msg \in st.k[c.a].dl THEN "/replay"
       ELSE IF <<c.a, c.m.msg>> \in failed THEN "/retry" ELSE "/first"
  ELSE ""
Mk(c) == IF c.t \in {"exec", "inst"} THEN c.m.k ELSE c.t
KindC(c) == IF c.t = "inst" THEN c.m.kind ELSE Kind(st, c.a)

OkDiff(c, r, o) ==
  IF r.ok = o.ok THEN <<>>
  ELSE << <<"ok/" \o KindC(c) \o "/" \o Mk(c) \o (IF o.ok THEN "/accepts" ELSE "/refuses") \o ProcTag(c), r.ok, o.ok>> >>

EvDiff(c, r, o) ==
  IF ~r.ok \/ ~o.ok THEN <<>>
  ELSE LET ts == SetToSeq({t \in Tags(r.ev) \cup Tags(o.ev) : Bag(r.ev, t) # Bag(o.ev, t)})
           of(es, t) == SelectSeq(es, LAMBDA e : e[1] = t)
       IN IF Len(ts) > 0
          THEN [j \in DOMAIN ts |-> <<"ev/" \o ts[j] \o "/" \o KindC(c) \o "/" \o Mk(c), of(r.ev, ts[j]), of(o.ev, ts[j])>>]
          ELSE IF Ordered(r.ev) # Ordered(o.ev)
               THEN << <<"ev/order/" \o KindC(c) \o "/" \o Mk(c), r.ev, o.ev>> >> ELSE <<>>

DataDiff(c, r, o) ==
  IF r.ok /\ o.ok /\ ~Eq(r.data, o.data) THEN << <<"data/" \o KindC(c) \o "/" \o Mk(c), r.data, o.data>> >> ELSE <<>>

(* a verification that fails and one that answers no are the same answer *)
Norm(q, a) == IF q.k = "Verify" /\ a # <<"ok", TRUE>> THEN <<"no">> ELSE a

QDiff(s, qs) ==
  LET ans == [j \in DOMAIN qs |-> Query(s, qs[j][1])]
      ds == SelectSeq([j \in DOMAIN qs |-> j], LAMBDA j : ~Eq(Norm(qs[j][1], ans[j]), Norm(qs[j][1], qs[j][2])))
  IN [j \in DOMAIN ds |-> LET q == qs[ds[j]][1] IN
        <<"q/" \o Kind(s, q.a) \o "/" \o q.k, [q |-> q, a |-> ans[ds[j]]], qs[ds[j]][2]>>]

Init == i = 1 /\ st = [k |-> E0] /\ failed = {} /\ skip = TRUE /\ bad = 0

Next ==
  /\ i <= N
  /\ i' = i + 1
  /\ LET L == Lines[i] IN
     IF "init" \in DOMAIN L
     THEN st' = St0(L) /\ failed' = {} /\ skip' = FALSE /\ bad' = 0
     ELSE IF skip THEN UNCHANGED <<st, failed, skip, bad>>
     ELSE LET r == Run(st, L.c)
              nx == IF L.o.ok THEN r.st ELSE st
              d0 == OkDiff(L.c, r, L.o)
              d == d0 \o EvDiff(L.c, r, L.o) \o DataDiff(L.c, r, L.o) \o (IF Len(d0) > 0 /\ L.o.ok THEN <<>> ELSE QDiff(nx, L.q))
              \* a call the implementation refuses is undone there, whatever was due
          IN /\ \A j \in DOMAIN d : Report(d[j][1], d[j][2], d[j][3], i)
             /\ st' = nx
             /\ failed' = IF L.c.t = "exec" /\ L.c.m.k = "Process" /\ ~L.o.ok THEN failed \cup {<<L.c.a, L.c.m.msg>>} ELSE failed
             /\ bad' = bad + Len(d)
             /\ skip' = ((Len(d0) > 0 /\ L.o.ok) \/ bad' > 8)

Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = N
=============================================================================
