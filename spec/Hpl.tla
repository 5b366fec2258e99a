-------------------------------- MODULE Hpl --------------------------------
(***************************************************************************)
(* The behaviour of the hyperlane contracts, as deterministic operators on *)
(* an explicit state.  Nothing here is specific to a bound or to a trace:  *)
(* the MC_* modules explore these operators exhaustively, Trace.tla steps  *)
(* them along executions recorded from the real contracts.                 *)
(*                                                                         *)
(* st.k   name -> contract record (field "kind" tells which contract)      *)
(* st.b   account -> denom -> amount, without zero entries                 *)
(* st.sent every message any mailbox of this world has dispatched          *)
(* st.dn  all denoms in their byte order      (constant during a history)  *)
(* st.ra  name -> rank in the order of the address strings      (constant) *)
(* st.rb  name -> rank in the order of the 32/20 address bytes  (constant) *)
(* st.ver <<version string, parsed version>> of the code        (constant) *)
(*                                                                         *)
(* Amounts are limb sequences (Big).  32-bit words (domains, nonces, ...)  *)
(* are TLC integers in two's complement, compared by ULt.  An address, as  *)
(* a string or as 32 bytes, is its name.  A byte string of free length is  *)
(* <<length, symbol>>.  An option is <<>> or <<x>>.  A message is the      *)
(* record of its fields, and is identified with its id.                    *)
(***************************************************************************)
EXTENDS Big, FiniteSets, TLC, TLCExt, SequencesExt, FiniteSetsExt

Eq(x, y) == TLCFP(x) = TLCFP(y)

ULt(x, y) == IF (x < 0) = (y < 0) THEN x < y ELSE y < 0
MaxDepth == 12

Valid(x) == x \notin {"", "!bad", "!hrp", "!sum", "!empty", "!upper"}

(* ---------------------------------------------------------------- coins *)
CGet(c, d) == IF d \in DOMAIN c THEN c[d] ELSE <<>>
CNorm(c) == LET D == {d \in DOMAIN c : Len(c[d]) > 0} IN [d \in D |-> c[d]]
CEmpty(c) == DOMAIN c = {}
NoCoins == [d \in {} |-> <<>>]
(* from a sequence <<denom, amount>> without repeated denoms *)
CM(s) == CNorm([d \in {s[i][1] : i \in DOMAIN s} |->
                  s[CHOOSE i \in DOMAIN s : s[i][1] = d][2]])
COne(d, x) == CNorm([e \in {d} |-> x])
CAdd(a, b) == [d \in (DOMAIN a) \cup (DOMAIN b) |-> BAdd(CGet(a, d), CGet(b, d))]
CSub(a, b) == CNorm([d \in DOMAIN a |-> BSub(a[d], CGet(b, d))])
CLe(a, b) == \A d \in DOMAIN a : BLe(a[d], CGet(b, d))
CFits(a) == \A d \in DOMAIN a : Fits128(a[d])
CSeq(st, c) == LET ds == SelectSeq(st.dn, LAMBDA d : d \in DOMAIN c)
               IN [i \in DOMAIN ds |-> <<ds[i], c[ds[i]]>>]

(* ----------------------------------------------------------------- bank *)
FGet(f, x, dflt) == IF x \in DOMAIN f THEN f[x] ELSE dflt
FPut(f, x, v) == (x :> v) @@ f
FDel(f, x) == [y \in (DOMAIN f) \ {x} |-> f[y]]

Bal(st, a) == FGet(st.b, a, NoCoins)
SetBal(st, a, c) == [st EXCEPT !.b = IF CEmpty(c) THEN FDel(@, a) ELSE FPut(@, a, c)]
Ok(st) == [ok |-> TRUE, st |-> st]
Fail == [ok |-> FALSE]

Move(st, s, a, c) ==
  IF CEmpty(c) THEN Ok(st)
  ELSE IF ~CLe(c, Bal(st, s)) THEN Fail
  ELSE IF s = a THEN Ok(st)
  ELSE LET n == CAdd(Bal(st, a), c)
       IN IF ~CFits(n) THEN Fail
          ELSE Ok(SetBal(SetBal(st, s, CSub(Bal(st, s), c)), a, n))
(* a bank send: empty sends and invalid recipients are refused *)
Send(st, s, to, c) == IF CEmpty(c) \/ ~Valid(to) THEN Fail ELSE Move(st, s, to, c)
MintTo(st, a, c) == LET n == CAdd(Bal(st, a), c)
                    IN IF ~CFits(n) THEN Fail ELSE Ok(SetBal(st, a, n))
BurnFrom(st, a, c) == IF CEmpty(c) \/ ~CLe(c, Bal(st, a)) THEN Fail
                      ELSE Ok(SetBal(st, a, CSub(Bal(st, a), c)))

(* -------------------------------------------------------- small helpers *)
IsC(st, a) == a \in DOMAIN st.k
Kind(st, a) == IF a \in DOMAIN st.k THEN st.k[a].kind ELSE ""
SetK(st, a, c) == [st EXCEPT !.k = FPut(@, a, c)]
Owned == {"mailbox", "hagg", "fee", "hpaus", "hroute", "hcustom", "hfall", "igp", "oracle",
          "iagg", "imulti", "ipaus", "iroute", "wnat", "wcw"}
Routers == {"hroute", "hcustom", "hfall", "igp", "wnat", "wcw"}
Migratable == Owned \cup {"va", "merkle"}
Answer(st) == [ok |-> TRUE, st |-> st, ev |-> <<>>, data |-> <<>>, subs |-> <<>>]
SubX(a, m, c) == [t |-> "x", a |-> a, m |-> m, f |-> c, try |-> FALSE]
SubSend(to, c) == [t |-> "send", to |-> to, f |-> c]
RtGet(c, d) == FGet(c.rt, d, <<>>)
Sorted(S) == SetToSortSeq(S, ULt)
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Min2(x, y) == IF x < y THEN x ELSE y

(* keys (ascending by lt) of one page *)
RECURSIVE FoldPut(_, _, _)
FoldPut(f, kv, i) == IF i > Len(kv) THEN f ELSE FoldPut(FPut(f, kv[i][1], kv[i][2]), kv, i + 1)
RECURSIVE FoldDel(_, _, _)
FoldDel(f, ks, i) == IF i > Len(ks) THEN f ELSE FoldDel(FDel(f, ks[i]), ks, i + 1)

PageErr(lim) == Len(lim) = 1 /\ ULt(30, lim[1])
Page(keys, off, lim, ord, Lt(_, _)) ==
  LET n   == IF Len(lim) = 0 THEN 10 ELSE lim[1]
      dsc == Len(ord) = 1 /\ ord[1] = "desc"
      o   == IF dsc THEN Rev(keys) ELSE keys
      f   == IF Len(off) = 0 THEN o
             ELSE IF dsc THEN SelectSeq(o, LAMBDA x : Lt(x, off[1]))
             ELSE SelectSeq(o, LAMBDA x : Lt(off[1], x))
  IN SubSeq(f, 1, Min2(n, Len(f)))

(* ------------------------------------------------------- gas and quotes *)
RECURSIVE OracleData(_, _, _, _)
(* <<rate, price>> of domain d as oracle a answers it, or <<>> *)
OracleData(st, a, d, dp) ==
  IF dp > MaxDepth THEN <<>>
  ELSE CASE Kind(st, a) = "oracle" -> FGet(st.k[a].data, d, <<>>)
         [] Kind(st, a) = "igp" ->
              LET r == RtGet(st.k[a], d)
              IN IF Len(r) = 0 THEN <<>> ELSE OracleData(st, r[1], d, dp + 1)
         [] OTHER -> <<>>

(* <<needed>> for gas g to domain d, or <<>> *)
GasNeeded(st, a, d, g, dp) ==
  LET od == OracleData(st, a, d, dp)
  IN IF Len(od) = 0 THEN <<>>
     ELSE LET c1 == BMul(g, od[2])
          IN IF ~Fits256(c1) THEN <<>>
             ELSE LET c2 == BMul(c1, od[1])
                  IN IF ~Fits256(c2) THEN <<>> ELSE <<BDivScale(c2)>>

GasInForce(c, d) == FGet(c.gas, d, c.dgas)
MetaGas(c, meta, msg) == IF meta[1] = "igp" THEN meta[2] ELSE GasInForce(c, msg.d)
MetaRefund(meta, msg) == IF meta[1] = "igp" /\ meta[3] \in {20, 32} THEN meta[4] ELSE msg.s
Short(msg) == msg.v = -2

(* the hook a routing hook selects, or "" *)
HookOf(c, msg) ==
  IF Short(msg) THEN ""
  ELSE LET r == RtGet(c, msg.d)
           byroute == IF Len(r) = 1 THEN r[1] ELSE ""
       IN CASE c.kind = "hroute" -> byroute
            [] c.kind = "hcustom" -> IF <<msg.d, msg.r>> \in DOMAIN c.cust
                                     THEN c.cust[<<msg.d, msg.r>>] ELSE byroute
            [] c.kind = "hfall" -> IF Len(r) = 1 THEN r[1] ELSE c.fb

QErr == [ok |-> FALSE]
QOk(c) == [ok |-> TRUE, c |-> c]

RECURSIVE Quote(_, _, _, _, _), QuoteSum(_, _, _, _, _, _, _)
Quote(st, a, meta, msg, dp) ==
  IF dp > MaxDepth \/ ~IsC(st, a) THEN QErr
  ELSE LET c == st.k[a] IN
    CASE c.kind \in {"merkle", "hpaus"} -> QOk(NoCoins)
      [] c.kind = "fee" -> QOk(COne(c.fee[1], c.fee[2]))
      [] c.kind = "hagg" -> QuoteSum(st, c.hooks, 1, NoCoins, meta, msg, dp)
      [] c.kind \in {"hroute", "hcustom", "hfall"} ->
           LET h == HookOf(c, msg) IN IF h = "" THEN QErr ELSE Quote(st, h, meta, msg, dp + 1)
      [] c.kind = "igp" ->
           IF Short(msg) THEN QErr
           ELSE LET n == GasNeeded(st, a, msg.d, MetaGas(c, meta, msg), dp)
                IN IF Len(n) = 0 THEN QErr
                   ELSE IF ~Fits128(n[1]) THEN QErr ELSE QOk(COne(c.tok, n[1]))
      [] c.kind = "mock" ->
           IF c.qmode = "err" THEN QErr
           ELSE LET hit == {i \in DOMAIN c.tab : ~Short(msg) /\ Eq(c.tab[i][1], meta) /\ c.tab[i][2] = msg.d}
                IN IF hit = {} THEN QOk(CM(c.fee)) ELSE QOk(CM(c.tab[CHOOSE i \in hit : \A j \in hit : i <= j][3]))
      [] OTHER -> QErr
QuoteSum(st, hs, i, acc, meta, msg, dp) ==
  IF i > Len(hs) THEN QOk(acc)
  ELSE LET q == Quote(st, hs[i], meta, msg, dp + 1)
       IN IF ~q.ok THEN QErr
          ELSE LET n == CAdd(acc, q.c)
               IN IF ~CFits(n) THEN QErr ELSE QuoteSum(st, hs, i + 1, n, meta, msg, dp)

(* --------------------------------------------------------- verification *)
(* does signature g, over the checkpoint of metadata meta, count for msg?  *)
SigOver(g, meta, msg) == /\ g.o = msg.o /\ g.tree = meta[2] /\ g.root = meta[3]
                         /\ g.idx = meta[4] /\ Eq(g.msg, msg)
RECURSIVE MultiV(_, _, _, _, _, _)
MultiV(vals, meta, msg, i, left, seen) ==
  IF i > Len(meta[5]) THEN "F"
  ELSE LET g == meta[5][i] IN
    IF g.kind \notin {"ok", "flip"} THEN "E"
    ELSE IF g.kind = "ok" /\ SigOver(g, meta, msg) /\ g.k \in vals /\ g.k \notin seen
         THEN IF left = 1 THEN "T" ELSE MultiV(vals, meta, msg, i + 1, left - 1, seen \cup {g.k})
         ELSE MultiV(vals, meta, msg, i + 1, left, seen)

RECURSIVE Verify(_, _, _, _, _), AggV(_, _, _, _, _, _, _)
Verify(st, a, meta, msg, dp) ==
  IF dp > MaxDepth \/ ~IsC(st, a) THEN "E"
  ELSE LET c == st.k[a] IN
    CASE c.kind = "mock" ->
           (CASE c.vmode = "yes" -> "T"
             [] c.vmode = "no" -> "F"
             [] c.vmode = "genuine" -> IF msg \in st.sent THEN "T" ELSE "F"
             [] c.vmode = "acc" -> IF \E i \in DOMAIN c.acc : Eq(c.acc[i], <<meta, msg>>) THEN "T" ELSE "F"
             [] OTHER -> "E")
      [] c.kind = "ipaus" -> IF c.paused THEN "E" ELSE "T"
      [] c.kind = "imulti" ->
           IF Short(msg) \/ meta[1] # "ms" THEN "E"
           ELSE IF msg.o \notin DOMAIN c.set THEN "E"
           ELSE MultiV(ToSet(c.set[msg.o][2]), meta, msg, 1, c.set[msg.o][1], {})
      [] c.kind = "iroute" ->
           IF Short(msg) THEN "E"
           ELSE IF msg.o \notin DOMAIN c.mods THEN "E"
           ELSE Verify(st, c.mods[msg.o], meta, msg, dp + 1)
      [] c.kind = "iagg" ->
           IF meta[1] # "agg" THEN "E"
           ELSE LET n == Len(c.isms) IN
             IF Len(meta[2]) < n THEN "E"
             ELSE IF \E i \in 1..n : meta[2][i][1] = "oob" THEN "E"
             ELSE LET ord == SetToSortSeq(ToSet(c.isms), LAMBDA x, y : st.ra[x] < st.ra[y])
                      sl(x) == meta[2][CHOOSE i \in 1..n : c.isms[i] = x /\ \A j \in (i + 1)..n : c.isms[j] # x]
                  IN AggV(st, ord, [i \in DOMAIN ord |-> sl(ord[i])], 1, c.t, msg, dp)
      [] OTHER -> "E"
AggV(st, ord, sl, i, left, msg, dp) ==
  IF i > Len(ord) THEN "F"
  ELSE LET v == Verify(st, ord[i], sl[i], msg, dp + 1)
       IN CASE v = "E" -> "E"
            [] v = "T" /\ left = 1 -> "T"
            [] v = "T" -> AggV(st, ord, sl, i + 1, left - 1, msg, dp)
            [] OTHER -> AggV(st, ord, sl, i + 1, left, msg, dp)

(* <<threshold, names>> or <<>> *)
RECURSIVE VInfo(_, _, _, _)
VInfo(st, a, msg, dp) ==
  IF dp > MaxDepth \/ ~IsC(st, a) THEN <<>>
  ELSE LET c == st.k[a] IN
    CASE c.kind = "mock" -> IF c.vmode = "err" THEN <<>> ELSE c.vi
      [] c.kind = "iagg" -> IF \A i \in DOMAIN c.isms : Valid(c.isms[i]) THEN <<c.t, c.isms>> ELSE <<>>
      [] c.kind = "imulti" -> IF Short(msg) \/ msg.o \notin DOMAIN c.set THEN <<>> ELSE c.set[msg.o]
      [] c.kind = "iroute" -> IF Short(msg) \/ msg.o \notin DOMAIN c.mods THEN <<>>
                              ELSE VInfo(st, c.mods[msg.o], msg, dp + 1)
      [] OTHER -> <<>>

(* the ISM a recipient names: <<>> cannot be asked, <<"">> none, <<x>> x *)
IsmOf(st, r) ==
  CASE Kind(st, r) = "mock" -> IF st.k[r].imode = "err" THEN <<>>
                               ELSE IF Len(st.k[r].ism) = 0 THEN <<"">> ELSE st.k[r].ism
    [] Kind(st, r) \in {"wnat", "wcw"} -> <<st.k[r].cism>>
    [] OTHER -> <<>>

(* ------------------------------------------------------ administration  *)
ByOwner(st, s, a, c2) == IF s = st.k[a].owner THEN Answer(SetK(st, a, c2)) ELSE Fail

OwnMsgs == {"InitOwn", "RevokeOwn", "ClaimOwn"}
ExecOwn(st, s, a, m) ==
  LET c == st.k[a] IN
  CASE m.k = "InitOwn" -> IF Valid(m.to) /\ c.pend = "" THEN ByOwner(st, s, a, [c EXCEPT !.pend = m.to]) ELSE Fail
    [] m.k = "RevokeOwn" -> IF c.pend # "" THEN ByOwner(st, s, a, [c EXCEPT !.pend = ""]) ELSE Fail
    [] m.k = "ClaimOwn" -> IF c.pend # "" /\ s = c.pend
                           THEN Answer(SetK(st, a, [c EXCEPT !.owner = s, !.pend = ""])) ELSE Fail

RouteMsgs == {"SetRoute", "SetRoutes"}
ExecRoute(st, s, a, m) ==
  LET c == st.k[a] IN
  IF m.k = "SetRoute" THEN ByOwner(st, s, a, [c EXCEPT !.rt = FPut(@, m.d, m.r)])
  ELSE ByOwner(st, s, a, [c EXCEPT !.rt = FoldPut(@, m.set, 1)])

ConnMsgs == {"SetMailbox", "SetHook", "SetIsm"}
ExecConn(st, s, a, m) ==
  LET c == st.k[a] IN
  IF ~Valid(m.x) THEN Fail
  ELSE ByOwner(st, s, a, CASE m.k = "SetMailbox" -> [c EXCEPT !.cmb = m.x]
                           [] m.k = "SetHook" -> [c EXCEPT !.chook = m.x]
                           [] m.k = "SetIsm" -> [c EXCEPT !.cism = m.x])

ExecPause(st, s, a, m) ==
  LET c == st.k[a] IN
  CASE m.k = "Pause" -> IF ~c.paused THEN ByOwner(st, s, a, [c EXCEPT !.paused = TRUE]) ELSE Fail
    [] m.k = "Release" -> IF c.paused THEN ByOwner(st, s, a, [c EXCEPT !.paused = FALSE]) ELSE Fail
    [] OTHER -> Fail

(* ------------------------------------------------------------- mailbox  *)
MsgOf(c, s, m) == [v |-> 3, n |-> c.nonce, o |-> c.dom, s |-> s, d |-> m.d, r |-> m.r[2], b |-> m.b]
MetaOf(m) == IF Len(m.meta) = 0 THEN <<"raw", "">> ELSE m.meta[1]
PD(meta, msg) == [k |-> "PostDispatch", meta |-> meta, msg |-> msg]
Pred32(n) == IF n = -2147483647 - 1 THEN 2147483647 ELSE n - 1
Succ32(n) == IF n = 2147483647 THEN -2147483647 - 1 ELSE n + 1

Dispatch(st, s, a, m, f) ==
  LET c == st.k[a] IN
  IF m.r[1] # 32 \/ c.dhook = "" \/ c.rhook = "" \/ c.nonce = -1 THEN Fail
  ELSE IF Len(m.hook) = 1 /\ ~Valid(m.hook[1]) THEN Fail
  ELSE LET msg == MsgOf(c, s, m)
           meta == MetaOf(m)
           hook == IF Len(m.hook) = 1 THEN m.hook[1] ELSE c.dhook
           q == Quote(st, c.rhook, meta, msg, 1)
       IN IF ~q.ok THEN Fail
          ELSE IF ~CLe(q.c, f) THEN Fail
          ELSE [ok |-> TRUE,
                st |-> [SetK(st, a, [c EXCEPT !.nonce = Succ32(@), !.latest = <<msg>>])
                          EXCEPT !.sent = @ \cup {msg}],
                ev |-> << <<"dispid", a, msg>>, <<"disp", a, msg.s, msg.d, msg.r, msg>> >>,
                data |-> <<msg>>,
                subs |-> << SubX(c.rhook, PD(meta, msg), q.c),
                            SubX(hook, PD(meta, msg), CSub(f, q.c)) >>]

Process(st, s, a, m) ==
  LET c == st.k[a]
      msg == m.msg IN
  IF Short(msg) THEN Fail
  ELSE IF msg.v # 3 \/ msg.d # c.dom \/ c.dism = "" THEN Fail
  ELSE LET im == IsmOf(st, msg.r) IN
    IF Len(im) = 0 \/ msg \in c.dl THEN Fail
    ELSE LET ism == IF im[1] = "" THEN c.dism ELSE im[1] IN
      IF Verify(st, ism, m.meta, msg, 1) # "T" THEN Fail
      ELSE [ok |-> TRUE,
            st |-> SetK(st, a, [c EXCEPT !.dl = @ \cup {msg}]),
            ev |-> << <<"procid", a, msg>>, <<"proc", a, msg.o, msg.s, msg.r>> >>,
            data |-> <<>>,
            subs |-> << SubX(msg.r, [k |-> "Handle", o |-> msg.o, s |-> <<32, msg.s>>, b |-> msg.b], NoCoins) >>]

ExecMailbox(st, s, a, m, f) ==
  LET c == st.k[a] IN
  CASE m.k = "SetDefaultIsm" -> IF Valid(m.x) THEN ByOwner(st, s, a, [c EXCEPT !.dism = m.x]) ELSE Fail
    [] m.k = "SetDefaultHook" -> IF Valid(m.x) THEN ByOwner(st, s, a, [c EXCEPT !.dhook = m.x]) ELSE Fail
    [] m.k = "SetRequiredHook" -> IF Valid(m.x) THEN ByOwner(st, s, a, [c EXCEPT !.rhook = m.x]) ELSE Fail
    [] m.k = "Dispatch" -> Dispatch(st, s, a, m, f)
    [] m.k = "Process" -> Process(st, s, a, m)
    [] OTHER -> Fail

(* ---------------------------------------------------------------- hooks *)
RECURSIVE AggSubs(_, _, _, _, _)
(* <<subs>> or <<>> when some hook does not quote *)
AggSubs(st, hs, i, meta, msg) ==
  IF i > Len(hs) THEN << <<>> >>
  ELSE LET q == Quote(st, hs[i], meta, msg, 1) IN
    IF ~q.ok THEN <<>>
    ELSE LET r == AggSubs(st, hs, i + 1, meta, msg)
         IN IF Len(r) = 0 THEN <<>> ELSE << <<SubX(hs[i], PD(meta, msg), q.c)>> \o r[1] >>

ExecHagg(st, s, a, m, f) ==
  LET c == st.k[a] IN
  CASE m.k = "SetHooks" -> IF \A i \in DOMAIN m.hooks : Valid(m.hooks[i])
                           THEN ByOwner(st, s, a, [c EXCEPT !.hooks = m.hooks]) ELSE Fail
    [] m.k = "PostDispatch" ->
         IF Short(m.msg) THEN Fail
         ELSE LET r == AggSubs(st, c.hooks, 1, m.meta, m.msg)
              IN IF Len(r) = 0 THEN Fail ELSE [Answer(st) EXCEPT !.subs = r[1]]
    [] OTHER -> Fail

(* exactly one coin, of denom d, or nothing at all: the amount as <<x>>, <<>> refused *)
Paid(f, d, zerook) == IF CEmpty(f) THEN (IF zerook THEN << <<>> >> ELSE <<>>)
                      ELSE IF DOMAIN f = {d} THEN <<f[d]>> ELSE <<>>

ExecFee(st, s, a, m, f) ==
  LET c == st.k[a] IN
  CASE m.k = "SetFee" -> ByOwner(st, s, a, [c EXCEPT !.fee = m.fee])
    [] m.k = "FeeClaim" ->
         IF s # c.owner THEN Fail
         ELSE [Answer(st) EXCEPT !.subs = <<SubSend(IF Len(m.to) = 1 THEN m.to[1] ELSE c.owner, Bal(st, a))>>]
    [] m.k = "PostDispatch" ->
         LET p == Paid(f, c.fee[1], BIsZero(c.fee[2]))
         IN IF Len(p) = 0 THEN Fail ELSE IF BLt(p[1], c.fee[2]) THEN Fail ELSE Answer(st)
    [] OTHER -> Fail

ExecMerkle(st, s, a, m) ==
  LET c == st.k[a] IN
  IF m.k # "PostDispatch" THEN Fail
  ELSE IF Kind(st, c.mb) # "mailbox" \/ Short(m.msg) THEN Fail
  ELSE IF st.k[c.mb].latest # <<m.msg>> \/ c.n = -1 THEN Fail
  ELSE [Answer(SetK(st, a, [c EXCEPT !.n = Succ32(@), !.leaves = Append(@, m.msg)])) EXCEPT
          !.ev = << <<"mk", a, m.msg, c.n>>, <<"mkins", a, c.n>> >>]

ExecHpaus(st, s, a, m) ==
  IF m.k = "PostDispatch" THEN (IF st.k[a].paused THEN Fail ELSE Answer(st)) ELSE ExecPause(st, s, a, m)

RECURSIVE CustPut(_, _, _), CustDel(_, _, _)
CustPut(f, rs, i) == IF i > Len(rs) THEN f ELSE CustPut(FPut(f, <<rs[i][1], rs[i][2][2]>>, rs[i][3]), rs, i + 1)
CustDel(f, rs, i) == IF i > Len(rs) THEN f
                     ELSE CustDel(IF rs[i][2][1] = 32 THEN FDel(f, <<rs[i][1], rs[i][2][2]>>) ELSE f, rs, i + 1)

ExecRouting(st, s, a, m, f) ==
  LET c == st.k[a] IN
  CASE m.k = "PostDispatch" ->
         LET h == HookOf(c, m.msg)
         IN IF h = "" THEN Fail ELSE [Answer(st) EXCEPT !.subs = <<SubX(h, m, f)>>]
    [] m.k = "Register" /\ c.kind = "hcustom" ->
         IF \A i \in DOMAIN m.regs : m.regs[i][2][1] = 32 /\ Valid(m.regs[i][3])
         THEN ByOwner(st, s, a, [c EXCEPT !.cust = CustPut(@, m.regs, 1)]) ELSE Fail
    [] m.k = "Clear" /\ c.kind = "hcustom" -> ByOwner(st, s, a, [c EXCEPT !.cust = CustDel(@, m.regs, 1)])
    [] m.k = "SetFallback" /\ c.kind = "hfall" ->
         IF Valid(m.x) THEN ByOwner(st, s, a, [c EXCEPT !.fb = m.x]) ELSE Fail
    [] OTHER -> Fail

(* -------------------------------------------------------- gas paymaster *)
PayGas(st, s, a, id, d, g, to, f) ==
  LET c == st.k[a]
      n == GasNeeded(st, a, d, g, 0)
  IN IF Len(n) = 0 THEN Fail
     ELSE LET p == Paid(f, c.tok, BIsZero(n[1])) IN
       IF Len(p) = 0 THEN Fail
       ELSE IF BLt(p[1], n[1]) THEN Fail
       ELSE LET gap == BSub(p[1], n[1]) IN
         [Answer(st) EXCEPT
            !.ev = << <<"gas", a, s, d, id, g, gap, n[1], p[1]>> >>,
            !.subs = IF BIsZero(gap) THEN <<>> ELSE <<SubSend(to, COne(c.tok, gap))>>]

ExecIgp(st, s, a, m, f) ==
  LET c == st.k[a] IN
  CASE m.k = "PostDispatch" -> IF Short(m.msg) THEN Fail
                               ELSE PayGas(st, s, a, m.msg, m.msg.d, MetaGas(c, m.meta, m.msg), MetaRefund(m.meta, m.msg), f)
    [] m.k = "PayForGas" -> PayGas(st, s, a, m.id, m.d, m.g, m.to, f)
    [] m.k = "SetDefaultGas" -> ByOwner(st, s, a, [c EXCEPT !.dgas = m.g])
    [] m.k = "SetGas" -> ByOwner(st, s, a, [c EXCEPT !.gas = FoldPut(@, m.cfg, 1)])
    [] m.k = "UnsetGas" -> ByOwner(st, s, a, [c EXCEPT !.gas = FoldDel(@, m.ds, 1)])
    [] m.k = "SetBenef" -> IF Valid(m.x) THEN ByOwner(st, s, a, [c EXCEPT !.benef = m.x]) ELSE Fail
    [] m.k = "Claim" -> IF s # c.benef THEN Fail
                        ELSE [Answer(st) EXCEPT !.subs = <<SubSend(c.benef, COne(c.tok, CGet(Bal(st, a), c.tok)))>>]
    [] OTHER -> Fail

ExecOracle(st, s, a, m) ==
  LET c == st.k[a]
      put(cfg) == FoldPut(c.data, [i \in DOMAIN cfg |-> <<cfg[i][1], <<cfg[i][2], cfg[i][3]>> >>], 1) IN
  CASE m.k = "SetGasDatas" -> IF \A i \in DOMAIN m.cfg : ~BIsZero(m.cfg[i][2])
                              THEN ByOwner(st, s, a, [c EXCEPT !.data = put(m.cfg)]) ELSE Fail
    [] m.k = "SetGasData" -> IF ~BIsZero(m.c[2]) THEN ByOwner(st, s, a, [c EXCEPT !.data = put(<<m.c>>)]) ELSE Fail
    [] OTHER -> Fail

(* ----------------------------------------------------------------- isms *)
ExecIagg(st, s, a, m) ==
  LET c == st.k[a] IN
  IF m.k = "SetIsms" /\ m.t >= 1 /\ Len(m.isms) >= m.t /\ \A i \in DOMAIN m.isms : Valid(m.isms[i])
  THEN ByOwner(st, s, a, [c EXCEPT !.isms = m.isms, !.t = m.t]) ELSE Fail

ExecImulti(st, s, a, m) ==
  LET c == st.k[a] IN
  CASE m.k = "SetVals" ->
         IF (\A i \in DOMAIN m.vals : m.vals[i][1] = 20) /\ m.t >= 1 /\ Len(m.vals) >= m.t
         THEN ByOwner(st, s, a, [c EXCEPT !.set = FPut(@, m.d, <<m.t, [i \in DOMAIN m.vals |-> m.vals[i][2]]>>)])
         ELSE Fail
    [] m.k = "UnsetDomain" -> ByOwner(st, s, a, [c EXCEPT !.set = FDel(@, m.d)])
    [] OTHER -> Fail

ExecIroute(st, s, a, m) ==
  LET c == st.k[a] IN
  CASE m.k = "SetIsmRoute" -> IF Valid(m.x) THEN ByOwner(st, s, a, [c EXCEPT !.mods = FPut(@, m.d, m.x)]) ELSE Fail
    [] m.k = "UnsetIsmRoute" -> ByOwner(st, s, a, [c EXCEPT !.mods = FoldDel(@, m.ds, 1)])
    [] OTHER -> Fail

(* --------------------------------------------------- validator announce *)
ExecVa(st, s, a, m) ==
  LET c == st.k[a] IN
  IF m.k # "Announce" THEN Fail
  ELSE IF m.v[1] # 20 \/ <<m.v[2], m.loc>> \in c.rp THEN Fail
  ELSE IF /\ m.sig.kind \in {"ok", "long"} /\ m.sig.key = m.v[2] /\ m.sig.dom = c.dom
          /\ m.sig.mb = c.mb /\ m.sig.loc = m.loc
       THEN Answer(SetK(st, a, [c EXCEPT !.rp = @ \cup {<<m.v[2], m.loc>>},
                                         !.locs = FPut(@, m.v[2], Append(FGet(@, m.v[2], <<>>), m.loc))]))
       ELSE Fail

(* ---------------------------------------------------------- warp routes *)
WarpHandle(st, s, a, m) ==
  LET c == st.k[a]
      r == RtGet(c, m.o) IN
  IF s # c.mb \/ Len(r) = 0 THEN Fail
  ELSE IF r[1] # m.s \/ m.b[1] # "tm" THEN Fail
  ELSE IF ~Fits128(m.b[3]) THEN Fail
  ELSE LET to == m.b[2]
           amt == m.b[3] IN
    IF c.kind = "wnat"
    THEN [Answer(st) EXCEPT !.subs =
            (IF c.mode = "bridged" THEN << [t |-> "mint", f |-> COne(c.tok, amt)] >> ELSE <<>>)
              \o <<SubSend(to, COne(c.tok, amt))>>]
    ELSE [Answer(st) EXCEPT !.subs =
            << SubX(c.tok, [k |-> IF c.mode = "bridged" THEN "Mint" ELSE "Xfer", to |-> to, amt |-> amt], NoCoins) >>]

WarpSend(st, s, a, m, f) ==
  LET c == st.k[a]
      r == RtGet(c, m.d) IN
  IF m.r[1] # 32 \/ Len(r) = 0 THEN Fail
  ELSE IF Len(m.hook) = 1 /\ ~Valid(m.hook[1]) THEN Fail
  ELSE IF c.kind = "wnat" /\ (c.tok \notin DOMAIN f \/ BLt(CGet(f, c.tok), m.amt)) THEN Fail
  ELSE LET disp == [k |-> "Dispatch", d |-> m.d, r |-> r[1], b |-> <<"tm", m.r[2], m.amt, "">>,
                    hook |-> IF Len(m.hook) = 1 THEN m.hook ELSE IF c.chook = "" THEN <<>> ELSE <<c.chook>>,
                    meta |-> m.meta]
           br == c.mode = "bridged"
       IN IF c.kind = "wnat"
          THEN [Answer(st) EXCEPT !.subs =
                  (IF br THEN << [t |-> "burn", f |-> COne(c.tok, m.amt)] >> ELSE <<>>)
                    \o << SubX(c.mb, disp, CSub(f, COne(c.tok, m.amt))) >>]
          ELSE [Answer(st) EXCEPT !.subs =
                  << SubX(c.tok, [k |-> "XferFrom", from |-> s, to |-> a, amt |-> m.amt], NoCoins) >>
                    \o (IF br THEN << SubX(c.tok, [k |-> "Burn", amt |-> m.amt], NoCoins) >> ELSE <<>>)
                    \o << SubX(c.mb, disp, f) >>]

ExecWarp(st, s, a, m, f) ==
  CASE m.k = "Handle" -> WarpHandle(st, s, a, m)
    [] m.k = "TransferRemote" -> WarpSend(st, s, a, m, f)
    [] OTHER -> Fail

(* the cw20 token (cw20-base) behind a cw20 route *)
TBal(c, x) == FGet(c.bal, x, <<>>)
TSet(c, x, v) == [c EXCEPT !.bal = IF BIsZero(v) THEN FDel(@, x) ELSE FPut(@, x, v)]
TMove(c, x, y, v) == LET c1 == TSet(c, x, BSub(TBal(c, x), v)) IN TSet(c1, y, BAdd(TBal(c1, y), v))
ExecCw20(st, s, a, m) ==
  LET c == st.k[a] IN
  CASE m.k = "Xfer" -> IF Valid(m.to) /\ BLe(m.amt, TBal(c, s)) THEN Answer(SetK(st, a, TMove(c, s, m.to, m.amt))) ELSE Fail
    [] m.k = "XferFrom" ->
         LET p == <<m.from, s>> IN
         IF Valid(m.to) /\ Valid(m.from) /\ p \in DOMAIN c.al /\ BLe(m.amt, FGet(c.al, p, <<>>)) /\ BLe(m.amt, TBal(c, m.from))
         THEN Answer(SetK(st, a, [TMove(c, m.from, m.to, m.amt) EXCEPT !.al = FPut(@, p, BSub(@[p], m.amt))])) ELSE Fail
    [] m.k = "Burn" -> IF BLe(m.amt, TBal(c, s))
                       THEN Answer(SetK(st, a, [TSet(c, s, BSub(TBal(c, s), m.amt)) EXCEPT !.sup = BSub(@, m.amt)])) ELSE Fail
    [] m.k = "Mint" -> IF s = c.minter /\ Valid(m.to) /\ Fits128(BAdd(c.sup, m.amt))
                       THEN Answer(SetK(st, a, [TSet(c, m.to, BAdd(TBal(c, m.to), m.amt)) EXCEPT !.sup = BAdd(@, m.amt)])) ELSE Fail
    [] m.k = "IncAllow" -> LET p == <<s, m.sp>> n == BAdd(FGet(c.al, <<s, m.sp>>, <<>>), m.amt) IN
                           IF Valid(m.sp) /\ m.sp # s /\ Fits128(n) THEN Answer(SetK(st, a, [c EXCEPT !.al = FPut(@, p, n)])) ELSE Fail
    [] OTHER -> Fail

(* ---------------------------------------- mock hook / ism / recipient   *)
MockSubs(c) == [i \in DOMAIN c.subs |-> [SubX(c.subs[i].a, c.subs[i].m, CM(c.subs[i].f)) EXCEPT !.try = c.subs[i].try]]
ExecMock(st, s, a, m, f) ==
  LET c == st.k[a]
      st2 == SetK(st, a, [c EXCEPT !.subs = <<>>]) IN
  CASE m.k = "PostDispatch" ->
         LET q == Quote(st, a, m.meta, m.msg, 0) IN
         IF c.hmode = "fail" THEN Fail
         ELSE IF c.hmode = "strict" /\ (IF q.ok THEN ~Eq(CSeq(st, q.c), CSeq(st, f)) ELSE TRUE) THEN Fail
         ELSE [Answer(st2) EXCEPT !.ev = << <<"hook", a, s, m.meta, m.msg, CSeq(st, f)>> >>, !.subs = MockSubs(c)]
    [] m.k = "Handle" ->
         IF c.rmode = "fail" THEN Fail
         ELSE [Answer(st2) EXCEPT !.ev = << <<"handle", a, s, m.o, m.s, m.b, CSeq(st, f)>> >>, !.subs = MockSubs(c)]
    [] OTHER -> Fail

(* ------------------------------------------------- execution, big-step  *)
Step(st, s, a, m, f) ==
  LET kd == st.k[a].kind IN
  IF m.k \in OwnMsgs THEN (IF kd \in Owned THEN ExecOwn(st, s, a, m) ELSE Fail)
  ELSE IF m.k \in RouteMsgs THEN (IF kd \in Routers THEN ExecRoute(st, s, a, m) ELSE Fail)
  ELSE IF m.k \in ConnMsgs THEN (IF kd \in {"wnat", "wcw"} THEN ExecConn(st, s, a, m) ELSE Fail)
  ELSE CASE kd = "mailbox" -> ExecMailbox(st, s, a, m, f)
         [] kd = "hagg" -> ExecHagg(st, s, a, m, f)
         [] kd = "fee" -> ExecFee(st, s, a, m, f)
         [] kd = "merkle" -> ExecMerkle(st, s, a, m)
         [] kd = "hpaus" -> ExecHpaus(st, s, a, m)
         [] kd \in {"hroute", "hcustom", "hfall"} -> ExecRouting(st, s, a, m, f)
         [] kd = "igp" -> ExecIgp(st, s, a, m, f)
         [] kd = "oracle" -> ExecOracle(st, s, a, m)
         [] kd = "iagg" -> ExecIagg(st, s, a, m)
         [] kd = "imulti" -> ExecImulti(st, s, a, m)
         [] kd = "ipaus" -> ExecPause(st, s, a, m)
         [] kd = "iroute" -> ExecIroute(st, s, a, m)
         [] kd = "va" -> ExecVa(st, s, a, m)
         [] kd \in {"wnat", "wcw"} -> ExecWarp(st, s, a, m, f)
         [] kd = "cw20" -> ExecCw20(st, s, a, m)
         [] kd = "mock" -> ExecMock(st, s, a, m, f)
         [] OTHER -> Fail

RECURSIVE Exec(_, _, _, _, _, _), RunSubs(_, _, _, _, _, _)
Exec(st, s, a, m, f, dp) ==
  IF dp > MaxDepth \/ ~IsC(st, a) THEN Fail
  ELSE LET mv == Move(st, s, a, f) IN
    IF ~mv.ok THEN Fail
    ELSE LET r == Step(mv.st, s, a, m, f) IN
      IF ~r.ok THEN Fail
      ELSE LET q == RunSubs(r.st, a, r.subs, 1, r.ev, dp) IN
        IF ~q.ok THEN Fail
        ELSE [ok |-> TRUE, st |-> q.st, ev |-> q.ev, data |-> r.data]
RunSubs(st, a, subs, i, ev, dp) ==
  IF i > Len(subs) THEN [ok |-> TRUE, st |-> st, ev |-> ev]
  ELSE LET u == subs[i] IN
    IF u.t = "x"
    THEN LET r == Exec(st, a, u.a, u.m, u.f, dp + 1) IN
         IF r.ok THEN RunSubs(r.st, a, subs, i + 1, ev \o r.ev \o (IF u.try THEN << <<"sub", a, TRUE>> >> ELSE <<>>), dp)
         ELSE IF u.try THEN RunSubs(st, a, subs, i + 1, Append(ev, <<"sub", a, FALSE>>), dp)
         ELSE Fail
    ELSE LET r == CASE u.t = "send" -> Send(st, a, u.to, u.f)
                    [] u.t = "mint" -> MintTo(st, a, u.f)
                    [] u.t = "burn" -> BurnFrom(st, a, u.f)
         IN IF r.ok THEN RunSubs(r.st, a, subs, i + 1, ev, dp) ELSE Fail

(* -------------------------------------------------------- instantiation *)
Base(st, kd) == [kind |-> kd, cn |-> kd, cvs |-> st.ver[1], cv |-> st.ver[2]]
OwnBase(st, kd, o) == Base(st, kd) @@ [owner |-> o, pend |-> ""]
E0 == [x \in {} |-> x]
MockOf(cfg) == [kind |-> "mock"] @@ cfg

(* <<contract record>> or <<>>, of contract a *)
(* optional parts of an instantiation: the address prefix (absent: the chain's
   own, "~"), the metadata of a bridged native token, and what a bridged cw20 is
   initialised with.  A prefix is refused by mailbox and paymaster unless every
   character of it is a lowercase letter.                                     *)
GoodHrps == {"~", "", "foo", "barbaz", "q"}
HrpOf(m) == IF "hrp" \in DOMAIN m THEN m.hrp ELSE "~"
NoInit == [name |-> "Token", sym |-> "TOKEN", dec |-> 6, bals |-> <<>>, mint |-> <<>>]
InitOf(m) == IF "init" \in DOMAIN m THEN m.init ELSE NoInit
GoodSyms == {"TOKEN", "tok", "a-b-c", "Abcdefghijkl"}
Supply(bals) == FoldLeft(LAMBDA x, y : BAdd(x, y[2]), <<>>, bals)
Cw20Ok(i) == /\ Len(i.name) \in 3..50 /\ i.sym \in GoodSyms /\ i.dec <= 18
             /\ \A j \in DOMAIN i.bals : Valid(i.bals[j][1]) /\ \A l \in DOMAIN i.bals : l # j => i.bals[l][1] # i.bals[j][1]
             /\ Fits128(Supply(i.bals))
Cw20Rec(minter, i) == [kind |-> "cw20", minter |-> minter, bal |-> FoldPut(E0, i.bals, 1), al |-> E0, sup |-> Supply(i.bals),
                       info |-> <<i.name, i.sym, i.dec>>]
MetaOk(a, m) == "dm" \notin DOMAIN m \/ m.dm.base = "F/" \o a \o "/" \o m.denom
DMeta(a, m) == IF m.kind = "wnat" /\ m.mode = "bridged" /\ "dm" \in DOMAIN m
               THEN << <<"dmeta", a, m.dm.desc, m.dm.units, m.dm.base, m.dm.display, m.dm.name, m.dm.sym>> >> ELSE <<>>
InstRec(st, a, m) ==
  LET kd == m.kind IN
  IF kd \in Owned /\ ~Valid(m.owner) THEN <<>>
  ELSE IF kd \in {"mailbox", "igp"} /\ HrpOf(m) \notin GoodHrps THEN <<>>
  ELSE CASE kd = "mailbox" -> <<OwnBase(st, kd, m.owner) @@ [hrp |-> HrpOf(m), dom |-> m.dom, dism |-> "", dhook |-> "", rhook |-> "",
                                 nonce |-> 0, latest |-> <<>>, dl |-> {}]>>
    [] kd = "va" -> IF Valid(m.mb) /\ Kind(st, m.mb) = "mailbox"
                    THEN <<Base(st, kd) @@ [mb |-> m.mb, dom |-> st.k[m.mb].dom, rp |-> {}, locs |-> E0]>> ELSE <<>>
    [] kd = "hagg" -> IF \A i \in DOMAIN m.hooks : Valid(m.hooks[i])
                      THEN <<OwnBase(st, kd, m.owner) @@ [hooks |-> m.hooks]>> ELSE <<>>
    [] kd = "fee" -> <<OwnBase(st, kd, m.owner) @@ [fee |-> m.fee]>>
    [] kd = "merkle" -> IF Valid(m.mb) THEN <<Base(st, kd) @@ [mb |-> m.mb, n |-> 0, leaves |-> <<>>]>> ELSE <<>>
    [] kd \in {"hpaus", "ipaus"} -> <<OwnBase(st, kd, m.owner) @@ [paused |-> m.paused]>>
    [] kd = "hroute" -> <<OwnBase(st, kd, m.owner) @@ [rt |-> E0]>>
    [] kd = "hcustom" -> <<OwnBase(st, kd, m.owner) @@ [rt |-> E0, cust |-> E0]>>
    [] kd = "hfall" -> <<OwnBase(st, kd, m.owner) @@ [rt |-> E0, fb |-> ""]>>
    [] kd = "igp" -> IF Valid(m.benef)
                     THEN <<OwnBase(st, kd, m.owner) @@ [rt |-> E0, benef |-> m.benef, tok |-> m.denom, dgas |-> m.gas, gas |-> E0]>> ELSE <<>>
    [] kd = "oracle" -> <<OwnBase(st, kd, m.owner) @@ [data |-> E0]>>
    [] kd = "iagg" -> IF m.t >= 1 /\ Len(m.isms) >= m.t /\ \A i \in DOMAIN m.isms : Valid(m.isms[i])
                      THEN <<OwnBase(st, kd, m.owner) @@ [isms |-> m.isms, t |-> m.t]>> ELSE <<>>
    [] kd = "imulti" -> <<OwnBase(st, kd, m.owner) @@ [set |-> E0]>>
    [] kd = "iroute" -> IF \A i \in DOMAIN m.isms : Valid(m.isms[i][2])
                        THEN <<OwnBase(st, kd, m.owner) @@ [mods |-> FoldPut(E0, m.isms, 1)]>> ELSE <<>>
    [] kd = "wnat" -> IF ~Valid(m.mb) \/ (m.mode = "bridged" /\ ~MetaOk(a, m)) THEN <<>>
                      ELSE <<OwnBase(st, kd, m.owner) @@ [rt |-> E0, cmb |-> "", chook |-> "", cism |-> "", mb |-> m.mb, mode |-> m.mode,
                               tok |-> IF m.mode = "bridged" THEN "F/" \o a \o "/" \o m.denom ELSE m.denom]>>
    [] kd = "wcw" -> IF ~Valid(m.mb) \/ (m.mode = "collateral" /\ ~Valid(m.tok)) \/ (m.mode = "bridged" /\ ~Cw20Ok(InitOf(m))) THEN <<>>
                     ELSE <<OwnBase(st, kd, m.owner) @@ [rt |-> E0, cmb |-> "", chook |-> "", cism |-> "", mb |-> m.mb, mode |-> m.mode,
                              tok |-> IF m.mode = "bridged" THEN a \o ".tok" ELSE m.tok]>>
    [] kd = "cw20" -> <<Cw20Rec(m.minter, [NoInit EXCEPT !.bals = m.bals])>>
    [] OTHER -> <<>>

Inst(st, a, m) ==
  LET r == InstRec(st, a, m) IN
  IF IsC(st, a) \/ Len(r) = 0 THEN Fail
  ELSE LET st1 == SetK(st, a, r[1])
           st2 == IF m.kind = "wcw" /\ m.mode = "bridged"
                  THEN SetK(st1, a \o ".tok", Cw20Rec(a, InitOf(m)))
                  ELSE st1
       IN [ok |-> TRUE, st |-> st2, ev |-> DMeta(a, m), data |-> <<>>]

(* ------------------------------------------------------------ migration *)
(* a version is <<major, minor, patch, pre>>, pre a sequence of <<rank>> (numeric n is  *)
(* <<0, n>>, alphanumeric identifiers <<1, r>> with r their rank); <<>> does not parse *)
RECURSIVE PreLt(_, _, _)
PreLt(p, q, i) == IF i > Len(q) THEN FALSE
                  ELSE IF i > Len(p) THEN TRUE
                  ELSE IF p[i] = q[i] THEN PreLt(p, q, i + 1)
                  ELSE IF p[i][1] # q[i][1] THEN p[i][1] < q[i][1] ELSE p[i][2] < q[i][2]
VLt(x, y) ==
  IF x[1] # y[1] THEN x[1] < y[1] ELSE IF x[2] # y[2] THEN x[2] < y[2] ELSE IF x[3] # y[3] THEN x[3] < y[3]
  ELSE IF Len(y[4]) = 0 THEN Len(x[4]) > 0
  ELSE IF Len(x[4]) = 0 THEN FALSE ELSE PreLt(x[4], y[4], 1)

Migrate(st, a) ==
  IF Kind(st, a) \notin Migratable THEN Fail
  ELSE LET c == st.k[a] IN
    IF c.cn # c.kind \/ Len(c.cv) = 0 THEN Fail
    ELSE IF ~VLt(c.cv, st.ver[2]) THEN Fail
    ELSE [ok |-> TRUE, st |-> SetK(st, a, [c EXCEPT !.cvs = st.ver[1], !.cv = st.ver[2]]), ev |-> <<>>, data |-> <<>>]

(* ------------------------------------------------- one top-level action *)
Run(st, c) ==
  LET r == CASE c.t = "exec" -> Exec(st, c.s, c.a, c.m, CM(c.f), 0)
             [] c.t = "inst" -> Inst(st, c.a, c.m)
             [] c.t = "migrate" -> Migrate(st, c.a)
             [] c.t = "setver" -> [ok |-> TRUE, ev |-> <<>>, data |-> <<>>,
                                   st |-> SetK(st, c.a, [st.k[c.a] EXCEPT !.cn = c.m.cn, !.cvs = c.m.cvs, !.cv = c.m.cv])]
             \* as after a very long history: so many messages, so many leaves
             [] c.t = "poke" -> [ok |-> TRUE, ev |-> <<>>, data |-> <<>>,
                                 st |-> SetK(st, c.a, IF Kind(st, c.a) = "mailbox" THEN [st.k[c.a] EXCEPT !.nonce = c.m.n]
                                                      ELSE [st.k[c.a] EXCEPT !.n = c.m.n])]
             [] c.t = "mock" -> [ok |-> TRUE, ev |-> <<>>, data |-> <<>>, st |-> SetK(st, c.a, MockOf(c.m))]
             [] c.t = "bank" -> LET r == MintTo(st, c.a, CM(c.f)) IN
                                IF r.ok THEN [ok |-> TRUE, st |-> r.st, ev |-> <<>>, data |-> <<>>] ELSE Fail
  IN IF r.ok THEN r ELSE [ok |-> FALSE, st |-> st, ev |-> <<>>, data |-> <<>>]

(* -------------------------------------------------------------- queries *)
R(x) == <<"ok", x>>
ER == <<"err">>
O(x) == IF Len(x) = 0 THEN ER ELSE R(x[1])
Set1(x) == IF x = "" THEN ER ELSE R(x)
Opt(x) == IF x = "" THEN <<>> ELSE <<x>>
CustLt(st, x, y) == st.rb[x] < st.rb[y]

QueryC(st, q) ==
  LET a == q.a
      c == st.k[a]
      kd == c.kind
      k == q.k IN
  CASE k = "Owner" -> IF kd \in Owned THEN R(c.owner) ELSE ER
    [] k = "Pending" -> IF kd \in Owned THEN R(Opt(c.pend)) ELSE ER
    [] k = "ver" -> IF kd \in Migratable THEN R(<<c.cn, c.cvs>>) ELSE ER
    [] k = "Domains" -> IF kd \in Routers THEN R(Sorted(DOMAIN c.rt)) ELSE ER
    [] k = "GetRoute" -> IF kd \in Routers THEN R(<<q.d, RtGet(c, q.d)>>) ELSE ER
    [] k = "ListRoutes" ->
         IF kd \notin Routers \/ PageErr(q.lim) THEN ER
         ELSE LET p == Page(Sorted(DOMAIN c.rt), q.off, q.lim, q.ord, ULt)
              IN R([i \in DOMAIN p |-> <<p[i], c.rt[p[i]]>>])
    [] k \in {"GetMailbox", "GetHook", "GetIsm"} ->
         IF kd \notin {"wnat", "wcw"} THEN ER
         ELSE R(Opt(CASE k = "GetMailbox" -> c.cmb [] k = "GetHook" -> c.chook [] k = "GetIsm" -> c.cism))
    [] k = "Paused" -> IF kd \in {"hpaus", "ipaus"} THEN R(c.paused) ELSE ER
    \* mailbox
    [] k = "LocalDomain" -> IF kd = "mailbox" THEN R(c.dom) ELSE ER
    [] k = "DefaultIsm" -> IF kd = "mailbox" THEN Set1(c.dism) ELSE ER
    [] k = "DefaultHook" -> IF kd = "mailbox" THEN Set1(c.dhook) ELSE ER
    [] k = "RequiredHook" -> IF kd = "mailbox" THEN Set1(c.rhook) ELSE ER
    [] k = "Delivered" -> IF kd = "mailbox" THEN R(q.id[1] = "m" /\ q.id[2] \in c.dl) ELSE ER
    [] k = "Nonce" -> IF kd = "mailbox" THEN R(c.nonce) ELSE ER
    [] k = "LatestId" -> IF kd = "mailbox" THEN O(c.latest) ELSE ER
    [] k = "RecipientIsm" ->
         IF kd # "mailbox" \/ ~Valid(q.x) THEN ER
         ELSE IF c.dism = "" THEN ER
         ELSE LET im == IsmOf(st, q.x) IN IF Len(im) = 0 THEN ER ELSE R(IF im[1] = "" THEN c.dism ELSE im[1])
    [] k = "MQuote" ->
         IF kd # "mailbox" \/ ~Valid(q.sender) THEN ER
         ELSE IF c.dhook = "" \/ c.rhook = "" THEN ER
         ELSE IF Len(q.hook) = 1 /\ ~Valid(q.hook[1]) THEN ER
         ELSE LET msg == MsgOf(c, q.sender, q)
                  x == QuoteSum(st, << IF Len(q.hook) = 1 THEN q.hook[1] ELSE c.dhook, c.rhook >>, 1, NoCoins, MetaOf(q), msg, 0)
              IN IF x.ok THEN R(CSeq(st, x.c)) ELSE ER
    [] k = "Hrp" -> IF kd = "mailbox" THEN R(c.hrp) ELSE ER
    \* hooks
    [] k = "HMailbox" -> IF kd = "merkle" THEN R(c.mb)
                         ELSE IF kd \in {"hagg", "fee", "hpaus", "hroute", "hcustom", "hfall", "igp"} THEN R("unrestricted") ELSE ER
    [] k = "Quote" -> LET x == Quote(st, a, q.meta, q.msg, 0) IN IF x.ok THEN R(CSeq(st, x.c)) ELSE ER
    [] k = "Fee" -> IF kd = "fee" THEN R(c.fee) ELSE ER
    [] k = "Hooks" -> IF kd = "hagg" THEN R(c.hooks) ELSE ER
    [] k = "Count" -> IF kd = "merkle" THEN R(c.n) ELSE ER
    [] k = "Root" -> IF kd = "merkle" THEN R(<<"R", c.n>>) ELSE ER
    [] k = "Branch" -> IF kd = "merkle" THEN R(<<"T", c.n>>) ELSE ER
    [] k = "Tree" -> IF kd = "merkle" THEN R(<<"T", c.n, c.n>>) ELSE ER
    [] k = "Checkpoint" -> IF kd = "merkle" THEN R(<<"R", c.n, IF c.n = 0 THEN 0 ELSE Pred32(c.n)>>) ELSE ER
    [] k = "CustomHook" -> IF kd = "hcustom" /\ q.r[1] = 32 /\ <<q.d, q.r[2]>> \in DOMAIN c.cust
                           THEN R(c.cust[<<q.d, q.r[2]>>]) ELSE ER
    [] k = "CustomHooks" ->
         IF kd # "hcustom" \/ PageErr(q.lim) THEN ER
         ELSE LET rs == {x[2] : x \in {y \in DOMAIN c.cust : y[1] = q.d}}
                  so == SetToSortSeq(rs, LAMBDA x, y : CustLt(st, x, y))
                  p == Page(so, q.off, q.lim, q.ord, LAMBDA x, y : CustLt(st, x, y))
              IN R([i \in DOMAIN p |-> <<q.d, p[i], c.cust[<<q.d, p[i]>>]>>])
    \* gas paymaster and oracle
    [] k = "DefaultGas" -> IF kd = "igp" THEN R(c.dgas) ELSE ER
    [] k = "GasFor" -> IF kd = "igp" /\ \A i \in DOMAIN q.ds : q.ds[i] \in DOMAIN c.gas
                       THEN R([i \in DOMAIN q.ds |-> <<q.ds[i], c.gas[q.ds[i]]>>]) ELSE ER
    [] k = "ListGas" ->
         IF kd # "igp" \/ PageErr(q.lim) THEN ER
         ELSE LET p == Page(Sorted(DOMAIN c.gas), q.off, q.lim, q.ord, ULt)
              IN R([i \in DOMAIN p |-> <<p[i], c.gas[p[i]]>>])
    [] k = "Benef" -> IF kd = "igp" THEN R(c.benef) ELSE ER
    [] k = "QuoteGas" -> IF kd = "igp" THEN O(GasNeeded(st, a, q.d, q.g, 0)) ELSE ER
    [] k = "Oracle" -> LET x == OracleData(st, a, q.d, 0) IN IF Len(x) = 0 THEN ER ELSE R(x)
    \* isms
    [] k = "ModuleType" -> (CASE kd = "iagg" -> R("aggregation") [] kd = "imulti" -> R("message_id_multisig")
                             [] kd = "ipaus" -> R("null") [] kd = "iroute" -> R("routing") [] OTHER -> ER)
    [] k = "Verify" -> LET v == Verify(st, a, q.meta, q.msg, 0) IN IF v = "E" THEN ER ELSE R(v = "T")
    [] k = "VerifyInfo" -> LET x == VInfo(st, a, q.msg, 0) IN IF Len(x) = 0 THEN ER ELSE R(x)
    [] k = "Isms" -> IF kd = "iagg" THEN R(<<c.t, c.isms>>) ELSE ER
    [] k = "Enrolled" -> IF kd = "imulti" /\ q.d \in DOMAIN c.set THEN R(c.set[q.d]) ELSE ER
    [] k = "Route" -> IF kd # "iroute" \/ Short(q.msg) THEN ER
                      ELSE IF q.msg.o \in DOMAIN c.mods THEN R(c.mods[q.msg.o]) ELSE ER
    \* validator announce
    [] k = "Locs" -> IF kd = "va" THEN R([i \in DOMAIN q.vs |-> <<q.vs[i], FGet(c.locs, q.vs[i][2], <<>>)>>]) ELSE ER
    [] k = "Anns" -> IF kd = "va" THEN R(SetToSortSeq(DOMAIN c.locs, LAMBDA x, y : CustLt(st, x, y))) ELSE ER
    [] k = "VMailbox" -> IF kd = "va" THEN R(c.mb) ELSE ER
    [] k = "VDomain" -> IF kd = "va" THEN R(c.dom) ELSE ER
    \* warp
    [] k = "TokType" -> IF kd = "wnat" THEN R(<<"native", c.tok>>) ELSE IF kd = "wcw" THEN R(<<"cw20", c.tok>>) ELSE ER
    [] k = "TokMode" -> IF kd \in {"wnat", "wcw"} THEN R(c.mode) ELSE ER
    [] k = "Ism" -> LET x == IsmOf(st, a) IN IF Len(x) = 0 THEN ER ELSE R(Opt(x[1]))
    \* cw20
    [] k = "CBal" -> IF kd = "cw20" /\ Valid(q.x) THEN R(TBal(c, q.x)) ELSE ER
    [] k = "CInfo" -> IF kd = "cw20" THEN R(c.info) ELSE ER
    [] k = "CMinter" -> IF kd = "cw20" THEN R(<<c.minter, <<>>>>) ELSE ER
    [] k = "CSupply" -> IF kd = "cw20" THEN R(c.sup) ELSE ER
    [] k = "CAllow" -> IF kd = "cw20" THEN R(FGet(c.al, <<q.o, q.sp>>, <<>>)) ELSE ER
    [] OTHER -> ER

Query(st, q) ==
  CASE q.k = "bal" -> R(CGet(Bal(st, q.a), q.d))
    [] q.k = "allbal" -> R(CSeq(st, Bal(st, q.a)))
    [] OTHER -> IF IsC(st, q.a) THEN QueryC(st, q) ELSE ER
=============================================================================
