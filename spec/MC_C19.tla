------------------------------ MODULE MC_C19 ------------------------------
(* The route table of every kind that has one.                              *)
EXTENDS Kinds
XSetup == World0
RKinds == <<"hroute", "hcustom", "hfall", "igp", "wnat", "wcw">>
Ds == <<0, 6, -1>>
R1(kd, x) == <<Route(kd, x)>>
One(kd, u, d, r) == X(u, "x", [k |-> "SetRoute", d |-> d, r |-> r])
All(kd, u, l) == X(u, "x", [k |-> "SetRoutes", set |-> l])
Many(kd, n) == [j \in 1..n |-> <<IF j % 5 = 0 THEN -j ELSE 40 - j, IF j % 7 = 3 THEN <<>> ELSE R1(kd, IF j % 2 = 0 THEN "h1" ELSE "h2")>>]
XCalls(s) ==
  IF Kind(s, "x") = "" THEN [j \in DOMAIN RKinds |-> Made(RKinds[j], "u1")]
  ELSE LET kd == s.k["x"].kind IN
     FlattenSeq([j \in DOMAIN Ds |-> << One(kd, "u1", Ds[j], R1(kd, "h1")), One(kd, "u1", Ds[j], <<>>) >>])
  \o << One(kd, "u1", 6, R1(kd, "h2")), All(kd, "u1", <<>>), All(kd, "u1", << <<-1, R1(kd, "h2")>>, <<0, <<>> >>, <<6, R1(kd, "h1")>> >>),
        All(kd, "u1", << <<6, R1(kd, "h2")>>, <<6, <<>> >>, <<0, R1(kd, "h1")>>, <<0, R1(kd, "h2")>> >>), One(kd, "u2", 6, R1(kd, "h2")), All(kd, "u2", << <<0, R1(kd, "h1")>> >>),
        All(kd, "u1", Many(kd, 33)) >>
Lims == << <<>>, <<1>>, <<2>>, <<30>>, <<31>>, <<0>>, <<-1>> >>
Ords == << <<>>, <<"asc">>, <<"desc">> >>
Offs == << <<>>, <<0>>, <<6>>, <<-1>>, <<7>> >>
Pages == FlattenSeq([i \in DOMAIN Lims |-> FlattenSeq([j \in DOMAIN Ords |-> [n \in DOMAIN Offs |-> Ls(Offs[n], Lims[i], Ords[j])]])])
XQs(s) == IF Kind(s, "x") = "" THEN <<>>
          ELSE << Q("x", "Domains") >> \o [j \in DOMAIN Ds |-> [a |-> "x", k |-> "GetRoute", d |-> Ds[j]]] \o << [a |-> "x", k |-> "GetRoute", d |-> 7] >> \o Pages
(* the last setting of each domain *)
XG0 == E0
RECURSIVE Put(_, _, _)
Put(f, l, j) == IF j > Len(l) THEN f ELSE Put((l[j][1] :> l[j][2]) @@ f, l, j + 1)
XUpd(gg, s, c, r) == IF ~r.ok \/ c.t # "exec" THEN gg ELSE IF c.m.k = "SetRoute" THEN (c.m.d :> c.m.r) @@ gg ELSE Put(gg, c.m.set, 1)
XStep(gg, s, c, r) == c.t = "exec" => (r.ok <=> c.s = "u1")
At(gg, d) == IF d \in DOMAIN gg THEN gg[d] ELSE <<>>
Ans(s, q) == Query(s, q)[2]
\* walking the pages from an offset
RECURSIVE Walk(_, _, _, _)
Walk(s, off, n, ord) == LET p == Ans(s, Ls(off, <<n>>, ord)) IN IF Len(p) < n THEN p ELSE p \o Walk(s, <<p[Len(p)][1]>>, n, ord)
XState(gg, s) ==
  Kind(s, "x") # "" =>
    /\ \A d \in ToSet(Ds) \cup {7} : Query(s, [a |-> "x", k |-> "GetRoute", d |-> d]) = R(<<d, At(gg, d)>>)
    /\ ToSet(Ans(s, Q("x", "Domains"))) = DOMAIN gg
    /\ LET w == Walk(s, <<>>, 3, <<>>) dsc == Walk(s, <<>>, 7, <<"desc">>) IN
       /\ ToSet(w) = {<<d, gg[d]>> : d \in DOMAIN gg} /\ Len(w) = Cardinality(DOMAIN gg) /\ dsc = Rev(w)
       /\ \A j \in 1..(Len(w) - 1) : ULt(w[j][1], w[j + 1][1])
    /\ Len(Ans(s, Ls(<<>>, <<>>, <<>>))) = Min2(10, Cardinality(DOMAIN gg))
    /\ Query(s, Ls(<<>>, <<31>>, <<>>)) = ER
XTag(gg, s, c) == ""
XLen(d) == IF d THEN 5 ELSE 4
=============================================================================
