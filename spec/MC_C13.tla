------------------------------ MODULE MC_C13 ------------------------------
(* Gas configuration and oracle data answer the last accepted setting.     *)
EXTENDS MC
E10 == <<0, 0, 100>>
Ds == <<6, -7, 0>>
Own(a, x) == X("u1", a, x)
Dat(d, rate, price) == <<d, rate, price>>
Sd(s, a, c) == X(s, a, [k |-> "SetGasData", c |-> c])
Sds(a, cs) == Own(a, [k |-> "SetGasDatas", cfg |-> cs])
Gas(s, cfg) == X(s, "ig", [k |-> "SetGas", cfg |-> cfg])
Rt(d, r) == Own("ig", [k |-> "SetRoute", d |-> d, r |-> r])
Many(n) == [j \in 1..n |-> <<j * 3, <<j>> >>]
XSetup == << InstC("or", "oracle", [owner |-> "u1"]), InstC("or2", "oracle", [owner |-> "u1"]),
             InstC("ig", "igp", [owner |-> "u1", denom |-> "uosmo", gas |-> <<7>>, benef |-> "u3"]) >>
XCalls(s) ==
  << Gas("u1", << <<6, <<2>> >> >>), Gas("u1", << <<-7, <<3>> >>, <<6, <<>> >> >>), Gas("u1", << <<0, <<4>> >>, <<0, <<5>> >> >>), Gas("u2", << <<6, <<9>> >> >>), Gas("u1", Many(12)),
     Own("ig", [k |-> "UnsetGas", ds |-> <<6>>]), Own("ig", [k |-> "UnsetGas", ds |-> <<0, -7>>]), X("u2", "ig", [k |-> "UnsetGas", ds |-> <<6>>]),
     Own("ig", [k |-> "SetDefaultGas", g |-> <<1>>]), X("u2", "ig", [k |-> "SetDefaultGas", g |-> <<8>>]),
     Sd("u1", "or", Dat(6, E10, <<2>>)), Sd("u1", "or", Dat(6, <<5>>, <<>>)), Sd("u1", "or", Dat(6, <<>>, <<2>>)), Sd("u2", "or", Dat(6, E10, <<9>>)),
     Sds("or", << Dat(-7, E10, <<3>>), Dat(6, E10, <<4>>) >>), Sds("or", << Dat(-7, E10, <<5>>), Dat(0, <<>>, <<1>>) >>), Sds("or", << Dat(0, E10, <<6>>), Dat(0, E10, <<7>>) >>),
     Sd("u1", "or2", Dat(6, E10, <<11>>)), Rt(6, <<"or">>), Rt(6, <<"or2">>), Rt(-7, <<"or">>), Rt(6, <<>>) >>
M(d) == MsgR(3, 0, 5, "z1", d, "r1", Raw("aa"))
Lg(off, lim, ord) == [a |-> "ig", k |-> "ListGas", off |-> off, lim |-> lim, ord |-> ord]
GQs == FlattenSeq([j \in DOMAIN Ds |-> << [a |-> "ig", k |-> "Quote", meta |-> Raw(""), msg |-> M(Ds[j])], [a |-> "ig", k |-> "QuoteGas", d |-> Ds[j], g |-> <<3>>],
                                          [a |-> "ig", k |-> "GasFor", ds |-> <<Ds[j]>>], [a |-> "ig", k |-> "Oracle", d |-> Ds[j]],
                                          [a |-> "or", k |-> "Oracle", d |-> Ds[j]], [a |-> "or2", k |-> "Oracle", d |-> Ds[j]] >>])
Pages == << Lg(<<>>, <<>>, <<>>), Lg(<<>>, <<1>>, <<>>), Lg(<<6>>, <<2>>, <<"asc">>), Lg(<<6>>, <<>>, <<"desc">>), Lg(<<-7>>, <<30>>, <<"asc">>), Lg(<<>>, <<30>>, <<"desc">>),
            Lg(<<>>, <<31>>, <<>>), Lg(<<>>, <<0>>, <<>>), Lg(<<30>>, <<>>, <<"asc">>), Lg(<<7>>, <<>>, <<>>) >>
XQs(s) == GQs \o Pages \o << Q("ig", "DefaultGas"), [a |-> "ig", k |-> "GasFor", ds |-> <<6, -7>>], [a |-> "ig", k |-> "GasFor", ds |-> <<>>] >>
(* last accepted settings *)
XG0 == [gas |-> E0, dflt |-> <<7>>, data |-> E0, rt |-> E0]
Over(f, cfg) == [d \in (DOMAIN f) \cup {cfg[j][1] : j \in DOMAIN cfg} |->
                   LET hit == {j \in DOMAIN cfg : cfg[j][1] = d} IN IF hit = {} THEN f[d] ELSE cfg[Max(hit)][2]]
XUpd(gg, s, c, r) ==
  IF ~r.ok THEN gg
  ELSE CASE c.m.k = "SetGas" -> [gg EXCEPT !.gas = Over(@, c.m.cfg)]
         [] c.m.k = "UnsetGas" -> [gg EXCEPT !.gas = [d \in (DOMAIN @) \ ToSet(c.m.ds) |-> @[d]]]
         [] c.m.k = "SetDefaultGas" -> [gg EXCEPT !.dflt = c.m.g]
         [] c.m.k = "SetGasData" -> [gg EXCEPT !.data = Over(@, << << <<c.a, c.m.c[1]>>, <<c.m.c[2], c.m.c[3]>> >> >>)]
         [] c.m.k = "SetGasDatas" -> [gg EXCEPT !.data = Over(@, [j \in DOMAIN c.m.cfg |-> << <<c.a, c.m.cfg[j][1]>>, <<c.m.cfg[j][2], c.m.cfg[j][3]>> >>])]
         [] c.m.k = "SetRoute" -> [gg EXCEPT !.rt = Over(@, << <<c.m.d, c.m.r>> >>)]
XStep(gg, s, c, r) ==
  /\ r.ok => c.s = "u1"
  /\ c.m.k = "SetGasData" => (r.ok <=> c.s = "u1" /\ c.m.c[2] # <<>>)
  /\ c.m.k = "SetGasDatas" => (r.ok <=> c.s = "u1" /\ \A j \in DOMAIN c.m.cfg : c.m.cfg[j][2] # <<>>)
Via(gg, d) == IF d \in DOMAIN gg.rt THEN gg.rt[d] ELSE <<>>
Found(gg, d) == LET o == Via(gg, d) IN IF o = <<>> THEN <<>> ELSE IF <<o[1], d>> \in DOMAIN gg.data THEN <<gg.data[<<o[1], d>>]>> ELSE <<>>
InForce(gg, d) == IF d \in DOMAIN gg.gas THEN gg.gas[d] ELSE gg.dflt
Need(g_, od) == BDivScale(BMul(BMul(g_, od[2]), od[1]))
All(s) == Query(s, Lg(<<>>, <<30>>, <<>>))[2]
XState(gg, s) ==
  /\ \A j \in DOMAIN Ds :
       LET d == Ds[j] od == Found(gg, d) IN
       /\ Query(s, [a |-> "ig", k |-> "Quote", meta |-> Raw(""), msg |-> M(d)]) = (IF od = <<>> THEN ER ELSE R(CSeq(s, COne("uosmo", Need(InForce(gg, d), od[1])))))
       /\ Query(s, [a |-> "ig", k |-> "QuoteGas", d |-> d, g |-> <<3>>]) = (IF od = <<>> THEN ER ELSE R(Need(<<3>>, od[1])))
       /\ Query(s, [a |-> "ig", k |-> "Oracle", d |-> d]) = (IF od = <<>> THEN ER ELSE R(od[1]))
       /\ Query(s, [a |-> "ig", k |-> "GasFor", ds |-> <<d>>]) = (IF d \in DOMAIN gg.gas THEN R(<< <<d, gg.gas[d]>> >>) ELSE ER)
       /\ \A a \in {"or", "or2"} : Query(s, [a |-> a, k |-> "Oracle", d |-> d]) = (IF <<a, d>> \in DOMAIN gg.data THEN R(gg.data[<<a, d>>]) ELSE ER)
  /\ {All(s)[j] : j \in DOMAIN All(s)} = {<<d, gg.gas[d]>> : d \in DOMAIN gg.gas} /\ Len(All(s)) = Cardinality(DOMAIN gg.gas)
  /\ \A j \in 1..(Len(All(s)) - 1) : ULt(All(s)[j][1], All(s)[j + 1][1])
  \* successive pages of two make up the whole
  /\ \A j \in DOMAIN All(s) : Query(s, Lg(<<All(s)[j][1]>>, <<2>>, <<>>))[2] = SubSeq(All(s), j + 1, Min2(j + 2, Len(All(s))))
  /\ Query(s, Q("ig", "DefaultGas")) = R(gg.dflt)
XTag(gg, s, c) == ""
XLen(d) == IF d THEN 5 ELSE 4
=============================================================================
