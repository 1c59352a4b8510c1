-------------------------------- MODULE Peak --------------------------------
(***************************************************************************)
(* Peak definitions and durations (C27), decomposition of a line (C15),     *)
(* hedging (C16), conversion of base, peak and offpeak values (C28).        *)
(* A definition: [l, r: seconds of day or -1 (not given); wdg: are weekdays *)
(* given; wd: sequence of them].                                            *)
(***************************************************************************)
EXTENDS Tools

PL(d) == IF d.l < 0 THEN 0 ELSE d.l
PR(d) == IF d.r <= 0 THEN DAY ELSE d.r
Wds(d) == IF d.wdg THEN RangeSet(d.wd) \cap (1..7) ELSE 1..5
AllDay(d) == PL(d) = 0 /\ PR(d) = DAY
DefOk(d) == /\ Wds(d) # {} /\ ~(AllDay(d) /\ Wds(d) = 1..7)
            /\ PL(d) % 900 = 0 /\ PR(d) % 900 = 0
\* Longest frequency whose periods are entirely peak or entirely offpeak.
Grain(d) == IF AllDay(d) THEN 3 ELSE IF PL(d) % 3600 = 0 /\ PR(d) % 3600 = 0 THEN 2 ELSE 1
Applicable(d, f) == Rank(f) <= Grain(d)
IsPeak(d, tz, u) == LET w == ToWall(tz, u) IN Weekday(w \div DAY) \in Wds(d) /\ PL(d) <= w % DAY /\ w % DAY < PR(d)

\* Seconds of peak in [a, b): on each day the instants whose local time lies in the range; a day with a change of the UTC-offset has two segments.
Segments(tz, dn) ==
    LET a == AtDay(tz, dn, 0)  b == AtDay(tz, dn + 1, 0)  oa == ToWall(tz, a) - a  ob == ToWall(tz, b - 1) - (b - 1)
    IN IF oa = ob THEN << <<a, b, oa>> >>
       ELSE LET t == CHOOSE t \in {a + 1800 * k : k \in 1..52} : ToWall(tz, t) - t = ob /\ ToWall(tz, t - 1) - (t - 1) = oa
            IN << <<a, t, oa>>, <<t, b, ob>> >>
Overlap(a1, b1, a2, b2) == LET lo == MaxI(a1, a2)  hi == MinI(b1, b2) IN IF hi > lo THEN hi - lo ELSE 0
DayPeak(d, tz, dn, a, b) ==
    IF Weekday(dn) \notin Wds(d) THEN 0
    ELSE LET s == Segments(tz, dn)
             one(g) == LET lo == MaxI(g[1], dn * DAY + PL(d) - g[3])  hi == MinI(g[2], dn * DAY + PR(d) - g[3]) IN Overlap(lo, hi, a, b)
         IN one(s[1]) + (IF Len(s) = 2 THEN one(s[2]) ELSE 0)
RECURSIVE DaysPeak(_, _, _, _, _, _)
DaysPeak(d, tz, lo, hi, a, b) ==
    IF lo > hi THEN 0 ELSE IF lo = hi THEN DayPeak(d, tz, lo, a, b)
    ELSE LET m == (lo + hi) \div 2 IN DaysPeak(d, tz, lo, m, a, b) + DaysPeak(d, tz, m + 1, hi, a, b)
PeakSecs(d, tz, a, b) == IF a >= b THEN 0 ELSE DaysPeak(d, tz, ToWall(tz, a) \div DAY, ToWall(tz, b - 1) \div DAY, a, b)
PartSecs(d, tz, part, a, b) ==
    IF a >= b THEN 0 ELSE CASE part = "base" -> b - a [] part = "peak" -> PeakSecs(d, tz, a, b) [] part = "offpeak" -> b - a - PeakSecs(d, tz, a, b)

(* ----------------------------------- C27 --------------------------------- *)
VPeakFn(e) ==
    IF ~DefOk(e.d) THEN (IF ~e.made /\ Err(e.r) THEN "ok" ELSE "peakfn.definition.accepted")
    ELSE IF ~e.made THEN "peakfn.definition.refused"
    ELSE IF ~Applicable(e.d, e.ix.f) THEN (IF Err(e.r) THEN "ok" ELSE "peakfn.accepted")
    ELSE IF ~Ok(e.r) THEN "peakfn.raised"
    ELSE First(<< <<e.r.v.u = e.ix.u, "peakfn.index">>,
                  <<e.r.v.m = [i \in 1..Len(e.ix.u) |-> IsPeak(e.d, e.ix.tz, e.ix.u[i])], "peakfn.value">>, <<e.mut = <<>>, "peakfn.mutates">> >>)
VPeakDur(e) ==
    IF ~Ok(e.r) THEN "peakdur.raised"
    ELSE First(<< <<e.r.v.u = e.ix.u, "peakdur.index">>, <<e.r.v.un = "h", "peakdur.unit">>,
                  <<\A i \in 1..Len(e.ix.u) : Near(Q(PartSecs(e.d, e.ix.tz, e.part, e.ix.u[i], Right(e.ix.f, e.ix.tz, e.ix.u[i])), 3600), e.r.v.m[i]), "peakdur.value">>,
                  <<e.mut = <<>>, "peakdur.mutates">> >>)

(* --------------------------- full product periods ------------------------ *)
\* [a, i, j]: product starting at a, made up of rows i..j
Products(L, f) ==
    LET ix == [f |-> L.f, tz |-> L.tz, u |-> L.u]
        sp == FullSpan(f, L.tz, IxSod(ix), L.u[1], IxEnd(ix))
        st == Periods(f, L.tz, sp[1], sp[2])
        end(k) == IF k = Len(st) THEN sp[2] ELSE st[k + 1]
    IN IF sp[1] >= sp[2] THEN <<>>
       ELSE [k \in 1..Len(st) |-> [a |-> st[k], i |-> PosAt(L, st[k]) + 1, j |-> PosAt(L, end(k))]]
\* rows i..j of the part
PartRows(d, L, part, g) ==
    LET all == [k \in 1..(g.j - g.i + 1) |-> g.i + k - 1] IN
    CASE part = "base" -> all
      [] part = "peak" -> SelectSeq(all, LAMBDA k : IsPeak(d, L.tz, L.u[k]))
      [] part = "offpeak" -> SelectSeq(all, LAMBDA k : ~IsPeak(d, L.tz, L.u[k]))
Pick(x, rows) == [k \in 1..Len(rows) |-> x[rows[k]]]
DurOf(L) == DurH(L.f, L.tz, L.u)

(* ----------------------------------- C15 --------------------------------- *)
PoRow(L, dur, d, part, g) ==
    LET rows == TLCEval(PartRows(d, L, part, g))
        t == RSum(Pick(dur, rows))
        sum(x) == RSum(Pick(L.c[x], rows))
        qq == IF "q" \in DOMAIN L.c THEN sum("q") ELSE Zero
        rr == IF "r" \in DOMAIN L.c THEN sum("r") ELSE Zero
    IN [x \in ColsOf(L.k) \cup {"duration"} |->
            CASE x = "duration" -> t [] x = "q" -> qq [] x = "w" -> RDiv(qq, t) [] x = "r" -> rr
              [] x = "p" -> IF L.k = "all" THEN RDiv(rr, qq) ELSE Wavg(TLCEval(Pick(L.c.p, rows)), TLCEval(Pick(dur, rows)))]
PoSpec(L, d, f) ==
    LET dur == TLCEval(DurOf(L))  gs == TLCEval(Products(L, f))
        n == Len(gs)
    IN [k \in 1..(2 * n) |-> LET g == gs[((k - 1) \div 2) + 1]  part == IF k % 2 = 1 THEN "peak" ELSE "offpeak"
                             IN [a |-> g.a, part |-> part, c |-> TLCEval(PoRow(L, dur, d, part, g))]]
PoUnit == [duration |-> "h", w |-> "MW", q |-> "MWh", r |-> "Eur", p |-> "Eur/MWh"]
VPo(L, e) ==
    IF Rank(e.f) < 4 \/ ~Applicable(e.d, L.f) THEN (IF Err(e.r) THEN "ok" ELSE "po.accepted")
    ELSE IF ~Ok(e.r) THEN "po.raised"
    ELSE LET w == TLCEval(PoSpec(L, e.d, e.f))  V == e.r.v  F == TLCEval(Flatten(L))
             cols == ColsOf(L.k) \cup {"duration"}
         IN First(<< <<V.u = [k \in 1..Len(w) |-> w[k].a] /\ V.part = [k \in 1..Len(w) |-> w[k].part], "po.periods">>,
                     <<DOMAIN V.m = cols, "po.columns">>,
                     <<w = <<>> \/ \A x \in cols : V.un[x] = PoUnit[x], "po.units">>,
                     <<\A x \in cols : SeqNear([k \in 1..Len(w) |-> w[k].c[x]], V.m[x]), "po.values">> >>)

(* ----------------------------------- C16 --------------------------------- *)
NoPeak == [l |-> -2, r |-> -2, wdg |-> FALSE, wd |-> <<>>]
\* the hedge of rows: power and price
HedgeOf(W, p, dur, rows, how) ==
    LET ds == TLCEval(Pick(dur, rows))  ps == TLCEval(Pick(p, rows))  ws == TLCEval(Pick(W, rows))  pd == TLCEval(Map2(RMul, ps, ds))
    IN [p |-> WavgSer(ps, ds), w |-> WavgSer(ws, IF how = "vol" THEN ds ELSE pd)]
\* (Values bound by set comprehension are computed once.)
The(S) == CHOOSE x \in S : TRUE
HedgeParamsOk(L, P, e) ==
    /\ L.k \in {"vol", "all"} /\ P.k \in {"pri", "all"} /\ Rank(L.f) <= 3 /\ CompatIx(L, P)
    /\ e.f \in {"D", "MS", "QS", "YS"} /\ e.how \in {"vol", "val"}
    /\ e.pk => (Rank(L.f) <= 2 /\ e.f # "D" /\ Applicable(e.d, L.f))
\* Bad, "none" (no full period in common) or the line
HedgeSpec(L, P, e) ==
    IF ~HedgeParamsOk(L, P, e) THEN Bad
    ELSE LET us == Common(L.u, P.u) IN
    IF us = <<>> THEN [s |-> "none"]
    ELSE LET X == TLCEval(CutTo(Flatten(L), us))  PP == TLCEval(CutTo(Flatten(P), us))
             f == NormF(e.f)
             gs == TLCEval(Products(X, f))
         IN IF gs = <<>> THEN [s |-> "none"]
            ELSE LET i == gs[1].i  j == gs[Len(gs)].j
                     dur == TLCEval(DurOf(X))
                     parts == IF e.pk THEN <<"peak", "offpeak">> ELSE <<"base">>
                     hs == [k \in 1..Len(gs) |-> [x \in RangeSet(parts) |-> LET rows == TLCEval(PartRows(e.d, X, x, gs[k]))
                                                                          IN IF rows = <<>> THEN [p |-> NaN, w |-> NaN] ELSE HedgeOf(X.c.w, PP.c.p, dur, rows, e.how)]]
                     part(n) == IF ~e.pk THEN "base" ELSE IF IsPeak(e.d, X.tz, X.u[n]) THEN "peak" ELSE "offpeak"
                     prod(n) == CHOOSE k \in 1..Len(gs) : gs[k].i <= n /\ n <= gs[k].j
                     row(h, n) == LET g == h[prod(n)][part(n)] IN <<g.w, g.p, RMul(g.w, dur[n])>>
                     col(rv, x) == [n \in 1..(j - i + 1) |-> rv[n][x]]
                     line(rv) == Flat("all", [f |-> X.f, tz |-> X.tz, u |-> SubSeq(X.u, i, j)],
                                      [w |-> col(rv, 1), p |-> col(rv, 2), q |-> col(rv, 3), r |-> [n \in 1..(j - i + 1) |-> RMul(rv[n][2], rv[n][3])]])
                 IN The(UNION {{line(rv) : rv \in {TLCEval([n \in 1..(j - i + 1) |-> row(h, n + i - 1)])}} : h \in {TLCEval(hs)}})
HedgeOutcome(e, store) ==
    LET w == TLCEval(HedgeSpec(Get(store, e.a), Get(store, e.b.n), e))
        drop == IF "out" \in DOMAIN e THEN Drop(store, e.out) ELSE store
    IN IF w.s = "none" THEN [v |-> IF Err(e.r) THEN "ok" ELSE IF Ok(e.r) /\ e.r.v.s = "empty" THEN "ok" ELSE "hedge.periods", store |-> drop]
       ELSE IF ~IsBad(w) /\ Ok(e.r) /\ e.r.v.s = "empty" THEN [v |-> "hedge.periods", store |-> drop]
       ELSE IF e.api = "line" THEN Judge(e, store, w, "hedge")
       ELSE \* function on two timeseries
            [v |-> IF IsBad(w) THEN (IF Err(e.r) THEN "ok" ELSE "hedge.accepted")
                   ELSE IF ~Ok(e.r) THEN "hedge.raised"
                   ELSE First(<< <<e.r.v.w.u = w.u /\ e.r.v.p.u = w.u, "hedge.index">>,
                                 <<e.r.v.w.un = (IF e.units \in {"both", "w"} THEN "MW" ELSE "none") /\ e.r.v.p.un = (IF e.units \in {"both", "p"} THEN "Eur/MWh" ELSE "none"), "hedge.units">>,
                                 <<e.r.v.w.f = w.f /\ e.r.v.w.tz = w.tz /\ e.r.v.p.f = w.f, "hedge.freq">>,
                                 <<SeqNear(w.c.w, e.r.v.w.m), "hedge.w">>, <<SeqNear(w.c.p, e.r.v.p.m), "hedge.p">>,
                                 <<e.mut = <<>>, "hedge.mutates">> >>), store |-> drop]

PeakLineOps == {"po", "hedge"}
PeakLineOutcome(e, store) ==
    IF \E n \in Operands(e) : ~Has(store, n) THEN [v |-> "ok", store |-> IF "out" \in DOMAIN e THEN Drop(store, e.out) ELSE store]
    ELSE IF e.op = "po" THEN Plain(e, store, VPo(Flatten(Get(store, e.a)), e))
    ELSE HedgeOutcome(e, store)

(* ----------------------------------- C28 --------------------------------- *)
\* e.c: given columns -> values; e.sum: summable.
Third(d, ix, c, sum, i) ==     \* all three values of period i
    LET a == ix.u[i]  b == Right(ix.f, ix.tz, a)
        B == Q(b - a, 3600)  P == Q(PeakSecs(d, ix.tz, a, b), 3600)  O == RSub(B, P)
        wt(x) == IF sum THEN <<1, 1>> ELSE CASE x = "base" -> B [] x = "peak" -> P [] x = "offpeak" -> O
        has(x) == x \in DOMAIN c
        t(x) == RMul(c[x][i], wt(x))
        \* peak and offpeak: their weighted sum is the weighted base; undetermined if the weight is zero
        solve(x) == LET n == CASE x = "base" -> RAdd(t("peak"), t("offpeak")) [] x = "peak" -> RSub(t("base"), t("offpeak")) [] x = "offpeak" -> RSub(t("base"), t("peak"))
                    IN IF IsZero(wt(x)) THEN UNK ELSE RDiv(n, wt(x))
    IN [x \in {"base", "peak", "offpeak"} |-> IF has(x) THEN c[x][i] ELSE solve(x)]
VBpo(e) ==
    IF Cardinality(DOMAIN e.c \cap {"base", "peak", "offpeak"}) < 2 THEN (IF Err(e.r) THEN "ok" ELSE "bpo.accepted")
    ELSE IF ~Ok(e.r) THEN "bpo.raised"
    ELSE LET w == TLCEval([i \in 1..Len(e.ix.u) |-> TLCEval(Third(e.d, e.ix, e.c, e.sum, i))])
         IN First(<< <<e.r.v.u = e.ix.u, "bpo.index">>, <<e.r.v.keys = <<"base", "peak", "offpeak">>, "bpo.columns">>,
                     <<\A x \in {"base", "peak", "offpeak"} : SeqNear([i \in 1..Len(w) |-> w[i][x]], e.r.v.m[x]), "bpo.values">>,
                     <<\A x \in {"base", "peak", "offpeak"} : e.r.v.un[x] = e.un, "bpo.units">>, <<e.mut = <<>>, "bpo.mutates">> >>)
\* decompose a timeseries: e.ix, e.v
VDecomp(e) ==
    IF Rank(e.f) < 4 \/ ~Applicable(e.d, e.ix.f) THEN (IF Err(e.r) THEN "ok" ELSE "decompose.accepted")
    ELSE IF ~Ok(e.r) THEN "decompose.raised"
    ELSE LET L == [f |-> e.ix.f, tz |-> e.ix.tz, u |-> e.ix.u]
             gs == TLCEval(Products(L, e.f))  dur == TLCEval(DurOf(L))
             val(k, part) == LET rows == TLCEval(PartRows(e.d, L, part, gs[k])) IN
                             IF e.sum THEN RSum(Pick(e.v, rows)) ELSE IF rows = <<>> THEN NaN ELSE Wavg(TLCEval(Pick(e.v, rows)), TLCEval(Pick(dur, rows)))
         IN First(<< <<e.r.v.u = [k \in 1..Len(gs) |-> gs[k].a], "decompose.periods">>, <<RangeSet(e.r.v.keys) = {"peak", "offpeak"} /\ Len(e.r.v.keys) = 2, "decompose.columns">>,
                     <<\A x \in {"peak", "offpeak"} : SeqNear([k \in 1..Len(gs) |-> val(k, x)], e.r.v.m[x]), "decompose.values">>,
                     <<gs = <<>> \/ \A x \in {"peak", "offpeak"} : e.r.v.un[x] = e.un, "decompose.units">>, <<e.mut = <<>>, "decompose.mutates">> >>)
\* reconstruct a timeseries
Us(f, tz, ix) == Periods(f, tz, ix.u[1], IxEnd(ix))
VRecomp(e) ==
    IF Cardinality(DOMAIN e.c \cap {"base", "peak", "offpeak"}) < 2 THEN (IF Err(e.r) THEN "ok" ELSE "reconstruct.accepted")
    ELSE IF ~Applicable(e.d, e.f) THEN (IF Err(e.r) THEN "ok" ELSE "reconstruct.accepted")
    ELSE IF ~Ok(e.r) THEN "reconstruct.raised"
    ELSE LET us == TLCEval(Us(e.f, e.ix.tz, e.ix))
             w == TLCEval([i \in 1..Len(e.ix.u) |-> TLCEval(Third(e.d, e.ix, e.c, e.sum, i))])
             hrs == TLCEval([i \in 1..Len(e.ix.u) |-> TLCEval([x \in {"peak", "offpeak"} |-> Q(PartSecs(e.d, e.ix.tz, x, e.ix.u[i], Right(e.ix.f, e.ix.tz, e.ix.u[i])), 3600)])])
             val(k) == LET i == CHOOSE i \in 1..Len(e.ix.u) : e.ix.u[i] <= us[k] /\ (i = Len(e.ix.u) \/ us[k] < e.ix.u[i + 1])
                           x == IF IsPeak(e.d, e.ix.tz, us[k]) THEN "peak" ELSE "offpeak"
                       IN IF e.sum THEN RDiv(RMul(w[i][x], Q(Duration(e.f, e.ix.tz, us[k]), 3600)), hrs[i][x]) ELSE w[i][x]
         IN First(<< <<e.r.v.u = us, "reconstruct.index">>, <<SeqNear([k \in 1..Len(us) |-> val(k)], e.r.v.m), "reconstruct.values">>,
                     <<e.r.v.un = e.un, "reconstruct.units">>, <<e.mut = <<>>, "reconstruct.mutates">> >>)
\* from periods to other periods
VPo2Po(e) ==
    IF Cardinality(DOMAIN e.c \cap {"base", "peak", "offpeak"}) < 2 \/ Rank(e.f) < 4 THEN (IF Err(e.r) THEN "ok" ELSE "convert.accepted")
    ELSE IF ~Ok(e.r) THEN "convert.raised"
    ELSE LET tz == e.ix.tz  end == IxEnd(e.ix)
             sp == FullSpan(e.f, tz, IxSod(e.ix), e.ix.u[1], end)
             st == TLCEval(IF sp[1] >= sp[2] THEN <<>> ELSE Periods(e.f, tz, sp[1], sp[2]))
             w == TLCEval([i \in 1..Len(e.ix.u) |-> TLCEval(Third(e.d, e.ix, e.c, e.sum, i))])
             n == Len(e.ix.u)
             e0(i) == e.ix.u[i]  e1(i) == IF i = n THEN end ELSE e.ix.u[i + 1]
             t1(k) == IF k = Len(st) THEN sp[2] ELSE st[k + 1]
             hrs(x, i, k) == Q(PartSecs(e.d, tz, x, MaxI(e0(i), st[k]), MinI(e1(i), t1(k))), 3600)
             tot(x, i) == Q(PartSecs(e.d, tz, x, e0(i), e1(i)), 3600)
             ov(k) == {i \in 1..n : e0(i) < t1(k) /\ st[k] < e1(i)}
             RECURSIVE Acc(_, _, _)
             Acc(f(_), S, z) == IF S = {} THEN z ELSE LET i == CHOOSE i \in S : TRUE IN Acc(f, S \ {i}, RAdd(z, f(i)))
             val(x, k) == IF e.sum THEN LET g(i) == IF IsZero(hrs(x, i, k)) THEN Zero ELSE RMul(w[i][x], RDiv(hrs(x, i, k), tot(x, i))) IN Acc(g, ov(k), Zero)
                          ELSE LET g(i) == RMul(w[i][x], hrs(x, i, k))  h(i) == hrs(x, i, k) IN RDiv(Acc(g, ov(k), Zero), Acc(h, ov(k), Zero))
         IN First(<< <<e.r.v.u = st, "convert.periods">>, <<RangeSet(e.r.v.keys) = {"peak", "offpeak"} /\ Len(e.r.v.keys) = 2, "convert.columns">>,
                     <<\A x \in {"peak", "offpeak"} : SeqNear([k \in 1..Len(st) |-> val(x, k)], e.r.v.m[x]), "convert.values">>,
                     <<st = <<>> \/ \A x \in {"peak", "offpeak"} : e.r.v.un[x] = e.un, "convert.units">>, <<e.mut = <<>>, "convert.mutates">> >>)

PeakOpNames == {"peakfn", "peakdur", "bpo", "decompose", "reconstruct", "convert"}
PeakVerdict(e) == CASE e.op = "peakfn" -> VPeakFn(e) [] e.op = "peakdur" -> VPeakDur(e) [] e.op = "bpo" -> VBpo(e)
                    [] e.op = "decompose" -> VDecomp(e) [] e.op = "reconstruct" -> VRecomp(e) [] e.op = "convert" -> VPo2Po(e)
=============================================================================
