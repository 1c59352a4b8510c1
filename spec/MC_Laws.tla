------------------------------- MODULE MC_Laws -------------------------------
(***************************************************************************)
(* The tools that work on series, calendars and prices, as functions of     *)
(* their input: TLC enumerates every input of a small universe (Inputs) and *)
(* evaluates the properties C15, C16, C23, C25 - C29, C33 as laws of the    *)
(* operators that trace validation uses.                                    *)
(***************************************************************************)
EXTENDS Years, Worlds, TLC

CONSTANTS Inputs
VARIABLE box      \* empty; then holding an input; then the input is to be judged (so that the workers share the judging)
Init == box = <<>>
Next == \/ box = <<>> /\ \E i \in Inputs : box' = <<i>>
        \/ Len(box) = 1 /\ box' = Append(box, box[1])
Spec == Init /\ [][Next]_box
Given == Len(box) = 2
x == box[1]

I(n) == <<n, 1>>
Fin(v) == v[2] > 0
RLe(a, b) == LET d == RSub(b, a) IN Fin(d) /\ d[1] >= 0
RMaxS(S) == CHOOSE a \in S : \A b \in S : RLe(b, a)
RMinS(S) == CHOOSE a \in S : \A b \in S : RLe(a, b)
Rot(s) == Append(Tail(s), s[1])
Swap(s) == <<s[2], s[1]>> \o SubSeq(s, 3, Len(s))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Opt(S) == S \cup {NaN}

(* ------------------------- C26: weighted averages ------------------------ *)
WavgVals == Opt({I(0), I(1), I(-2), I(3)})
WavgWts == {I(0), I(1), I(-1), I(2)}
WavgIn == {[v |-> <<a, b, c>>, w |-> <<d, e, f>>] : a \in WavgVals, b \in WavgVals, c \in WavgVals, d \in WavgWts, e \in WavgWts, f \in WavgWts}
WavgLaws == Given =>
    LET v == x.v  w == x.w  r == Wavg(v, w)  s == WavgSer(v, w)  W == RSum(w)
        on == {i \in 1..3 : ~IsZero(w[i])}
        shift(k) == [i \in 1..3 |-> RAdd(v[i], I(k))]
        other(k) == [i \in 1..3 |-> IF IsZero(w[i]) THEN I(k) ELSE v[i]]
    IN /\ Wavg(Rot(v), Rot(w)) = r /\ Wavg(Swap(v), Swap(w)) = r                    \* order is irrelevant
       /\ \A k \in {-1, 2} : Wavg(v, [i \in 1..3 |-> RMul(w[i], I(k))]) = r           \* so is the scale of the weights
       /\ Wavg(shift(5), w) = (IF Fin(r) THEN RAdd(r, I(5)) ELSE r)
       /\ on # {} => (Wavg(other(7), w) = r /\ s = r)                                \* zero-weight values never matter
       /\ on = {} => IsNaN(s)
       /\ (\E i \in on : IsNaN(v[i])) => IsNaN(r)
       /\ (~IsZero(W) /\ Fin(r)) => RMul(r, W) = RSum([i \in 1..3 |-> IF IsZero(w[i]) THEN Zero ELSE RMul(v[i], w[i])])
       /\ (on # {} /\ (\A i \in on : RLe(Zero, w[i]) /\ Fin(v[i]))) => RLe(RMinS({v[i] : i \in on}), r) /\ RLe(r, RMaxS({v[i] : i \in on}))
       /\ (on # {} /\ IsZero(W) /\ \A i \in on : Fin(v[i])) => r = (IF Cardinality({v[i] : i \in on}) = 1 THEN v[CHOOSE i \in on : TRUE] ELSE NaN)
       \* averages may be averaged
       /\ LET g == RAdd(w[1], w[2])  m == Wavg(<<v[1], v[2]>>, <<w[1], w[2]>>) IN (~IsZero(g) /\ ~IsZero(W) /\ Fin(m)) => Wavg(<<m, v[3]>>, <<g, w[3]>>) = r

(* ------------------------------- C33: gaps ------------------------------- *)
FillVals == Opt({I(0), I(3)})
FillAxes == {<<1, 2, 3, 4, 5>>, <<1, 2, 4, 5, 9>>}
FillIn == {[x |-> ax, v |-> v, g |-> g] : ax \in FillAxes, v \in [1..5 -> FillVals], g \in 0..3}
FillLaws == Given =>
    LET v == x.v  r == TLCEval(FillSpec(x.x, v, x.g))  more == TLCEval(FillSpec(x.x, v, x.g + 1))
        known == {i \in 1..5 : ~IsNaN(v[i])}
        run(i) == CHOOSE S \in SUBSET (1..5 \ known) : i \in S /\ (\A j, k \in S : \A m \in 1..5 : (j <= m /\ m <= k) => m \in S)
                      /\ \A j \in (1..5 \ known) \ S : (j + 1) \notin S /\ (j - 1) \notin S
    IN /\ \A i \in known : r[i] = v[i]
       /\ \A i \in 1..5 : ~IsNaN(r[i]) => more[i] = r[i]
       /\ FillSpec(x.x, r, x.g) = r
       /\ Rev(FillSpec([i \in 1..5 |-> 10 - x.x[6 - i]], Rev(v), x.g)) = r
       /\ \A i \in 1..5 \ known : LET g == run(i)
              inner == 1 \notin g /\ 5 \notin g
          IN ~IsNaN(r[i]) <=> (inner /\ Cardinality(g) <= x.g)
       /\ \A i \in 1..5 \ known : ~IsNaN(r[i]) => RLe(I(0), r[i]) /\ RLe(r[i], I(3))

(* --------------------------- C23: intersections -------------------------- *)
Sp(f, tz, y, m, d, sod, n) == Ix(f, tz, At(tz, y, m, d, sod), n)
IsectIxs == UNION {{Sp("D", tz, 2024, 2, d, s, n) : d \in {27, 28}, n \in {1, 3, 35}} \cup {Sp("MS", tz, 2024, m, 1, s, n) : m \in {2, 3}, n \in {1, 2}}
                   : tz \in {"none", "Europe/Berlin"}, s \in {0, 21600}}
IsectIn == {[a |-> a, b |-> b, igf |-> i, igt |-> j, igs |-> k] : a \in IsectIxs, b \in IsectIxs, i \in BOOLEAN, j \in BOOLEAN, k \in BOOLEAN}
IsectEv(ixs) == [objs |-> [i \in 1..Len(ixs) |-> [t |-> "index", ix |-> ixs[i], v |-> <<>>]], igf |-> x.igf, igt |-> x.igt, igs |-> x.igs]
Contig(us, all) == us = <<>> \/ \E i, j \in 1..Len(all) : i <= j /\ us = SubSeq(all, i, j)
IsectLaws == Given =>
    LET r == TLCEval(IsectSpec(IsectEv(<<x.a, x.b>>)))  s == TLCEval(IsectSpec(IsectEv(<<x.b, x.a>>)))  t == TLCEval(IsectSpec(IsectEv(<<x.a, x.b, x.a>>)))
        self == IsectSpec(IsectEv(<<x.a, x.a>>))
    IN /\ self.t = "ok" /\ self.u = <<x.a.u, x.a.u>>
       /\ r.t = s.t /\ t.t = r.t
       /\ (~x.igf /\ x.a.f # x.b.f) => r.t = "err"
       /\ (~x.igt /\ x.a.tz # x.b.tz) => r.t = "err"
       /\ (~x.igs /\ IxSod(x.a) # IxSod(x.b)) => r.t = "err"
       /\ r.t = "ok" =>
           /\ s.u = <<r.u[2], r.u[1]>> /\ t.u = <<r.u[1], r.u[2], r.u[1]>>
           /\ Contig(r.u[1], x.a.u) /\ Contig(r.u[2], x.b.u) /\ (r.u[1] = <<>> <=> r.u[2] = <<>>)
           /\ r.u[1] # <<>> =>
                LET A == [x.a EXCEPT !.u = r.u[1]]  B == [x.b EXCEPT !.u = r.u[2]]
                    wall(ix, u) == ToWall(ix.tz, u) - IxSod(x.a) + (IF IxSod(x.a) # IxSod(x.b) THEN IxSod(x.a) - IxSod(ix) ELSE 0)
                IN /\ wall(A, A.u[1]) = wall(B, B.u[1]) /\ wall(A, IxEnd(A)) = wall(B, IxEnd(B))       \* the same time is covered
                   /\ IsectSpec(IsectEv(<<A, B>>)).u = <<A.u, B.u>>
           /\ (x.a.f = x.b.f /\ x.a.tz = x.b.tz /\ IxSod(x.a) = IxSod(x.b)) => RangeSet(r.u[1]) = RangeSet(x.a.u) \cap RangeSet(x.b.u)

(* ----------------------------- C25: time zones --------------------------- *)
ZoneTzs == {"Europe/Berlin", "America/New_York", "Asia/Kolkata"}
ZoneDays == {<<2023, 3, 25>>, <<2023, 3, 26>>, <<2023, 10, 28>>, <<2023, 10, 29>>, <<2023, 3, 12>>, <<2023, 11, 5>>, <<2024, 2, 29>>}
ZoneIx(f, tz, d, n) == LET a == At(tz, d[1], d[2], d[3], 0)  b == At(tz, d[1], d[2], d[3] + n, 0) IN [f |-> f, tz |-> tz, u |-> Periods(f, tz, a, b)]
ZoneIn == {[f |-> f, tz |-> tz, d |-> d, n |-> n, to |-> to] : f \in {"D", "h"}, tz \in ZoneTzs \cup {"none"}, d \in ZoneDays, n \in {1, 2}, to \in ZoneTzs}
ZoneLaws == Given =>
    LET ix == TLCEval(ZoneIx(x.f, x.tz, x.d, x.n))  v == [i \in 1..Len(ix.u) |-> I(i)]
        b == TLCEval(ForceAgnostic(ix, v))  bb == ForceAgnostic(b.ix, b.v)
        c == TLCEval(ForceAware(b.ix, b.v, x.to, TRUE))     \* to the wall times of another zone
        d == TLCEval(ForceAware(ix, v, x.to, FALSE))
    IN /\ b.t = "ok" /\ b.ix.tz = "none" /\ Gapless(b.ix) /\ bb.ix = b.ix /\ bb.v = b.v
       /\ Len(b.ix.u) = (CASE x.f = "D" -> x.n [] x.f = "h" -> 24 * x.n [] OTHER -> 96 * x.n)                          \* 24 hours each day
       /\ RangeSet(b.v) \subseteq RangeSet(v)
       /\ \A i \in 1..Len(b.ix.u) : \E k \in 1..Len(ix.u) :                              \* the value of the same wall time, if there is one
              b.v[i] = v[k] /\ (ToWall(ix.tz, ix.u[k]) = b.ix.u[i] \/ (~\E j \in 1..Len(ix.u) : ToWall(ix.tz, ix.u[j]) = b.ix.u[i]))
       /\ c.t = "ok" /\ c.ix.tz = x.to /\ Gapless(c.ix)
       /\ Len(c.ix.u) * Duration(x.f, x.to, c.ix.u[1]) >= 0
       /\ \A i \in 1..Len(c.ix.u) : c.v[i] = b.v[CHOOSE k \in 1..Len(b.ix.u) : b.ix.u[k] = ToWall(x.to, c.ix.u[i])]
       /\ LET e == ForceAware(b.ix, b.v, x.tz, TRUE) IN x.tz # "none" =>                  \* and back
             e.ix.u = ix.u /\ \A i \in 1..Len(v) : e.v[i] = v[i] \/ Cardinality(InstantsAt(x.tz, ToWall(x.tz, ix.u[i]))) = 2
       /\ (x.tz # "none" /\ d.t = "ok") => d.ix.u = ix.u /\ d.v = v                       \* on the universal time axis nothing moves
       /\ (x.tz # "none" /\ x.f = "h" /\ x.tz # "Asia/Kolkata" /\ x.to # "Asia/Kolkata") => d.t = "ok"

(* ------------------------------- C27: peak ------------------------------- *)
PeakDefs == {d \in {[l |-> l, r |-> r, wdg |-> g, wd |-> w] : l \in {-1, 28800, 9000, 70200}, r \in {-1, 72000, 9900}, g \in BOOLEAN, w \in {<<>>, <<6, 7>>, <<7>>, <<1, 2, 3, 4, 5, 6, 7>>}} : (d.wdg \/ d.wd = <<>>)}
PeakIn == {[d |-> d, tz |-> tz, day |-> y] : d \in PeakDefs, tz \in ZoneTzs \cup {"none"}, y \in {<<2023, 3, 26>>, <<2023, 10, 29>>, <<2023, 3, 12>>, <<2023, 11, 5>>, <<2024, 2, 28>>}}
PeakLaws == (Given /\ DefOk(x.d)) =>
    LET d == x.d  tz == x.tz
        a == At(tz, x.day[1], x.day[2], x.day[3], 0)  b == At(tz, x.day[1], x.day[2], x.day[3] + 1, 0)  c == At(tz, x.day[1], x.day[2], x.day[3] + 2, 0)
        m == a + 9000
        grid == CASE Grain(d) = 3 -> "D" [] Grain(d) = 2 -> "h" [] OTHER -> "15min"
        us == Periods(grid, tz, a, c)
        pk == {u \in RangeSet(us) : IsPeak(d, tz, u)}
    IN /\ PeakSecs(d, tz, a, c) = PeakSecs(d, tz, a, b) + PeakSecs(d, tz, b, c)
       /\ PeakSecs(d, tz, a, b) = PeakSecs(d, tz, a, m) + PeakSecs(d, tz, m, b)
       /\ 0 <= PeakSecs(d, tz, a, c) /\ PeakSecs(d, tz, a, c) <= c - a
       /\ PeakSecs(d, tz, a, c) + PartSecs(d, tz, "offpeak", a, c) = PartSecs(d, tz, "base", a, c)
       \* the duration is that of the periods that are marked as peak
       /\ PeakSecs(d, tz, a, c) = (IF grid = "D" THEN (IF a \in pk THEN b - a ELSE 0) + (IF b \in pk THEN c - b ELSE 0) ELSE Cardinality(pk) * Freqs[grid].sec)
       \* every period is as the whole of it: its parts are of the same kind
       /\ \A u \in RangeSet(us) : PeakSecs(d, tz, u, Right(grid, tz, u)) \in {0, Right(grid, tz, u) - u}

(* -------------------- C15, C16: products of a daily profile -------------- *)
\* a profile: values repeat; part of January, and February or March (with a clock change)
WeekEnd == [l |-> -1, r |-> -1, wdg |-> TRUE, wd |-> <<6, 7>>]
ProdIx == {ZoneIx("D", "Europe/Berlin", d, n) : d \in {<<2023, 2, 27>>, <<2023, 3, 1>>, <<2023, 9, 30>>}, n \in {40, 63}}
Vecs3 == {<<I(2), I(-3), <<1, 2>> >>, <<I(0), I(4)>>, <<I(1), I(0), I(-1), I(5), I(2)>>}
ProdIn == {[ix |-> ix, q |-> q, p |-> p] : ix \in ProdIx, q \in Vecs3, p \in Vecs3}
Cyc(v, n) == [i \in 1..n |-> v[((i - 1) % Len(v)) + 1]]
ProfileLine == LET n == Len(x.ix.u)  q == Cyc(x.q, n)  p == Cyc(x.p, n)  dur == DurH(x.ix.f, x.ix.tz, x.ix.u) IN
    Flat("all", x.ix, TLCEval([q |-> q, w |-> Map2(RDiv, q, dur), p |-> p, r |-> Map2(RMul, q, p)]))
PoLaws == Given =>
    LET L == TLCEval(ProfileLine)  w == TLCEval(PoSpec(L, WeekEnd, "MS"))  gs == TLCEval(Products(L, "MS"))
        tot(col, g) == RSum(SubSeq(L.c[col], g.i, g.j))
        dur == DurOf(L)
    IN /\ gs # <<>> /\ Len(w) = 2 * Len(gs)
       /\ \A k \in 1..Len(gs) : LET P == w[2 * k - 1].c  O == w[2 * k].c  g == gs[k] IN
            /\ RAdd(P.q, O.q) = tot("q", g) /\ RAdd(P.r, O.r) = tot("r", g)                 \* every hour is in exactly one part
            /\ RAdd(P.duration, O.duration) = RSum(SubSeq(dur, g.i, g.j))
            /\ P.duration = Q(PeakSecs(WeekEnd, L.tz, L.u[g.i], Right("D", L.tz, L.u[g.j])), 3600)
            /\ \A z \in {P, O} : RMul(z.w, z.duration) = z.q /\ (~IsZero(z.q) => RMul(z.p, z.q) = z.r)
HedgeLaws == Given =>
    LET L == TLCEval(ProfileLine)  n == Len(x.ix.u)  P == Flat("pri", x.ix, [p |-> TLCEval(Cyc(Rot(x.p), n))])
        dur == TLCEval(DurOf(L))
        H(how) == HedgeSpec(L, P, [f |-> "MS", how |-> how, pk |-> FALSE, d |-> NoPeak])
        gs == TLCEval(Products(L, "MS"))
        off == gs[1].i - 1
        rows(g) == [k \in 1..(g.j - g.i + 1) |-> g.i + k - 1]
        sum(f(_), g) == RSum([k \in 1..(g.j - g.i + 1) |-> f(g.i + k - 1)])
    IN \A how \in {"vol", "val"} : LET h == TLCEval(H(how)) IN
         /\ h.s = "flat" /\ h.k = "all" /\ Len(h.u) = gs[Len(gs)].j - off /\ h.u[1] = L.u[gs[1].i]
         /\ \A k \in 1..Len(gs) : LET g == gs[k]
                ew(i) == RMul(L.c.w[i], dur[i])  eh(i) == RMul(h.c.w[i - off], dur[i])
                pw(i) == RMul(P.c.p[i], ew(i))  ph(i) == RMul(P.c.p[i], eh(i))
                pp(i) == RMul(P.c.p[i], dur[i])
                unk == \E i \in g.i..g.j : h.c.w[i - off] \in {UNK, NaN} \/ h.c.p[i - off] = UNK
            IN unk \/
               /\ \A i \in g.i..g.j : h.c.w[i - off] = h.c.w[g.i - off] /\ h.c.p[i - off] = h.c.p[g.i - off]      \* flat
               /\ RMul(h.c.p[g.i - off], sum(LAMBDA i : dur[i], g)) = sum(pp, g)
               /\ how = "vol" => sum(eh, g) \in {sum(ew, g), UNK}
               /\ how = "val" => (IsZero(sum(pp, g)) \/ UNK \in {sum(ph, g), sum(pw, g)} \/ sum(ph, g) = sum(pw, g))

(* ----------------------- C28: base, peak and offpeak --------------------- *)
BpoDefs == {[l |-> 28800, r |-> 72000, wdg |-> FALSE, wd |-> <<>>], WeekEnd, [l |-> 9000, r |-> -1, wdg |-> TRUE, wd |-> <<7>>]}
BpoIx == {Sp("MS", "Europe/Berlin", 2023, 3, 1, 0, 1), Sp("MS", "none", 2024, 2, 1, 21600, 1), Sp("D", "Europe/Berlin", 2023, 10, 29, 0, 1), Sp("D", "none", 2024, 2, 28, 0, 1), Sp("QS-JAN", "America/New_York", 2023, 10, 1, 0, 1)}
BpoIn == {[d |-> d, ix |-> ix, a |-> I(a), b |-> I(b), sum |-> s] : d \in BpoDefs, ix \in BpoIx, a \in {0, 30, -5}, b \in {0, 7, 30}, s \in BOOLEAN}
BpoLaws == Given =>
    LET third(c) == Third(x.d, x.ix, c, x.sum, 1)
        from == [po |-> third([peak |-> <<x.a>>, offpeak |-> <<x.b>>]), bp |-> third([base |-> <<x.a>>, peak |-> <<x.b>>]), bo |-> third([base |-> <<x.a>>, offpeak |-> <<x.b>>])]
        a == x.ix.u[1]  b == Right(x.ix.f, x.ix.tz, a)
        P == Q(PeakSecs(x.d, x.ix.tz, a, b), 3600)  B == Q(b - a, 3600)  O == RSub(B, P)
        known(r) == \A k \in DOMAIN r : Fin(r[k])
    IN \A k \in DOMAIN from : LET r == TLCEval(from[k]) IN known(r) =>
         /\ IF x.sum THEN r.base = RAdd(r.peak, r.offpeak) ELSE RMul(r.base, B) = RAdd(RMul(r.peak, P), RMul(r.offpeak, O))      \* no arbitrage
         /\ (~IsZero(P) /\ ~IsZero(O)) =>                                                                           \* any two give the same third
               third([peak |-> <<r.peak>>, offpeak |-> <<r.offpeak>>]) = r /\ third([base |-> <<r.base>>, peak |-> <<r.peak>>]) = r
               /\ third([base |-> <<r.base>>, offpeak |-> <<r.offpeak>>]) = r
         /\ (~x.sum /\ r.peak = r.offpeak) => r.base = r.peak

(* --------------------------- C29: other years ---------------------------- *)
Months(y, m, n) == [k \in 1..n |-> <<y + ((m + k - 2) \div 12), ((m + k - 2) % 12) + 1>>]
YearIn == {[t |-> "months", s |-> Months(2021, m, n), g |-> Months(y, k, l)] : m \in {1, 7}, n \in {3, 12, 18, 30}, y \in {2021, 2022, 2030}, k \in {1, 4}, l \in {1, 12, 15, 27}}
          \cup {[t |-> "days", tz |-> tz, a |-> a, b |-> b] : tz \in {"none", "Europe/Berlin"}, a \in {<<2023, 3>>, <<2024, 2>>, <<2022, 10>>, <<2023, 2>>}, b \in {<<2023, 3>>, <<2024, 3>>, <<2026, 10>>, <<2024, 2>>, <<2021, 2>>}}
Hols == << [y |-> 2023, m |-> 3, d |-> 8, n |-> "A"], [y |-> 2024, m |-> 3, d |-> 8, n |-> "A"], [y |-> 2024, m |-> 2, d |-> 14, n |-> "B"], [y |-> 2021, m |-> 2, d |-> 15, n |-> "C"] >>
DaysInMon(tz, ym) == Periods("D", tz, At(tz, ym[1], ym[2], 1, 0), At(tz, ym[1] + ym[2] \div 12, (ym[2] % 12) + 1, 1, 0))
YearLaws == Given =>
    IF x.t = "months"
    THEN LET m == TLCEval(MonthMap(x.s, x.g))  used(s) == Cardinality({t \in 1..Len(x.g) : m[t] = s}) IN
         /\ \A t \in 1..Len(x.g) : m[t] = 0 <=> ~\E s \in 1..Len(x.s) : x.s[s][2] = x.g[t][2]
         /\ \A t \in 1..Len(x.g) : m[t] # 0 => x.s[m[t]][2] = x.g[t][2]                                      \* the same name
         /\ \A t \in 1..Len(x.g) : (\E s \in 1..Len(x.s) : x.s[s] = x.g[t]) => x.s[m[t]] = x.g[t]                \* itself, if possible
         /\ (RangeSet(x.s) \cap RangeSet(x.g) = {}) => \A s1, s2 \in 1..Len(x.s) : x.s[s1][2] = x.s[s2][2] => AbsI(used(s1) - used(s2)) <= 1     \* evenly
    ELSE LET su == TLCEval(DaysInMon(x.tz, x.a))  tu == TLCEval(DaysInMon(x.tz, x.b))
             si == TLCEval([i \in 1..Len(su) |-> DayInfo(x.tz, su[i], Hols)])  ti == TLCEval([i \in 1..Len(tu) |-> DayInfo(x.tz, tu[i], Hols)])
             m == TLCEval(DayMap(ti, si))
             used(s) == Cardinality({t \in 1..Len(tu) : m[t] = s})
             work(i) == ~i.dst /\ i.hol = ""
         IN /\ \A t \in 1..Len(tu) : m[t] # 0 =>
                  /\ ti[t].dst = si[m[t]].dst
                  /\ work(ti[t]) => work(si[m[t]]) /\ si[m[t]].wd = ti[t].wd
                  /\ (~ti[t].dst /\ ~work(ti[t])) => (si[m[t]].hol # "" \/ si[m[t]].wd = 7)
            /\ \A s1, s2 \in 1..Len(su) : (work(si[s1]) /\ work(si[s2]) /\ si[s1].wd = si[s2].wd /\ si[s1].wd # 7) => AbsI(used(s1) - used(s2)) <= 1
            /\ x.a = x.b => \A t \in 1..Len(tu) : m[t] = t
            /\ \A t \in 1..Len(tu) : (work(ti[t]) /\ m[t] = 0) => ~\E s \in 1..Len(su) : work(si[s]) /\ si[s].wd = ti[t].wd
=============================================================================
