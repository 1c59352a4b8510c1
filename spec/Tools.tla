-------------------------------- MODULE Tools --------------------------------
(***************************************************************************)
(* Tools on series and tables: weighted averages (C26), gaps (C33),         *)
(* intersections (C23), time zones (C25), standardizing (C24).              *)
(* A frame is a sequence of columns, each a sequence of rationals, one per  *)
(* stamp of its index.                                                      *)
(***************************************************************************)
EXTENDS States

RangeSet(q) == {q[i] : i \in 1..Len(q)}
(* -------------------------- C26: weighted averages ----------------------- *)
\* Without weights: mean of the defined values.
Mean(vs) == LET w == SelectSeq(vs, LAMBDA x : ~IsNaN(x)) IN IF w = <<>> THEN NaN ELSE RDiv(RSum(w), <<Len(w), 1>>)
\* The case that all weights are zero: undefined for a series, the common value (if any) in a table.
WavgSer(vs, ws) == IF \A i \in 1..Len(ws) : IsZero(ws[i]) THEN NaN ELSE Wavg(vs, ws)
\* w: [t |-> "none"] | [t |-> "list", w] | [t |-> "map", k, w]: weights w of the labels k.
WavgOf(vs, w, avg(_, _)) ==
    CASE w.t = "none" -> Mean(vs)
      [] w.t = "list" -> avg(vs, w.w)
      [] w.t = "map" -> avg([i \in 1..Len(w.k) |-> vs[w.k[i]]], w.w)
WOk(n, w) == w.t = "none" \/ (w.t = "list" /\ Len(w.w) = n) \/ (w.t = "map" /\ RangeSet(w.k) \subseteq 1..n)
VWavg(e) ==
    IF ~WOk(Len(e.v), e.w) THEN (IF Err(e.r) THEN "ok" ELSE "wavg.accepted")
    ELSE IF ~Ok(e.r) THEN "wavg.raised"
    ELSE LET w == TLCEval(WavgOf(e.v, e.w, WavgSer))
         IN First(<< <<Near(w, e.r.v.m), "wavg.value">>, <<IsNaN(w) \/ e.r.v.un = e.un, "wavg.unit">> >>)
\* e.v: columns; e.fac: their factors to the default unit e.un; e.axis: 0 (average each column) or 1 (each row).
VWavgDf(e) ==
    LET nc == Len(e.v)  nr == Len(e.v[1])
        val == TLCEval([c \in 1..nc |-> [r \in 1..nr |-> RMul(e.v[c][r], e.fac[c])]])
        row(r) == [c \in 1..nc |-> val[c][r]]
        n == IF e.axis = 0 THEN nr ELSE nc
        good == IF e.w.t = "frame" THEN RangeSet(e.w.rows) \subseteq 1..nr /\ RangeSet(e.w.cols) \subseteq 1..nc ELSE WOk(n, e.w)
        keys == IF e.w.t = "frame" THEN (IF e.axis = 0 THEN e.w.cols ELSE e.w.rows) ELSE IF e.axis = 0 THEN [c \in 1..nc |-> c] ELSE [r \in 1..nr |-> r]
        at(k) ==    \* average with label k
            IF e.w.t # "frame" THEN WavgOf(IF e.axis = 0 THEN val[k] ELSE row(k), e.w, Wavg)
            ELSE IF e.axis = 0
                 THEN LET j == CHOOSE i \in 1..Len(e.w.cols) : e.w.cols[i] = k
                      IN Wavg([i \in 1..Len(e.w.rows) |-> val[k][e.w.rows[i]]], [i \in 1..Len(e.w.rows) |-> e.w.w[j][i]])
                 ELSE LET j == CHOOSE i \in 1..Len(e.w.rows) : e.w.rows[i] = k
                      IN Wavg([i \in 1..Len(e.w.cols) |-> val[e.w.cols[i]][k]], [i \in 1..Len(e.w.cols) |-> e.w.w[i][j]])
    IN IF ~good THEN (IF Err(e.r) THEN "ok" ELSE "wavg.accepted")
       ELSE IF ~Ok(e.r) THEN "wavg.raised"
       ELSE First(<< <<RangeSet(e.r.v.keys) = RangeSet(keys) /\ Len(e.r.v.keys) = Len(keys), "wavg.labels">>,
                     <<e.r.v.keys = keys, "wavg.order">>,
                     <<\A i \in 1..Len(keys) : Near(at(keys[i]), e.r.v.m[i]), "wavg.value">>,
                     <<\A i \in 1..Len(keys) : e.r.v.m[i] # <<0, -1>> => e.r.v.un[i] = (IF e.axis = 0 THEN e.un[keys[i]] ELSE e.un[1]), "wavg.unit">>,
                     <<e.axis = 1 => \A i \in 1..Len(keys) : e.r.v.un[i] = e.r.v.un[1], "wavg.unit.mixed">> >>)

(* ------------------------------- C33: gaps ------------------------------- *)
Lerp(x0, y0, x1, y1, x) == IF y0 = y1 THEN y0 ELSE RAdd(y0, RMul(RSub(y1, y0), Q(x - x0, x1 - x0)))
FillSpec(x, v, maxgap) ==
    LET n == Len(v)
        known == {j \in 1..n : ~IsNaN(v[j])}
        fill(i) == LET bs == {j \in known : j < i}  as == {j \in known : j > i} IN
                   IF bs = {} \/ as = {} THEN NaN
                   ELSE LET b == CHOOSE j \in bs : \A k \in bs : k <= j
                            a == CHOOSE j \in as : \A k \in as : k >= j
                        IN IF a - b - 1 > maxgap THEN NaN ELSE Lerp(x[b], v[b], x[a], v[a], x[i])
    IN [i \in 1..n |-> IF i \in known THEN v[i] ELSE fill(i)]
VFill(e) ==
    IF ~Ok(e.r) THEN "fill.raised"
    ELSE First(<< <<e.r.v.x = e.x, "fill.index">>, <<e.r.v.cols = e.names, "fill.columns">>,
                  <<\A c \in 1..Len(e.v) : SeqNear(FillSpec(e.x, e.v[c], e.maxgap), e.r.v.m[c]), "fill.values">>,
                  <<e.mut = <<>>, "fill.mutates">> >>)

(* --------------------------- C23: intersections -------------------------- *)
\* e.objs: objects [t, ix, v]; flags e.igf, e.igt, e.igs: ignore frequency, time zone, start-of-day.
Longest(fs) == CHOOSE f \in fs : \A g \in fs : Rank(g) <= Rank(f)
IsectSpec(e) ==
    LET n == Len(e.objs)
        ix(i) == e.objs[i].ix
        fs == {ix(i).f : i \in 1..n}
        tzs == {ix(i).tz : i \in 1..n}
        empty == \E i \in 1..n : ix(i).u = <<>>
        sod(i) == IxSod(ix(i))
        sods == {sod(i) : i \in 1..n}
        key(i, u) == ToWall(ix(i).tz, u) - (IF Cardinality(sods) > 1 THEN sod(i) ELSE 0)
        full(i) == IF Cardinality(fs) > 1 THEN TrimSpec(ix(i), Longest(fs)) ELSE ix(i).u
        lo(i) == key(i, full(i)[1])
        hi(i) == key(i, Right(ix(i).f, ix(i).tz, full(i)[Len(full(i))]))
        lows == TLCEval({lo(i) : i \in 1..n})  highs == TLCEval({hi(i) : i \in 1..n})
        a == CHOOSE x \in lows : \A y \in lows : y <= x
        b == CHOOSE x \in highs : \A y \in highs : y >= x
    IN IF n = 0 THEN [t |-> "err"]
       ELSE IF n = 1 THEN [t |-> "ok", u |-> <<ix(1).u>>]
       ELSE IF (Cardinality(fs) > 1 /\ ~e.igf) \/ (Cardinality(tzs) > 1 /\ ~e.igt) THEN [t |-> "err"]
       ELSE IF empty THEN [t |-> "ok", u |-> [i \in 1..n |-> <<>>]]
       ELSE IF Cardinality(sods) > 1 /\ (~e.igs \/ \E f \in fs : IsShort(f)) THEN [t |-> "err"]
       ELSE IF \E i \in 1..n : full(i) = <<>> THEN [t |-> "ok", u |-> [i \in 1..n |-> <<>>]]
       ELSE [t |-> "ok", u |-> [i \in 1..n |-> SelectSeq(ix(i).u, LAMBDA x : a <= key(i, x) /\ key(i, x) < b)]]
\* Values (column by column) at the kept stamps us.
KeepVals(o, us) == LET p == {i \in 1..Len(o.ix.u) : o.ix.u[i] \in RangeSet(us)}
                       first == CHOOSE i \in p : \A j \in p : i <= j
                   IN IF us = <<>> THEN [c \in 1..Len(o.v) |-> <<>>] ELSE [c \in 1..Len(o.v) |-> SubSeq(o.v[c], first, first + Len(us) - 1)]
VIsect(e) ==
    LET w == TLCEval(IsectSpec(e))
        n == Len(e.objs)
        rigid == \E i \in 1..n : e.objs[i].t \in {"line", "state"} /\ w.t = "ok" /\ w.u[i] = <<>>     \* cannot be empty
    IN IF w.t = "err" \/ rigid THEN (IF Err(e.r) THEN "ok" ELSE "isect.accepted")
       ELSE IF ~Ok(e.r) THEN "isect.raised"
       ELSE IF Len(e.r.v) # n THEN "isect.number"
       ELSE First(<< <<\A i \in 1..n : e.r.v[i].t = e.objs[i].t, "isect.type">>,
                     <<\A i \in 1..n : e.r.v[i].ix.u = w.u[i], "isect.stamps">>,
                     <<\A i \in 1..n : e.r.v[i].ix.tz = e.objs[i].ix.tz, "isect.zone">>,
                     <<\A i \in 1..n : NormF(e.r.v[i].ix.f) = NormF(e.objs[i].ix.f), "isect.freq">>,
                     <<\A i \in 1..n : e.r.v[i].name = e.objs[i].name, "isect.name">>,
                     <<\A i \in 1..n : LET k == KeepVals(e.objs[i], w.u[i]) IN
                           Len(k) = Len(e.r.v[i].m) /\ \A c \in 1..Len(k) : SeqNear(k[c], e.r.v[i].m[c]), "isect.values">> >>)

(* ----------------------------- C25: time zones --------------------------- *)
\* A frame is [ix, v] here, v one column.
Fr(ix, v) == [t |-> "ok", ix |-> ix, v |-> v]
Refused == [t |-> "err"]
\* Aware -> agnostic: wall times; a skipped hour repeats the previous hour, of a repeated hour the first is kept.
ToAgnostic(ix, v) ==
    LET n == Len(ix.u)
        wall == [i \in 1..n |-> ToWall(ix.tz, ix.u[i])]
    IN IF ~IsShort(ix.f) THEN Fr([f |-> ix.f, tz |-> "none", u |-> wall], v)
       ELSE LET s == Freqs[ix.f].sec
                out == [i \in 1..((wall[n] - wall[1]) \div s + 1) |-> wall[1] + (i - 1) * s]
                pos(L) == LET is == InstantsAt(ix.tz, L) IN IF is = {} THEN 0 ELSE ((CHOOSE x \in is : \A y \in is : x <= y) - ix.u[1]) \div s + 1
                val(L) == IF pos(L) # 0 THEN v[pos(L)] ELSE v[pos(L - 3600)]
            IN Fr([f |-> ix.f, tz |-> "none", u |-> out], [i \in 1..Len(out) |-> val(out[i])])
\* Agnostic -> aware.
ToAware(ix, v, tz) ==
    LET n == Len(ix.u) IN
    IF ~IsShort(ix.f) THEN Fr([f |-> ix.f, tz |-> tz, u |-> [i \in 1..n |-> ToInstant(tz, ix.u[i])]], v)
    ELSE LET s == Freqs[ix.f].sec
             last == InstantsAt(tz, ix.u[n])
             a == ToInstant(tz, ix.u[1])  b == CHOOSE x \in last : \A y \in last : x >= y
             out == [i \in 1..((b - a) \div s + 1) |-> a + (i - 1) * s]
         IN Fr([f |-> ix.f, tz |-> tz, u |-> out], [i \in 1..Len(out) |-> v[(ToWall(tz, out[i]) - ix.u[1]) \div s + 1]])
\* Same instants seen from another zone: only if these are periods there.
Grid(ix) == Gapless(ix) /\ (IsLong(ix.f) => \A i \in 1..Len(ix.u) : IsBoundary(ix.f, ix.tz, IxSod(ix), ix.u[i]))
Convert(ix, v, tz) == LET o == [ix EXCEPT !.tz = tz] IN IF Grid(o) THEN Fr(o, v) ELSE Refused
ForceAware(ix, v, tz, floating) ==
    IF ix.tz = tz THEN Fr(ix, v)
    ELSE IF ix.tz = "none" THEN ToAware(ix, v, tz)
    ELSE IF ~floating THEN Convert(ix, v, tz)
    ELSE LET b == ToAgnostic(ix, v) IN ToAware(b.ix, b.v, tz)
ForceAgnostic(ix, v) == IF ix.tz = "none" THEN Fr(ix, v) ELSE ToAgnostic(ix, v)
FrameVerdict(e, w, n) ==
    IF w.t = "err" THEN (IF Err(e.r) THEN "ok" ELSE n \o ".accepted")
    ELSE IF ~Ok(e.r) THEN n \o ".raised"
    ELSE First(<< <<e.r.v.ix.u = w.ix.u, n \o ".stamps">>, <<e.r.v.ix.tz = w.ix.tz, n \o ".zone">>,
                  <<NormF(e.r.v.ix.f) = NormF(w.ix.f), n \o ".freq">>,
                  <<\A c \in 1..Len(e.r.v.m) : SeqNear(IF e.copies[c] = 1 THEN w.v ELSE [i \in 1..Len(w.v) |-> RMul(w.v[i], <<e.copies[c], 1>>)], e.r.v.m[c]), n \o ".values">>,
                  <<Len(e.r.v.m) = Len(e.copies), n \o ".columns">>,
                  <<e.r.v.names = e.names, n \o ".names">>,
                  <<e.mut = <<>>, n \o ".mutates">> >>)
\* Converting on the universal time axis, if the periods then do not form a grid: refused, or (pinned by the existing tests, for months) the same stamps in the other zone.
VForce(e) ==
    LET w == TLCEval(IF e.how = "agnostic" THEN ForceAgnostic(e.ix, e.v) ELSE ForceAware(e.ix, e.v, e.tz, e.floating))
        same == [t |-> "ok", ix |-> [e.ix EXCEPT !.tz = e.tz], v |-> e.v]
    IN IF w.t = "err" /\ e.how = "aware" /\ ~e.floating /\ Ok(e.r) /\ IsLong(e.ix.f)
       THEN FrameVerdict(e, same, "force." \o e.how)
       ELSE FrameVerdict(e, w, "force." \o e.how)

(* --------------------------- C24: standardizing -------------------------- *)
\* Frequency of which the stamps are a gapless grid.
Fits(f, tz, u) == LET ix == [f |-> f, tz |-> tz, u |-> u]
                  IN Gapless(ix) /\ (IsLong(f) => \A i \in 1..Len(u) : IsBoundary(f, tz, IxSod(ix), u[i]))
InferFreqs == {"15min", "h", "D", "MS", "QS-JAN", "YS-JAN"}
Infer(tz, u) == {f \in InferFreqs : Fits(f, tz, u)}
StdOk(ix) == WellFormed(ix) /\ IxSod(ix) % 3600 = 0
\* e.given: the frequency is known; otherwise it is to be inferred.  e.how = "walls": the wall times of the (aware) index e.ix were passed.
StdSpec(e) ==
    LET fix(fr) == IF fr.t = "err" THEN fr ELSE IF StdOk(fr.ix) THEN fr ELSE Refused
        force(ix, v) == CASE e.force = "none" -> Fr(ix, v)
                          [] e.force = "agnostic" -> ForceAgnostic(ix, v)
                          [] e.force = "aware" -> IF e.tz = "none" THEN Refused ELSE ForceAware(ix, v, e.tz, e.floating)
        fs == Infer(e.ix.tz, e.ix.u)
    IN IF e.how = "walls" THEN fix(IF e.force = "aware" THEN Fr(e.ix, e.v) ELSE ToAgnostic(e.ix, e.v))
       ELSE IF e.given THEN (IF Fits(e.ix.f, e.ix.tz, e.ix.u) THEN fix(force(e.ix, e.v)) ELSE Refused)
       ELSE IF fs = {} THEN Refused
       ELSE fix(force([e.ix EXCEPT !.f = CHOOSE f \in fs : TRUE], e.v))
VStd(e) == LET w == TLCEval(StdSpec(e))
               v == FrameVerdict(e, w, "std")
           IN IF v # "ok" \/ w.t = "err" THEN v
              ELSE First(<< <<e.r.v.ixname = "ts_left", "std.indexname">>, <<e.r.v.again, "std.idempotent">> >>)

ToolOpNames == {"wavg", "wavgdf", "fill", "isect", "force", "std"}
ToolVerdict(e) == CASE e.op = "wavg" -> VWavg(e) [] e.op = "wavgdf" -> VWavgDf(e) [] e.op = "fill" -> VFill(e) [] e.op = "isect" -> VIsect(e)
                    [] e.op = "force" -> VForce(e) [] e.op = "std" -> VStd(e)
=============================================================================
