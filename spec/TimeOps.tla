------------------------------ MODULE TimeOps ------------------------------
(***************************************************************************)
(* Specification of the library's calls on timestamps, frequencies and      *)
(* delivery-period indices.  TimeVerdict(e) judges one recorded call:       *)
(* "ok", or the name of the violated clause.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rat, Cal

Ok(r) == r.t = "ok"
Err(r) == r.t = "err"
First(cl) ==    \* the first violated clause of a sequence of <<holds, name>>
    LET bad == {i \in 1..Len(cl) : ~cl[i][1]}
    IN IF bad = {} THEN "ok" ELSE cl[CHOOSE i \in bad : \A j \in bad : i <= j][2]

\* Result is the stamp (instant) w in zone tz.
IsStamp(r, tz, w, name) ==
    IF ~Ok(r) THEN name \o ".raised"
    ELSE IF r.v.tz # tz THEN name \o ".zone"
    ELSE IF r.v.u # w THEN name \o ".instant" ELSE "ok"

Sod(e) == IF e.sod < 0 THEN 0 ELSE e.sod

\* Result is the index of frequency f in zone tz with instants us.
IsIndex(r, f, tz, us, name) ==
    IF ~Ok(r) THEN name \o ".raised"
    ELSE IF r.v.u # us THEN name \o ".stamps"
    ELSE IF Len(us) = 0 THEN "ok"
    ELSE IF r.v.tz # tz THEN name \o ".zone"
    ELSE IF r.v.f \notin FreqNames \/ ~SamePeriods(r.v.f, f) THEN name \o ".freq" ELSE "ok"

(* ------------------------------ C20: stamps ------------------------------ *)
VFloor(e) == IsStamp(e.r, e.tz, Shift(e.f, e.tz, Floor(e.f, e.tz, Sod(e), e.u), e.n), "floor")
VCeil(e)  == IsStamp(e.r, e.tz, Shift(e.f, e.tz, Ceil(e.f, e.tz, Sod(e), e.u), e.n), "ceil")
VRight(e) == IsStamp(e.r, e.tz, Right(e.f, e.tz, e.u), "right")
VIsB(e)   == IF ~Ok(e.r) THEN "isboundary.raised"
             ELSE IF e.r.v # IsBoundary(e.f, e.tz, Sod(e), e.u) THEN "isboundary.value" ELSE "ok"
VDur(e)   == IF ~Ok(e.r) THEN "duration.raised"
             ELSE IF e.r.v.unit # "h" THEN "duration.unit"
             ELSE IF ~Near(Q(Duration(e.f, e.tz, e.u), 3600), e.r.v.m) THEN "duration.value" ELSE "ok"
\* the same on an index
VIxRight(e) == IsIndex(e.r, e.ix.f, e.ix.tz, [i \in 1..Len(e.ix.u) |-> Right(e.ix.f, e.ix.tz, e.ix.u[i])], "right.index")
VIxDur(e) == IF ~Ok(e.r) THEN "duration.index.raised"
             ELSE First(<< <<e.r.v.unit = "h", "duration.index.unit">>,
                           <<e.r.v.u = e.ix.u, "duration.index.stamps">>,
                           <<SeqNear([i \in 1..Len(e.ix.u) |-> Q(Duration(e.ix.f, e.ix.tz, e.ix.u[i]), 3600)], e.r.v.m), "duration.index.values">> >>)
\* Quarters or years of which the periods of one do not fall within those of the other.
Neither(f, g) == ~Tiles(f, g) /\ ~Tiles(g, f)
\* Which elements of an index start an f-period (or lie on a boundary of a shorter frequency).
VIxIsB(e) ==
    LET sod == IxSod(e.ix)
        want == [i \in 1..Len(e.ix.u) |->
                   IF Rank(e.f) <= Rank(e.ix.f) /\ ~Neither(e.ix.f, e.f) THEN TRUE
                   ELSE IsBoundary(e.f, e.ix.tz, sod, e.ix.u[i])]
    IN IF ~Ok(e.r) THEN (IF Neither(e.ix.f, e.f) THEN "ok" ELSE "isboundary.index.raised")
       ELSE First(<< <<e.r.v.u = e.ix.u, "isboundary.index.stamps">>, <<e.r.v.b = want, "isboundary.index.values">> >>)

(* ----------------------- C21: trimming, start-of-day --------------------- *)
TrimSpec(ix, f) ==
    LET sp == FullSpan(f, ix.tz, IxSod(ix), ix.u[1], IxEnd(ix))
    IN SelectSeq(ix.u, LAMBDA u : sp[1] <= u /\ Right(ix.f, ix.tz, u) <= sp[2])
VTrim(e) == IsIndex(e.r, e.ix.f, e.ix.tz, TrimSpec(e.ix, e.f), "trim")
VSodGet(e) == IF ~Ok(e.r) THEN "startofday.raised" ELSE IF e.r.v # IxSod(e.ix) THEN "startofday.value" ELSE "ok"
SodSetSpec(ix, sod) ==
    IF IsShort(ix.f)
    THEN LET a == Ceil("D", ix.tz, sod, ix.u[1])  b == Floor("D", ix.tz, sod, IxEnd(ix))
         IN SelectSeq(ix.u, LAMBDA u : a <= u /\ u < b)
    ELSE [i \in 1..Len(ix.u) |-> AtDay(ix.tz, ToWall(ix.tz, ix.u[i]) \div DAY, sod)]
VSodSet(e) == IsIndex(e.r, e.ix.f, e.ix.tz, SodSetSpec(e.ix, e.sod), "startofday.set")
\* e.ix is the left-bound index; the call received the right-bound stamps of the same periods.
VRtl(e) == IF e.known THEN IsIndex(e.r, e.ix.f, e.ix.tz, e.ix.u, "righttoleft")
           ELSE IF ~Ok(e.r) THEN "righttoleft.raised"
           ELSE IF e.r.v.u # e.ix.u THEN "righttoleft.stamps"
           ELSE IF e.r.v.tz # e.ix.tz THEN "righttoleft.zone" ELSE "ok"

(* ----------------------------- C22: frequencies -------------------------- *)
UpDownSpec(f, g) ==    \* source f, target g
    IF SamePeriods(f, g) THEN "0" ELSE IF Tiles(f, g) THEN "1" ELSE IF Tiles(g, f) THEN "-1" ELSE "err"
VUpDown(e) == LET w == UpDownSpec(e.f, e.g)
              IN IF w = "err" THEN (IF Err(e.r) THEN "ok" ELSE "up_or_down.accepted")
                 ELSE IF ~Ok(e.r) THEN "up_or_down.raised"
                 ELSE IF e.r.v # w THEN "up_or_down.value" ELSE "ok"
VExtreme(e) ==   \* e.fs: frequencies; e.which: "longest" | "shortest"
    IF ~Ok(e.r) THEN e.which \o ".raised"
    ELSE LET fs == {e.fs[i] : i \in 1..Len(e.fs)}
             best == IF e.which = "longest" THEN {f \in fs : \A g \in fs : Rank(g) <= Rank(f)}
                     ELSE {f \in fs : \A g \in fs : Rank(g) >= Rank(f)}
         IN IF e.r.v \notin best THEN e.which \o ".value" ELSE "ok"
VLongEnough(e) ==   \* assertion that f is (strictly) as long as g
    LET want == IF e.which = "long" THEN (IF e.strict THEN Rank(e.f) > Rank(e.g) ELSE Rank(e.f) >= Rank(e.g))
                ELSE IF e.which = "short" THEN (IF e.strict THEN Rank(e.f) < Rank(e.g) ELSE Rank(e.f) <= Rank(e.g))
                ELSE Rank(e.f) = Rank(e.g)
    IN IF Ok(e.r) # want THEN "assert_freq." \o e.which ELSE "ok"
VValidFreq(e) == IF Ok(e.r) # e.valid THEN "assert_freq_valid" ELSE "ok"
\* Length of a period as offset: adding it to a period start gives the next start.
VGuess(e) ==    \* stamps of e.ix given without frequency
    IF ~Ok(e.r) THEN "guess.raised"
    ELSE First(<< <<e.r.v.u = e.ix.u, "guess.stamps">>, <<e.r.v.tz = e.ix.tz, "guess.zone">>,
                  <<IF e.can THEN e.r.v.f \in FreqNames /\ SamePeriods(e.r.v.f, e.ix.f)
                    ELSE TRUE, "guess.freq">> >>)

\* Setting the frequency of a frame: possible exactly if its stamps are starts of consecutive periods.
Conforms(f, tz, u) == LET sod == ToWall(tz, u[1]) % DAY
                      IN (IsShort(f) \/ IsBoundary(f, tz, sod, u[1])) /\ \A i \in 1..(Len(u) - 1) : Right(f, tz, u[i]) = u[i + 1]
VSetFreq(e) ==
    IF ~e.dt \/ ~Conforms(e.f, e.ix.tz, e.ix.u) THEN (IF Err(e.r) THEN "ok" ELSE "setfreq.accepted")
    ELSE IF ~Ok(e.r) THEN "setfreq.raised"
    ELSE First(<< <<e.r.v.u = e.ix.u, "setfreq.stamps">>, <<e.r.v.tz = e.ix.tz, "setfreq.zone">>, <<e.r.v.f \in FreqNames /\ SamePeriods(e.r.v.f, e.f), "setfreq.freq">> >>)
\* Frequency of which a period has this length (seconds): for lengths of actual periods, and for lengths that no period has.
Length(f, s) == CASE f = "15min" -> s = 900 [] f = "h" -> s = 3600 [] f = "D" -> s \in {82800, 84600, 86400, 88200, 90000}
                  [] f = "MS" -> \E d \in 28..31 : s \in {86400 * d + k * 1800 : k \in -2..2}
                  [] f = "QS-JAN" -> \E d \in 89..92 : s \in {86400 * d + k * 1800 : k \in -2..2}
                  [] f = "YS-JAN" -> \E d \in 365..366 : s \in {86400 * d + k * 1800 : k \in -2..2}
VFromTdelta(e) ==
    LET F == {f \in {"15min", "h", "D", "MS", "QS-JAN", "YS-JAN"} : Length(f, e.sec)}
    IN IF F # {} THEN (IF ~Ok(e.r) THEN "from_tdelta.raised" ELSE IF e.r.v \in F THEN "ok" ELSE "from_tdelta.value")
       ELSE IF \E k \in -48..48 : \E f \in {"MS", "QS-JAN", "YS-JAN"} : Length(f, e.sec + 3600 * k) THEN "ok"      \* close to a real length
       ELSE IF (e.sec > 82800 /\ e.sec < 90000) THEN "ok" ELSE IF Err(e.r) THEN "ok" ELSE "from_tdelta.accepted"
\* The index in another frequency: the full periods of the other frequency in it.
ChgIx(ix, f) ==
    LET ud == UpDownSpec(ix.f, f) IN
    IF ud = "0" THEN ix.u
    ELSE IF ud = "1" THEN Periods(f, ix.tz, ix.u[1], IxEnd(ix))
    ELSE LET sp == FullSpan(f, ix.tz, IxSod(ix), ix.u[1], IxEnd(ix)) IN Periods(f, ix.tz, sp[1], sp[2])
VChgIx(e) ==
    LET ud == UpDownSpec(e.ix.f, e.f) IN
    IF ud = "err" THEN (IF Err(e.r) THEN "ok" ELSE "asfreq.index.accepted")
    ELSE IF ~Ok(e.r) THEN "asfreq.index.raised"
    ELSE First(<< <<e.r.v.tz = e.ix.tz, "asfreq.index.zone">>,
                  <<e.r.v.u = TLCEval(ChgIx(e.ix, e.f)), "asfreq.index.stamps">>,
                  <<e.r.v.f \in FreqNames /\ SamePeriods(e.r.v.f, e.f), "asfreq.index.freq">> >>)

(* ------------------------------ C30: products ---------------------------- *)
\* Delivery period of the n-th next product, as of (the end of) the trading day of u.
ProductSpec(kind, n, tz, sod, u) ==
    LET dn == ToWall(tz, u) \div DAY        \* trading day; its end lies after the start-of-day
        f == CASE kind = "d" -> "D" [] kind = "m" -> "MS" [] kind = "q" -> "QS-JAN" [] kind = "y" -> "YS-JAN" [] kind = "s" -> "QS-OCT"
        cur == FloorDay(f, dn)
        \* seasons: half years starting in April and October
        mi == LET c == Civil(dn) IN MonthIndex(c[1], c[2])
        scur == DayOfMonthIndex(mi - ((mi - 3) % 6))
        s == IF kind = "s" THEN AddPeriods("MS", scur, 6 * n) ELSE AddPeriods(f, cur, n)
        e == IF kind = "s" THEN AddPeriods("MS", s, 6) ELSE AddPeriods(f, s, 1)
    IN <<AtDay(tz, s, sod), AtDay(tz, e, sod)>>
VProduct(e) ==
    IF ~Ok(e.r) THEN "product.raised"
    ELSE LET w == ProductSpec(e.kind, e.n, e.tz, Sod(e), e.u)
         IN First(<< <<e.r.v.tz = <<e.tz, e.tz>>, "product.zone">>, <<e.r.v.u[1] = w[1], "product.start">>, <<e.r.v.u[2] = w[2], "product.end">> >>)
\* Completing a pair of stamps.  e.l / e.rr: missing, a timestamp, or something from which a timestamp can be made (zone and start-of-day are then those of the call).
Side(e, x) == IF x.t = "ts" THEN [tz |-> x.tz, u |-> x.u]
              ELSE [tz |-> e.tz, u |-> ToInstant(e.tz, x.w + (IF x.w % DAY = 0 /\ e.sod >= 0 THEN e.sod ELSE 0))]
YearOf_(x) == Floor("YS", x.tz, ToWall(x.tz, x.u) % DAY, x.u)
NextYear(e, now) == LET a == Shift("YS", e.tz, Floor("YS", e.tz, IF e.sod < 0 THEN 0 ELSE e.sod, now), 1) IN <<a, Right("YS", e.tz, a)>>
VLeftRight(e) ==
    LET hasl == e.l.t # "none"  hasr == e.rr.t # "none"
        L == Side(e, e.l)  R == Side(e, e.rr)
        tod(x) == ToWall(x.tz, x.u) % DAY
    IN IF hasl /\ hasr /\ (L.tz # R.tz \/ tod(L) # tod(R)) THEN (IF Err(e.r) THEN "ok" ELSE "leftright.accepted")
       ELSE IF ~Ok(e.r) THEN "leftright.raised"
       ELSE IF ~hasl /\ ~hasr
       THEN First(<< <<e.r.v.tz = <<e.tz, e.tz>>, "leftright.zone">>, <<e.r.v.u \in {NextYear(e, e.r.v.now[i]) : i \in 1..2}, "leftright.nextyear">> >>)
       ELSE LET tz == IF hasl THEN L.tz ELSE R.tz
                l == IF hasl THEN L.u ELSE LET y == YearOf_(R) IN IF y = R.u THEN Shift("YS", tz, y, -1) ELSE y
                r == IF hasr THEN R.u ELSE Right("YS", tz, YearOf_(L))
            IN First(<< <<e.r.v.tz = <<tz, tz>>, "leftright.zone">>,
                        <<e.r.v.u = (IF l <= r THEN <<l, r>> ELSE <<r, l>>), "leftright.pair">> >>)
\* Making a timestamp.
VStamp(e) == IF ~Ok(e.r) THEN "stamp.raised"
             ELSE LET x == Side(e, e.l) IN First(<< <<e.r.v.tz = x.tz, "stamp.zone">>, <<e.r.v.u = x.u, "stamp.instant">> >>)

TimeOpNames == {"floor", "ceil", "right", "isb", "dur", "ixright", "ixdur", "ixisb", "trim", "sodget", "sodset", "rtl",
                "updown", "extreme", "longenough", "validfreq", "guess", "product", "leftright", "mkstamp", "setfreq", "fromtd", "chgix"}
TimeVerdict(e) ==
    CASE e.op = "floor" -> VFloor(e) [] e.op = "ceil" -> VCeil(e) [] e.op = "right" -> VRight(e)
      [] e.op = "isb" -> VIsB(e) [] e.op = "dur" -> VDur(e)
      [] e.op = "ixright" -> VIxRight(e) [] e.op = "ixdur" -> VIxDur(e) [] e.op = "ixisb" -> VIxIsB(e)
      [] e.op = "trim" -> VTrim(e) [] e.op = "sodget" -> VSodGet(e) [] e.op = "sodset" -> VSodSet(e) [] e.op = "rtl" -> VRtl(e)
      [] e.op = "updown" -> VUpDown(e) [] e.op = "extreme" -> VExtreme(e) [] e.op = "longenough" -> VLongEnough(e)
      [] e.op = "validfreq" -> VValidFreq(e) [] e.op = "guess" -> VGuess(e)
      [] e.op = "product" -> VProduct(e) [] e.op = "leftright" -> VLeftRight(e) [] e.op = "mkstamp" -> VStamp(e)
      [] e.op = "setfreq" -> VSetFreq(e) [] e.op = "fromtd" -> VFromTdelta(e) [] e.op = "chgix" -> VChgIx(e)
=============================================================================
