------------------------------- MODULE Worlds -------------------------------
(***************************************************************************)
(* Small calendars for the model-checked systems: month of different        *)
(* lengths, clock changes in both directions, gas days, leap days, and the  *)
(* frequencies each of them may be resampled to.                            *)
(***************************************************************************)
EXTENDS LineOps

At(tz, y, m, d, sod) == AtDay(tz, DayNo(y, m, d), sod)
Ix(f, tz, u, k) == [f |-> f, tz |-> tz, u |-> TLCEval([i \in 1..k |-> Shift(f, tz, u, i - 1)])]
\* A world: an index of up to four blocks; a block is what may be selected: a period, or all (quarter)hours of a day.
Plain4(f, tz, u) == [ix |-> Ix(f, tz, u, 4), b |-> <<1, 2, 3, 4, 5>>]
Days(f, tz, u, ks) == [ix |-> Ix(f, tz, u, ks[1] + ks[2]), b |-> <<1, ks[1] + 1, ks[1] + ks[2] + 1>>]
World == [
    leap    |-> Plain4("MS", "none", At("none", 2024, 1, 1, 0)),
    spring  |-> Plain4("D", "Europe/Berlin", At("Europe/Berlin", 2023, 3, 25, 0)),
    gasday  |-> Plain4("D", "Europe/Berlin", At("Europe/Berlin", 2023, 10, 28, 21600)),
    quarter |-> Plain4("QS-JAN", "Europe/London", At("Europe/London", 2023, 10, 1, 21600)),
    months  |-> Plain4("MS", "America/New_York", At("America/New_York", 2023, 2, 1, 0)),
    years   |-> Plain4("YS-JAN", "Asia/Kolkata", At("Asia/Kolkata", 2023, 1, 1, 0)),
    winter  |-> Plain4("MS", "Europe/Berlin", At("Europe/Berlin", 2023, 12, 1, 21600)),
    autumn  |-> Days("h", "Europe/Berlin", At("Europe/Berlin", 2023, 10, 29, 0), <<25, 24>>),
    gashour |-> Days("h", "Europe/Berlin", At("Europe/Berlin", 2023, 3, 25, 21600), <<23, 24>>),
    fourth  |-> Days("15min", "none", At("none", 2024, 2, 28, 0), <<96, 96>>),
    fiscal  |-> Plain4("YS-APR", "Europe/London", At("Europe/London", 2023, 4, 1, 0)),
    trimest |-> Plain4("QS-FEB", "Europe/Berlin", At("Europe/Berlin", 2023, 8, 1, 21600)) ]
Blocks(c) == Len(World[c].b) - 1
BlockIx(c, r) == LET w == World[c]  lo == IF r[1] > Blocks(c) THEN Blocks(c) ELSE r[1]  hi == IF r[2] > Blocks(c) THEN Blocks(c) ELSE r[2]
                 IN [w.ix EXCEPT !.u = SubSeq(@, w.b[lo], w.b[hi + 1] - 1)]
CutsOf(c) == {World[c].ix.u[World[c].b[i]] : i \in 2..Blocks(c)}
Grains(f) == CASE f = "15min" -> {"15min", "h"} [] f = "h" -> {"h", "15min", "D"} [] f = "D" -> {"D", "h", "MS"} [] f = "MS" -> {"MS", "D", "QS"}
               [] f = "QS-JAN" -> {"QS", "MS", "YS"} [] f = "YS-JAN" -> {"YS", "QS"}
               [] f = "YS-APR" -> {"YS-APR", "QS", "YS-JAN", "QS-APR"} [] f = "QS-APR" -> {"QS", "MS", "YS-JUL"}
               [] f = "QS-FEB" -> {"QS-FEB", "MS", "YS-FEB", "QS-MAR", "YS-JAN"} [] f \in {"YS-FEB", "YS-JUL", "QS-MAR"} -> {f}
\* The result of resampling X stays small enough to explore.
Fan(f) == CASE f = "15min" -> 1 [] f = "h" -> 4 [] f = "D" -> 24 [] f = "MS" -> 31 [] f \in {"QS-JAN", "QS-FEB", "QS-MAR", "QS-APR"} -> 3 [] f \in {"YS-JAN", "YS-FEB", "YS-APR", "YS-JUL"} -> 4
Small(X, f) == IF Rank(NormF(f)) >= Rank(X.f) THEN Len(X.u) <= 130 ELSE Len(X.u) * Fan(X.f) <= 130
GrainNames(X) == {g \in Grains(X.f) : Small(X, g)}
GrainsOf(X) == {NormF(g) : g \in GrainNames(X)}
=============================================================================
