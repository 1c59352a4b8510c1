-------------------------------- MODULE Cal --------------------------------
(***************************************************************************)
(* Time axis of the portfolyo specification: civil calendar, time zones     *)
(* with daylight-saving time, frequencies, delivery periods and indices.    *)
(*                                                                          *)
(* An instant is a number of seconds since 2000-01-01T00:00Z ("u").         *)
(* A wall time is a number of seconds since 2000-01-01T00:00 on the clock   *)
(* of the zone ("L").  For zone "none" (time-zone agnostic data) and "UTC"  *)
(* both coincide.                                                           *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC

DAY == 86400

(* ------------------------------ civil dates ------------------------------ *)
\* Day number (0 = 2000-01-01) of a civil date, and back (proleptic Gregorian).
DayNo(y, m, d) ==
    LET yy == IF m <= 2 THEN y - 1 ELSE y
        era == yy \div 400
        yoe == yy - era * 400
        mp == (m + 9) % 12
        doy == (153 * mp + 2) \div 5 + d - 1
        doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
    IN era * 146097 + doe - 730425

Civil(dn) ==   \* <<year, month, day>>
    LET z == dn + 730425
        era == z \div 146097
        doe == z - era * 146097
        yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
        doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
        mp == (5 * doy + 2) \div 153
        d == doy - (153 * mp + 2) \div 5 + 1
        m == IF mp < 10 THEN mp + 3 ELSE mp - 9
        y == yoe + era * 400
    IN <<IF m <= 2 THEN y + 1 ELSE y, m, d>>

Weekday(dn) == ((dn + 5) % 7) + 1         \* 1 = Monday ... 7 = Sunday (2000-01-01 is a Saturday)
IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == IF m = 2 THEN (IF IsLeap(y) THEN 29 ELSE 28)
                   ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
LastSunday(y, m) == LET e == DayNo(y, m, MonthDays(y, m)) IN e - (Weekday(e) % 7)
NthSunday(y, m, n) == LET b == DayNo(y, m, 1) IN b + ((7 - Weekday(b)) % 7) + 7 * (n - 1)

(* ------------------------------- time zones ------------------------------ *)
Zones == {"none", "UTC", "Europe/Berlin", "Europe/London", "America/New_York", "Asia/Kolkata", "Asia/Tokyo", "Australia/Sydney"}
BaseOff(tz) == CASE tz \in {"none", "UTC", "Europe/London"} -> 0
                 [] tz = "Europe/Berlin" -> 3600
                 [] tz = "America/New_York" -> 0 - 18000
                 [] tz = "Asia/Kolkata" -> 19800
                 [] tz = "Asia/Tokyo" -> 32400
                 [] tz = "Australia/Sydney" -> 36000
DstYears == 2008..2044
\* Instants at which summer time begins / ends in year y.
EuDst == [y \in DstYears |-> <<LastSunday(y, 3) * DAY + 3600, LastSunday(y, 10) * DAY + 3600>>]
UsDst == [y \in DstYears |-> <<NthSunday(y, 3, 2) * DAY + 7 * 3600, NthSunday(y, 11, 1) * DAY + 6 * 3600>>]
AuDst == [y \in DstYears |-> <<NthSunday(y, 10, 1) * DAY - 8 * 3600, NthSunday(y, 4, 1) * DAY - 8 * 3600>>]
HasDst(tz) == tz \in {"Europe/Berlin", "Europe/London", "America/New_York", "Australia/Sydney"}
YearOfU(u) == Civil(u \div DAY)[1]
IsSummer(tz, u) ==
    LET y == YearOfU(u)
    IN CASE tz \in {"Europe/Berlin", "Europe/London"} -> EuDst[y][1] <= u /\ u < EuDst[y][2]
         [] tz = "America/New_York" -> UsDst[y][1] <= u /\ u < UsDst[y][2]
         [] tz = "Australia/Sydney" -> u < AuDst[y][2] \/ AuDst[y][1] <= u
Off(tz, u) == IF HasDst(tz) /\ IsSummer(tz, u) THEN BaseOff(tz) + 3600 ELSE BaseOff(tz)
ToWall(tz, u) == IF HasDst(tz) THEN u + Off(tz, u) ELSE u + BaseOff(tz)
\* Instants that show wall time L: none (skipped hour), one, or two (repeated hour).
InstantsAt(tz, L) ==
    IF ~HasDst(tz) THEN {L - BaseOff(tz)}
    ELSE {u \in {L - BaseOff(tz), L - BaseOff(tz) - 3600} : ToWall(tz, u) = L}
\* The (first) instant at wall time L; period starts never lie in a skipped hour.
ToInstant(tz, L) ==
    IF ~HasDst(tz) THEN L - BaseOff(tz)
    ELSE LET c == L - BaseOff(tz) - 3600 IN IF ToWall(tz, c) = L THEN c ELSE L - BaseOff(tz)

(* ------------------------------ frequencies ------------------------------ *)
MonthCodes == <<"JAN","FEB","MAR","APR","MAY","JUN","JUL","AUG","SEP","OCT","NOV","DEC">>
\* rank: order by length.  sec: length if fixed.  mon: length in months.  anc: (one of the) start month(s).
Fixed(rank, s) == [rank |-> rank, sec |-> s, mon |-> 0, anc |-> 1]
Monthly(rank, m, a) == [rank |-> rank, sec |-> 0, mon |-> m, anc |-> a]
Freqs ==
    [f \in {"15min"} |-> Fixed(1, 900)] @@ [f \in {"h"} |-> Fixed(2, 3600)]
    @@ [f \in {"D"} |-> Fixed(3, 0)] @@ [f \in {"MS"} |-> Monthly(4, 1, 1)]
    @@ [f \in {"QS"} |-> Monthly(5, 3, 1)] @@ [f \in {"YS"} |-> Monthly(6, 12, 1)]
    @@ [f \in {"QS-" \o MonthCodes[i] : i \in 1..12} |->
          Monthly(5, 3, CHOOSE i \in 1..12 : f = "QS-" \o MonthCodes[i])]
    @@ [f \in {"YS-" \o MonthCodes[i] : i \in 1..12} |->
          Monthly(6, 12, CHOOSE i \in 1..12 : f = "YS-" \o MonthCodes[i])]
FreqNames == DOMAIN Freqs
Rank(f) == Freqs[f].rank
IsShort(f) == Rank(f) <= 2            \* shorter than daily
IsLong(f) == Rank(f) >= 4             \* longer than daily
\* Same delivery periods (QS and QS-APR denote the same quarters).
SamePeriods(f, g) == Rank(f) = Rank(g) /\
    (Freqs[f].mon = 0 \/ (Freqs[f].anc - Freqs[g].anc) % Freqs[f].mon = 0)
\* Every period of f is a union of periods of g.
Tiles(f, g) ==
    \/ SamePeriods(f, g)
    \/ /\ Rank(f) > Rank(g)
       /\ \/ Rank(g) <= 4
          \/ (Freqs[f].anc - Freqs[g].anc) % Freqs[g].mon = 0

(* ---------------------------- delivery periods --------------------------- *)
MonthIndex(y, m) == y * 12 + (m - 1)
DayOfMonthIndex(mi) == DayNo(mi \div 12, (mi % 12) + 1, 1)
\* First day of the f-period (f daily-or-longer) that contains day dn.
FloorDay(f, dn) ==
    IF Rank(f) = 3 THEN dn
    ELSE LET c == Civil(dn)  mi == MonthIndex(c[1], c[2])
         IN DayOfMonthIndex(mi - ((mi - (Freqs[f].anc - 1)) % Freqs[f].mon))
\* First day of the period n after the one starting at day dn.
AddPeriods(f, dn, n) ==
    IF Rank(f) = 3 THEN dn + n
    ELSE LET c == Civil(dn) IN DayOfMonthIndex(MonthIndex(c[1], c[2]) + n * Freqs[f].mon)
\* "Delivery day" at which wall time L lies, if days start at sod (seconds after midnight).
DDay(L, sod) == (L - sod) \div DAY
AtDay(tz, dn, sod) == ToInstant(tz, dn * DAY + sod)

IsBoundary(f, tz, sod, u) ==
    LET L == ToWall(tz, u)
    IN IF IsShort(f) THEN L % Freqs[f].sec = 0
       ELSE (L - sod) % DAY = 0 /\ FloorDay(f, DDay(L, sod)) = DDay(L, sod)
Floor(f, tz, sod, u) ==
    LET L == ToWall(tz, u)
    IN IF IsShort(f) THEN u - (L % Freqs[f].sec)
       ELSE AtDay(tz, FloorDay(f, DDay(L, sod)), sod)
\* Start of the period that is n periods after the one starting at u.
Shift(f, tz, u, n) ==
    IF IsShort(f) THEN u + n * Freqs[f].sec
    ELSE LET L == ToWall(tz, u)  sod == L % DAY
         IN AtDay(tz, AddPeriods(f, L \div DAY, n), sod)
Right(f, tz, u) == Shift(f, tz, u, 1)
Ceil(f, tz, sod, u) ==
    LET v == Floor(f, tz, sod, u) IN IF v = u THEN u ELSE Right(f, tz, v)
Duration(f, tz, u) == Right(f, tz, u) - u      \* seconds

(* -------------------------------- indices -------------------------------- *)
\* An index is [f, tz, u]: u the ascending sequence of period starts.
IxSod(ix) == ToWall(ix.tz, ix.u[1]) % DAY
IxEnd(ix) == Right(ix.f, ix.tz, ix.u[Len(ix.u)])
\* The n periods of frequency f from instant u on.
RECURSIVE PeriodsTo(_, _, _, _, _)
PeriodsTo(f, tz, u, end, acc) == IF u >= end THEN acc ELSE PeriodsTo(f, tz, Right(f, tz, u), end, Append(acc, u))
\* All periods of f in [a, b), a and b being boundaries.
Periods(f, tz, a, b) ==
    IF a >= b THEN <<>>
    ELSE IF IsShort(f) THEN [i \in 1..((b - a) \div Freqs[f].sec) |-> a + (i - 1) * Freqs[f].sec]
    ELSE LET La == ToWall(tz, a)  sod == La % DAY  da == La \div DAY
             Lb == ToWall(tz, b)  db == Lb \div DAY
         IN IF Rank(f) = 3 THEN [i \in 1..(db - da) |-> AtDay(tz, da + i - 1, sod)]
            ELSE LET ca == Civil(da)  cb == Civil(db)
                     n == (MonthIndex(cb[1], cb[2]) - MonthIndex(ca[1], ca[2])) \div Freqs[f].mon
                 IN [i \in 1..n |-> AtDay(tz, AddPeriods(f, da, i - 1), sod)]
\* Well-formed index: gapless, on boundaries, full days.
Gapless(ix) == \A i \in 1..(Len(ix.u) - 1) : Right(ix.f, ix.tz, ix.u[i]) = ix.u[i + 1]
WellFormed(ix) ==
    /\ Len(ix.u) > 0
    /\ Gapless(ix)
    /\ LET sod == IxSod(ix)
       IN /\ \A i \in {1, Len(ix.u)} : IsBoundary(ix.f, ix.tz, sod, ix.u[i])
          /\ IsShort(ix.f) => /\ sod % 3600 = 0
                              /\ IsBoundary("D", ix.tz, sod, IxEnd(ix))
\* The part of the time line covered by the full f-periods inside [a, b).
FullSpan(f, tz, sod, a, b) ==
    LET s == Ceil(f, tz, sod, a)  e == Floor(f, tz, sod, b)
    IN IF s < e THEN <<s, e>> ELSE <<s, s>>
=============================================================================
