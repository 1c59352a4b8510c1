------------------------------ MODULE MC_Time ------------------------------
(***************************************************************************)
(* A clock that is moved by the library's calls on timestamps: from a set   *)
(* of critical starting stamps (year, quarter and month ends, leap days,    *)
(* the days on which daylight-saving time begins and ends) any sequence of  *)
(* floor / ceil / right / shift calls.  The invariants are the properties   *)
(* that delivery periods must have (C20, C21, C22).  In simulation mode the *)
(* calls are kept and printed as a script for the implementation.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Cal

CONSTANTS Tzs, Fs, Keep, Depth
VARIABLES tz, sod, u, n, script
vars == <<tz, sod, u, n, script>>

Sods == {0, 6 * 3600, 16200, 18 * 3600}
Days == {DayNo(2024, 2, 29), DayNo(2023, 12, 31), DayNo(2024, 1, 1), DayNo(2023, 3, 26), DayNo(2023, 10, 29), DayNo(2024, 3, 10),
         DayNo(2024, 11, 3), DayNo(2023, 4, 1), DayNo(2023, 10, 1), DayNo(2022, 6, 15), DayNo(2025, 4, 6), DayNo(2025, 10, 5)}
Times == {0, 1, 900, 6 * 3600 - 1, 6 * 3600, 16200, 86399, 3600, 5400, 7200, 9000, 10800, 11700}

Init == tz = "none" /\ sod = 0 /\ u = 0 /\ n = -1 /\ script = <<>>
Start == /\ n = -1 /\ n' = 0 /\ script' = <<>>
         /\ tz' \in Tzs /\ sod' \in Sods
         /\ \E d \in Days, t \in Times : u' \in InstantsAt(tz', d * DAY + t)

Note(r) == script' = IF Keep THEN Append(script, r) ELSE script
Step(v, r) == /\ n >= 0 /\ n < Depth /\ n' = n + 1 /\ u' = v /\ Note(r) /\ UNCHANGED <<tz, sod>>
B == [tz |-> tz, u |-> u]
Walk == \E f \in Fs :
    \/ \E k \in {-1, 0, 2} : Step(Shift(f, tz, Floor(f, tz, sod, u), k), B @@ [op |-> "floor", f |-> f, n |-> k, sod |-> sod])
    \/ \E k \in {-1, 0, 2} : Step(Shift(f, tz, Ceil(f, tz, sod, u), k), B @@ [op |-> "ceil", f |-> f, n |-> k, sod |-> sod])
    \/ IsBoundary(f, tz, sod, u) /\ Step(Right(f, tz, u), B @@ [op |-> "right", f |-> f])
    \/ IsBoundary(f, tz, sod, u) /\ Step(u, B @@ [op |-> "dur", f |-> f])
    \/ Step(u, B @@ [op |-> "isb", f |-> f, sod |-> sod])
Next == Start \/ Walk
\* Simulation: one random start and one random call per step, so that every behaviour yields one script.
SimStart == /\ n = -1 /\ n' = 0 /\ script' = <<>>
            /\ \E z \in {RandomElement(Tzs)} : \E L \in {RandomElement(Days) * DAY + RandomElement(Times)} :
               \E p \in {RandomElement(Sods)} : \E i \in {RandomElement(InstantsAt(z, L) \cup {ToInstant(z, L)})} :
                  tz' = z /\ sod' = p /\ u' = i
SimWalk ==
    \E f \in {RandomElement(Fs)} : \E k \in {RandomElement({-1, 0, 1, 2})} : \E o \in {RandomElement(1..5)} :
       CASE o = 1 -> Step(Shift(f, tz, Floor(f, tz, sod, u), k), B @@ [op |-> "floor", f |-> f, n |-> k, sod |-> sod])
         [] o = 2 -> Step(Shift(f, tz, Ceil(f, tz, sod, u), k), B @@ [op |-> "ceil", f |-> f, n |-> k, sod |-> sod])
         [] o = 3 /\ IsBoundary(f, tz, sod, u) -> Step(Right(f, tz, u), B @@ [op |-> "right", f |-> f])
         [] o = 4 /\ IsBoundary(f, tz, sod, u) -> Step(u, B @@ [op |-> "dur", f |-> f])
         [] o = 5 \/ (o \in {3, 4} /\ ~IsBoundary(f, tz, sod, u)) -> Step(u, B @@ [op |-> "isb", f |-> f, sod |-> sod])
Spec == Init /\ [][Next]_vars

Emit == Keep /\ n = Depth => PrintT(<<"SCRIPT", ToJson(script)>>)

(* Properties of the design *)
FloorCeil == \A f \in Fs :
    LET a == Floor(f, tz, sod, u)  b == Ceil(f, tz, sod, u)
    IN /\ a <= u /\ u <= b
       /\ IsBoundary(f, tz, sod, a) /\ IsBoundary(f, tz, sod, b)
       /\ IsBoundary(f, tz, sod, u) <=> (a = u)
       /\ IsBoundary(f, tz, sod, u) <=> (b = u)
       /\ a # u => b = Right(f, tz, a)                   \* adjacent boundaries
       /\ Floor(f, tz, sod, b - 1) = (IF a = u THEN Floor(f, tz, sod, u - 1) ELSE a)
       /\ Shift(f, tz, Shift(f, tz, a, 3), -3) = a
\* Periods of a longer frequency consist of whole periods of each frequency that tiles them.
Nesting == \A f, g \in Fs : Tiles(f, g) =>
    LET a == Floor(f, tz, sod, u)  IN Rank(g) <= 2 \/ (IsBoundary(g, tz, sod, a) /\ IsBoundary(g, tz, sod, Right(f, tz, a)))
\* Each instant lies in exactly one period, and durations add up.
Partition == \A f, g \in Fs : (Tiles(f, g) /\ Rank(f) <= 5 /\ Rank(f) - Rank(g) <= 1 /\ (IsShort(g) => sod % 3600 = 0)) =>
    LET a == Floor(f, tz, sod, u)  b == Right(f, tz, a)  ps == Periods(g, tz, a, b)
    IN /\ \A i \in 1..(Len(ps) - 1) : Right(g, tz, ps[i]) = ps[i + 1]
       /\ Len(ps) > 0 /\ ps[1] = a /\ Right(g, tz, ps[Len(ps)]) = b
ASSUME \A f, g \in Fs : /\ ~(Tiles(f, g) /\ Tiles(g, f) /\ ~SamePeriods(f, g))
                              /\ \A h \in Fs : Tiles(f, g) /\ Tiles(g, h) => Tiles(f, h)
SimSpec == Init /\ [][SimStart \/ SimWalk]_vars
=============================================================================
