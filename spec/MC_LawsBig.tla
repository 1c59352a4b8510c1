----------------------------- MODULE MC_LawsBig -----------------------------
(* The laws of MC_Laws over larger universes (the thorough tier). *)
EXTENDS MC_Laws

WavgVals2 == Opt({I(0), I(1), I(-2), I(3), <<1, 2>>, I(-7)})
WavgWts2 == {I(0), I(1), I(-1), I(2), <<1, 3>>, <<-5, 2>>}
WavgIn2 == {[v |-> <<a, b, c>>, w |-> <<d, e, f>>] : a \in WavgVals2, b \in WavgVals2, c \in WavgVals2, d \in WavgWts2, e \in WavgWts2, f \in WavgWts2}
FillIn2 == {[x |-> ax, v |-> v, g |-> g] : ax \in FillAxes \cup {<<1, 3, 4, 8, 9>>}, v \in [1..5 -> Opt({I(0), I(3), <<1, 2>>})], g \in 0..5}
IsectIxs2 == UNION {{Sp("D", tz, 2024, 3, d, s, n) : d \in {29, 30, 31}, n \in {1, 2, 3, 35}} \cup {Sp("MS", tz, 2024, m, 1, s, n) : m \in {3, 4}, n \in {1, 2}}
                       \cup {Sp("QS-JAN", tz, 2024, 4, 1, s, 1)} \cup (IF s = 0 THEN {Sp("h", tz, 2024, 3, 31, 0, 24)} ELSE {})
                   : tz \in {"none", "Europe/Berlin", "Asia/Kolkata"}, s \in {0, 21600}}
IsectIn2 == {[a |-> a, b |-> b, igf |-> i, igt |-> j, igs |-> k] : a \in IsectIxs2, b \in IsectIxs2, i \in BOOLEAN, j \in BOOLEAN, k \in BOOLEAN}
ZoneIn2 == {[f |-> f, tz |-> tz, d |-> d, n |-> n, to |-> to] : f \in {"D", "h", "15min"}, tz \in Zones, d \in ZoneDays, n \in {1, 2, 3}, to \in Zones \ {"none"}}
PeakIn2 == {[d |-> d, tz |-> tz, day |-> <<y, m, e>>] : d \in PeakDefs, tz \in ZoneTzs \cup {"none"}, y \in {2023, 2024}, m \in {3, 10, 11}, e \in 1..31 \ {31}}
YearIn2 == {[t |-> "months", s |-> Months(2021, m, n), g |-> Months(y, k, l)] : m \in 1..12, n \in {3, 12, 18, 30}, y \in 2019..2023, k \in {1, 4, 12}, l \in {1, 12, 15, 27}}
           \cup {[t |-> "days", tz |-> tz, a |-> <<y, m>>, b |-> <<z, k>>] : tz \in {"none", "Europe/Berlin"}, y \in {2022, 2024}, z \in {2021, 2024, 2026}, m \in {2, 3, 10}, k \in {2, 3, 10}}
=============================================================================
