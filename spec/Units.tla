-------------------------------- MODULE Units --------------------------------
(***************************************************************************)
(* Quantities (C36).  A quantity is a number and a unit; a unit is a        *)
(* sequence of <<name, power>>; the value behind it is its number times the *)
(* factors of its units, and its dimension the sum of theirs.  Everything   *)
(* the library does with units keeps value and dimension.                   *)
(***************************************************************************)
EXTENDS Plots

\* dimension: <<energy, time, currency, temperature>>; factor to the base units MW*h, h, Eur, degC.
UnitTable == [
    megawatt |-> [d |-> <<1, -1, 0, 0>>, f |-> <<1, 1>>],
    kilowatt |-> [d |-> <<1, -1, 0, 0>>, f |-> <<1, 1000>>],
    gigawatt |-> [d |-> <<1, -1, 0, 0>>, f |-> <<1000, 1>>],
    megawatthour |-> [d |-> <<1, 0, 0, 0>>, f |-> <<1, 1>>],
    kilowatthour |-> [d |-> <<1, 0, 0, 0>>, f |-> <<1, 1000>>],
    gigawatthour |-> [d |-> <<1, 0, 0, 0>>, f |-> <<1000, 1>>],
    tonne_oil_equiv |-> [d |-> <<1, 0, 0, 0>>, f |-> <<1163, 100>>],
    tonne_coal_equiv |-> [d |-> <<1, 0, 0, 0>>, f |-> <<3489, 500>>],
    hour |-> [d |-> <<0, 1, 0, 0>>, f |-> <<1, 1>>],
    minute |-> [d |-> <<0, 1, 0, 0>>, f |-> <<1, 60>>],
    second |-> [d |-> <<0, 1, 0, 0>>, f |-> <<1, 3600>>],
    euro |-> [d |-> <<0, 0, 1, 0>>, f |-> <<1, 1>>],
    kiloeuro |-> [d |-> <<0, 0, 1, 0>>, f |-> <<1000, 1>>],
    megaeuro |-> [d |-> <<0, 0, 1, 0>>, f |-> <<1000000, 1>>],
    eurocent |-> [d |-> <<0, 0, 1, 0>>, f |-> <<1, 100>>],
    euro_per_MWh |-> [d |-> <<-1, 0, 1, 0>>, f |-> <<1, 1>>],
    cent_per_kWh |-> [d |-> <<-1, 0, 1, 0>>, f |-> <<10, 1>>],
    degC |-> [d |-> <<0, 0, 0, 1>>, f |-> <<1, 1>>],
    fraction |-> [d |-> <<0, 0, 0, 0>>, f |-> <<1, 1>>] ]
BaseUnits == {"megawatt", "hour", "euro", "degC"}
RECURSIVE RPow(_, _)
RPow(x, k) == IF k = 0 THEN One ELSE IF k < 0 THEN RDiv(One, RPow(x, 0 - k)) ELSE RMul(x, RPow(x, k - 1))
RECURSIVE UFactor(_)
UFactor(u) == IF u = <<>> THEN One ELSE RMul(RPow(UnitTable[u[1][1]].f, u[1][2]), UFactor(Tail(u)))
RECURSIVE UDim(_)
UDim(u) == IF u = <<>> THEN <<0, 0, 0, 0>>
          ELSE LET r == UDim(Tail(u)) IN [i \in 1..4 |-> u[1][2] * UnitTable[u[1][1]].d[i] + r[i]]
KnownUnits(u) == \A i \in 1..Len(u) : u[i][1] \in DOMAIN UnitTable
NoDim == <<0, 0, 0, 0>>
\* The names of the dimensions the library works with, and their standard units.
NameOf(d) == CASE d = <<1, -1, 0, 0>> -> "w" [] d = <<1, 0, 0, 0>> -> "q" [] d = <<-1, 0, 1, 0>> -> "p" [] d = <<0, 0, 1, 0>> -> "r"
               [] d = <<0, 1, 0, 0>> -> "duration" [] d = <<0, 0, 0, 1>> -> "t" [] d = NoDim -> "nodim" [] OTHER -> "none"
VUnitName(e) == LET n == NameOf(UDim(e.u))
                IN IF n = "none" THEN (IF Err(e.r) THEN "ok" ELSE "unit.name.accepted")
                   ELSE IF ~Ok(e.r) THEN "unit.name.raised" ELSE IF e.r.v # n THEN "unit.name" ELSE "ok"
VNameUnit(e) == IF e.name \notin {"w", "q", "p", "r", "duration", "t", "nodim"} THEN (IF Err(e.r) THEN "ok" ELSE "name.unit.accepted")
                ELSE IF ~Ok(e.r) THEN "name.unit.raised"
                ELSE IF KnownUnits(e.r.v) /\ NameOf(UDim(e.r.v)) = e.name /\ UFactor(e.r.v) = One THEN "ok" ELSE "name.unit"

(* A column: its form, the numbers, the units of each (a plain number: "plain").
   Recorded results: form ("plain", "pint", "object"), numbers, units. *)
PlainForms == {"int", "float", "ints", "floats"}
SameDim(c) == \A i \in 1..Len(c.m) : UDim(c.u[i]) = UDim(c.u[1])
\* Result of turning column c into base units.
DefaultOk(c, r) ==
    IF c.form \in PlainForms
    THEN First(<< <<r.form = "plain", "default.plain">>, <<SeqNear(c.m, r.m), "default.value">> >>)
    ELSE IF SameDim(c) /\ UDim(c.u[1]) = NoDim
    THEN First(<< <<r.form = "plain", "default.nodim">>,
                  <<Len(r.m) = Len(c.m) /\ \A i \in 1..Len(c.m) : Near(RMul(c.m[i], UFactor(c.u[i])), r.m[i]), "default.value">> >>)
    ELSE First(<< <<r.form = (IF SameDim(c) THEN "pint" ELSE "object"), "default.form">>,
                  <<Len(r.m) = Len(c.m) /\ \A i \in 1..Len(r.m) : KnownUnits(r.u[i]) /\ UDim(r.u[i]) = UDim(c.u[i]), "default.dimension">>,
                  <<\A i \in 1..Len(r.m) : \A j \in 1..Len(r.u[i]) : r.u[i][j][1] \in BaseUnits, "default.base">>,
                  <<\A i \in 1..Len(c.m) : Near(RMul(c.m[i], UFactor(c.u[i])), r.m[i]), "default.value">> >>)
RECURSIVE ColsOk(_, _, _, _)
ColsOk(P(_, _), cs, rs, i) == IF i > Len(cs) THEN "ok" ELSE LET v == P(cs[i], rs[i]) IN IF v # "ok" THEN v ELSE ColsOk(P, cs, rs, i + 1)
Columns(e, P(_, _)) == IF ~Ok(e.r) THEN "unit.raised"
                       ELSE IF e.r.v.kind # e.kind THEN "unit.type"
                       ELSE IF e.r.v.names # e.names \/ Len(e.r.v.cols) # Len(e.cols) THEN "unit.columns"
                       ELSE IF ~e.r.v.ix THEN "unit.labels" ELSE ColsOk(P, e.cols, e.r.v.cols, 1)
VDefault(e) == IF e.kind = "other" THEN (IF Err(e.r) THEN "ok" ELSE "default.accepted") ELSE Columns(e, DefaultOk)
VSplit(e) == IF e.kind \in {"other", "frame"} THEN (IF Err(e.r) THEN "ok" ELSE "split.accepted") ELSE Columns(e, DefaultOk)
\* Without objects: quantities of one dimension in one column, in the unit of the first; units given are kept.
AvoidOk(c, r) ==
    IF c.form \in PlainForms
    THEN First(<< <<r.form = "plain", "avoid.plain">>, <<SeqNear(c.m, r.m), "avoid.value">> >>)
    ELSE LET F == UFactor(c.u[1])
         IN First(<< <<r.form = "pint", "avoid.form">>,
                     <<Len(r.m) = Len(c.m) /\ \A i \in 1..Len(r.m) : KnownUnits(r.u[i]) /\ UDim(r.u[i]) = UDim(c.u[1]) /\ UFactor(r.u[i]) = F, "avoid.unit">>,
                     <<\A i \in 1..Len(r.m) : Near(RDiv(RMul(c.m[i], UFactor(c.u[i])), F), r.m[i]), "avoid.value">> >>)
VAvoid(e) == IF e.kind = "other" \/ \E i \in 1..Len(e.cols) : e.cols[i].form = "text" \/ (e.cols[i].form = "objects" /\ ~SameDim(e.cols[i]))
             THEN (IF Err(e.r) THEN "ok" ELSE "avoid.accepted") ELSE Columns(e, AvoidOk)

(* Comparing.  Numbers are equal, or differ by clearly more than the tolerance. *)
NoUnit(c) == c.form \in PlainForms
Cell(c, i) == IF NoUnit(c) THEN c.m[i] ELSE RMul(c.m[i], UFactor(c.u[i]))
CDim(c, i) == IF NoUnit(c) THEN NoDim ELSE UDim(c.u[i])
EqualCols(a, b, nan) ==
    /\ Len(a.m) = Len(b.m)
    /\ \A i \in 1..Len(a.m) : CDim(a, i) = CDim(b, i) /\ (IF IsNaN(a.m[i]) \/ IsNaN(b.m[i]) THEN nan /\ IsNaN(a.m[i]) /\ IsNaN(b.m[i]) ELSE Cell(a, i) = Cell(b, i))
Sized(c) == \A i \in 1..Len(c.m) : ~IsUnk(Cell(c, i))      \* within what the specification can compute
VClose(e) == \* of two series, with or without units
    IF ~Ok(e.r) THEN "close.raised" ELSE IF ~Sized(e.a) \/ ~Sized(e.b) THEN "ok"
    ELSE IF e.r.v # (NoUnit(e.a) = NoUnit(e.b) /\ EqualCols(e.a, e.b, e.nan)) THEN "close.value" ELSE "ok"
VAssert(e) ==  \* assertion that two frames, series or values are equal (passes: ok; AssertionError: "differ")
    LET same == /\ RangeSet(e.an) = RangeSet(e.bn) /\ Len(e.an) = Len(e.bn)
                /\ e.alab = e.blab
                /\ \A i \in 1..Len(e.an) : \A j \in 1..Len(e.bn) : e.an[i] = e.bn[j] => EqualCols(e.as[i], e.bs[j], TRUE)
    IN IF ~Ok(e.r) THEN "assert.raised" ELSE IF \E i \in 1..Len(e.as) : ~Sized(e.as[i]) THEN "ok" ELSE IF \E i \in 1..Len(e.bs) : ~Sized(e.bs[i]) THEN "ok" ELSE IF e.r.v # same THEN "assert.value" ELSE "ok"
VCompatible(e) == \* two indices
    LET same == e.a.f = e.b.f /\ e.a.tz = e.b.tz /\ ToWall(e.a.tz, e.a.u[1]) % DAY = ToWall(e.b.tz, e.b.u[1]) % DAY
    IN IF ~Ok(e.r) THEN "compatible.raised" ELSE IF e.r.v # same THEN "compatible.value" ELSE "ok"

UnitOpNames == {"unitname", "nameunit", "udefault", "usplit", "uavoid", "uclose", "uassert", "icompat"}
UnitVerdict(e) ==
    IF "mut" \in DOMAIN e /\ e.mut # <<>> THEN "unit.mutated"
    ELSE CASE e.op = "unitname" -> VUnitName(e) [] e.op = "nameunit" -> VNameUnit(e) [] e.op = "udefault" -> VDefault(e) [] e.op = "usplit" -> VSplit(e)
           [] e.op = "uavoid" -> VAvoid(e) [] e.op = "uclose" -> VClose(e) [] e.op = "uassert" -> VAssert(e) [] e.op = "icompat" -> VCompatible(e)
=============================================================================
