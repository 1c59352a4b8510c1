------------------------------- MODULE Lines -------------------------------
(***************************************************************************)
(* Portfolio lines: what they are, how they are created, and what every     *)
(* operation on them yields.                                                *)
(*                                                                          *)
(* flat line    [s |-> "flat", k, f, tz, u, c]                              *)
(* nested line  [s |-> "nest", k, f, tz, u, c, ch]   ch: name -> line       *)
(* k: "vol", "pri", "rev", "all".  f, tz, u: the index (Cal.tla).           *)
(* c: column -> sequence of rationals; columns of "vol" w,q; "pri" p;       *)
(* "rev" r; "all" w,q,p,r.                                                  *)
(* Bad marks a refused operation; None the absent operand; a timeseries of  *)
(* dimensionless values is [s |-> "ser", f, tz, u, m].                      *)
(***************************************************************************)
EXTENDS TimeOps

Bad == [s |-> "err"]
None == [s |-> "none"]
\* Refused or not: data that agree up to rounding only, or whose values overflow the arithmetic used here.
Open(l) == [s |-> "open", v |-> l]
IsOpen(x) == x.s = "open"
IsBad(x) == x.s = "err"
IsLine(x) == x.s \in {"flat", "nest"}
LineFreqs == FreqNames \ {"QS", "YS"}
ColsOf(k) == CASE k = "vol" -> {"w", "q"} [] k = "pri" -> {"p"} [] k = "rev" -> {"r"} [] k = "all" -> {"w", "q", "p", "r"}
UnitName == [w |-> "MW", q |-> "MWh", p |-> "Eur/MWh", r |-> "Eur"]
MaxI(a, b) == IF a >= b THEN a ELSE b
MinI(a, b) == IF a <= b THEN a ELSE b
Map2(op(_, _), x, y) == [i \in 1..Len(x) |-> op(x[i], y[i])]

DurH(f, tz, u) == [i \in 1..Len(u) |-> Q(Duration(f, tz, u[i]), 3600)]
\* Well-formed index of a line (C24).
LineIxOk(ix) == ix.f \in LineFreqs /\ WellFormed(ix) /\ IxSod(ix) % 3600 = 0
CompatIx(a, b) == a.f = b.f /\ a.tz = b.tz /\ IxSod(a) = IxSod(b)
Common(u1, u2) == LET lo == MaxI(u1[1], u2[1])  hi == MinI(u1[Len(u1)], u2[Len(u2)])
                  IN SelectSeq(u1, LAMBDA x : lo <= x /\ x <= hi)
\* 0-based position of instant a on the grid of the index.
PosAt(ix, a) ==
    IF IsShort(ix.f) THEN (a - ix.u[1]) \div Freqs[ix.f].sec
    ELSE LET d0 == ToWall(ix.tz, ix.u[1]) \div DAY  d1 == ToWall(ix.tz, a) \div DAY
         IN IF Rank(ix.f) = 3 THEN d1 - d0
            ELSE LET c0 == Civil(d0)  c1 == Civil(d1)
                 IN (MonthIndex(c1[1], c1[2]) - MonthIndex(c0[1], c0[2])) \div Freqs[ix.f].mon

(* ------------------------------ construction ----------------------------- *)
Flat(k, ix, c) == [s |-> "flat", k |-> k, f |-> ix.f, tz |-> ix.tz, u |-> ix.u, c |-> c]
Price0(q, r) == Map2(RDiv, r, q)
\* Sum over the children (a non-empty set of names) of column x.
RECURSIVE SumCh(_, _, _)
SumCh(ch, names, x) ==
    LET n == CHOOSE m \in names : TRUE
    IN IF names = {n} THEN ch[n].c[x] ELSE Map2(RAdd, ch[n].c[x], SumCh(ch, names \ {n}, x))
\* Nested line of children that share kind and index (C03).
Nest(ch) ==
    LET names == DOMAIN ch
        a == ch[CHOOSE m \in names : TRUE]
        S(x) == SumCh(ch, names, x)
        c == CASE a.k = "vol" -> [w |-> S("w"), q |-> S("q")]
               [] a.k = "pri" -> [p |-> S("p")]
               [] a.k = "rev" -> [r |-> S("r")]
               [] a.k = "all" -> LET q == S("q")  r == S("r") IN [w |-> S("w"), q |-> q, p |-> Price0(q, r), r |-> r]
    IN [s |-> "nest", k |-> a.k, f |-> a.f, tz |-> a.tz, u |-> a.u, c |-> c, ch |-> ch]
NestOrBad(ch) == IF \E n \in DOMAIN ch : ~IsLine(ch[n]) THEN Bad ELSE Nest(ch)

\* Rows i..j of a line; the rows at the (contiguous, contained) instants us.
RECURSIVE CutRows(_, _, _)
CutRows(L, i, j) ==
    LET l == [L EXCEPT !.u = SubSeq(@, i, j), !.c = [x \in DOMAIN @ |-> SubSeq(@[x], i, j)]]
    IN IF L.s = "flat" THEN l ELSE [l EXCEPT !.ch = [n \in DOMAIN @ |-> CutRows(@[n], i, j)]]
CutTo(L, us) == IF us = L.u THEN L
                ELSE LET i == PosAt(L, us[1]) IN CutRows(L, i + 1, i + Len(us))

\* Nesting of any lines: equal kinds, compatible indices, cut to the common part.
RECURSIVE CommonOf(_, _)
CommonOf(ch, names) ==
    LET n == CHOOSE m \in names : TRUE
    IN IF names = {n} THEN ch[n].u
       ELSE LET o == CommonOf(ch, names \ {n}) IN IF o = <<>> THEN o ELSE Common(o, ch[n].u)
RECURSIVE NestAny(_)
NestAny(ch) ==
    LET names == DOMAIN ch IN
    IF names = {} \/ names \cap {"w", "q", "p", "r"} # {} THEN Bad
    ELSE IF \E n \in names : ~IsLine(ch[n]) /\ ~IsOpen(ch[n]) THEN Bad
    ELSE IF \E n \in names : IsOpen(ch[n])
         THEN (LET z == NestAny([n \in names |-> IF IsOpen(ch[n]) THEN ch[n].v ELSE ch[n]]) IN IF IsBad(z) THEN z ELSE Open(z))
    ELSE LET a == ch[CHOOSE m \in names : TRUE]
         IN IF \E n \in names : ch[n].k # a.k \/ ~CompatIx(ch[n], a) THEN Bad
            ELSE LET us == CommonOf(ch, names)
                 IN IF us = <<>> THEN Bad ELSE Nest([n \in names |-> CutTo(ch[n], us)])

(* --------------------------- creation from data -------------------------- *)
\* unit -> <<dimension, factor to the default unit>>
Units == [x \in {"none"} |-> <<"any", One>>]
    @@ [x \in {"MW"} |-> <<"w", One>>] @@ [x \in {"kW"} |-> <<"w", <<1, 1000>> >>] @@ [x \in {"GW"} |-> <<"w", <<1000, 1>> >>]
    @@ [x \in {"MWh"} |-> <<"q", One>>] @@ [x \in {"kWh"} |-> <<"q", <<1, 1000>> >>] @@ [x \in {"GWh"} |-> <<"q", <<1000, 1>> >>]
    @@ [x \in {"Eur/MWh"} |-> <<"p", One>>] @@ [x \in {"ct/kWh"} |-> <<"p", <<10, 1>> >>] @@ [x \in {"Eur/kWh"} |-> <<"p", <<1000, 1>> >>]
    @@ [x \in {"Eur"} |-> <<"r", One>>] @@ [x \in {"kEur"} |-> <<"r", <<1000, 1>> >>] @@ [x \in {"ct"} |-> <<"r", <<1, 100>> >>]
    @@ [x \in {"dimensionless"} |-> <<"nodim", One>>]
    @@ [x \in {"degC", "h", "tCO2", "MW/Eur"} |-> <<"other", One>>]
\* An item is [d, un, sc, v] (a single value, v = <<value>>) or [d, un, sc, ix, v]; d = "?": to be told from the unit.
ItemDim(it) == IF it.d # "?" THEN it.d ELSE IF it.un = "none" THEN "agn" ELSE Units[it.un][1]
ItemOk(it) == /\ ItemDim(it) \in {"w", "q", "p", "r", "nodim", "agn"}
              /\ it.un # "none" => Units[it.un][1] = ItemDim(it)
              /\ ~it.sc => LineIxOk(it.ix)
ItemVals(it, us) ==
    LET f == Units[it.un][2]
        V(x) == RMul(IF x[2] = 0 THEN x ELSE Norm(x[1], x[2]), f)
    IN IF it.sc THEN [i \in 1..Len(us) |-> V(it.v[1])]
       ELSE LET p == PosAt(it.ix, us[1]) IN [i \in 1..Len(us) |-> V(it.v[p + i])]
\* Three-valued comparison: "y", "n", "?" (too close to call, or not computable)
EqVal(a, b) == IF IsUnk(a) \/ IsUnk(b) THEN "?"
               ELSE IF ~IsFin(a) \/ ~IsFin(b) THEN (IF ~IsFin(a) /\ ~IsFin(b) THEN "y" ELSE "n")
               ELSE IF a = b THEN "y"
               ELSE LET d == RSub(a, b)
                        lim == RAdd(Q(1, 10000), RMul(Q(1, 10000), <<RAbsI(b[1]), b[2]>>))
                    IN IF IsUnk(d) \/ IsUnk(lim) THEN "?" ELSE IF RLeq(<<RAbsI(d[1]), d[2]>>, lim) THEN "?" ELSE "n"
\* Derive what is missing in one row (has: the dimensions given; g: their values; d: duration).
FillRow(has, g, d) ==
    LET hw == "w" \in has  hq == "q" \in has  hp == "p" \in has  hr == "r" \in has
        hv == hw \/ hq \/ (hp /\ hr)
        q == IF hq THEN g.q ELSE IF hw THEN RMul(g.w, d) ELSE IF hp /\ hr THEN RDiv(g.r, g.p) ELSE Zero
        w == IF hw THEN g.w ELSE RDiv(q, d)
        p == IF hp THEN g.p ELSE IF hv /\ hr THEN RDiv(g.r, q) ELSE Zero
        r == IF hr THEN g.r ELSE IF hv /\ hp THEN (IF IsZero(q) /\ ~IsFin(p) /\ ~IsUnk(p) THEN Zero ELSE RMul(q, p)) ELSE Zero
        ign == (IsZero(q) /\ ~IsFin(p)) \/ (IsZero(p) /\ ~IsFin(q))
        c1 == IF hw /\ hq THEN EqVal(g.w, RDiv(g.q, d)) ELSE "y"
        c2 == IF ~(hv /\ (hp \/ hr)) \/ ign THEN "y" ELSE EqVal(r, RMul(p, q))
    IN [ok |-> IF "n" \in {c1, c2} THEN "n" ELSE IF "?" \in {c1, c2} THEN "?" ELSE "y",
        w |-> w, q |-> q, p |-> p, r |-> r]
KindOf(has) == IF has \subseteq {"w", "q"} THEN "vol" ELSE IF has = {"p"} THEN "pri" ELSE IF has = {"r"} THEN "rev" ELSE "all"
\* The flat line for items with quantities w, q, p, r at instants us.
FlatOf(items, f, tz, us) ==
    LET has == {ItemDim(items[i]) : i \in 1..Len(items)}
        at == [x \in has |-> ItemVals(items[CHOOSE i \in 1..Len(items) : ItemDim(items[i]) = x], us)]
        d == DurH(f, tz, us)
        rows == TLCEval([i \in 1..Len(us) |-> FillRow(has, [x \in has |-> at[x][i]], d[i])])
        k == KindOf(has)
        col == [w |-> [i \in 1..Len(us) |-> rows[i].w], q |-> [i \in 1..Len(us) |-> rows[i].q],
                p |-> [i \in 1..Len(us) |-> rows[i].p], r |-> [i \in 1..Len(us) |-> rows[i].r]]
        l == Flat(k, [f |-> f, tz |-> tz, u |-> us], [x \in ColsOf(k) |-> col[x]])
    IN IF \E i \in 1..Len(us) : rows[i].ok = "n" THEN Bad
       ELSE IF \E i \in 1..Len(us) : rows[i].ok = "?" THEN Open(l) ELSE l
RECURSIVE CommonIx(_)
CommonIx(ixs) == IF Len(ixs) = 1 THEN ixs[1].u
                 ELSE LET o == CommonIx(Tail(ixs)) IN IF o = <<>> THEN o ELSE Common(o, ixs[1].u)
\* Data -> line, dimensionless series, or Bad.  ref: <<>> or <<index>>.
FromItems(items, ref) ==
    LET n == Len(items)
        dims == [i \in 1..n |-> ItemDim(items[i])]
        ser == SelectSeq(items, LAMBDA it : ~it.sc)
        ixs == [i \in 1..Len(ser) |-> ser[i].ix] \o ref
    IN IF n = 0 THEN Bad
       ELSE IF \E i \in 1..n : ~ItemOk(items[i]) THEN Bad
       ELSE IF \E i, j \in 1..n : i < j /\ dims[i] = dims[j] THEN Bad
       ELSE IF ixs = <<>> \/ \E i \in 2..Len(ixs) : ~CompatIx(ixs[1], ixs[i]) THEN Bad
       ELSE LET us == CommonIx(ixs)
                has == {dims[i] : i \in 1..n}
                agn == IF ref = <<>> THEN "agn" ELSE "nodim"    \* an operand without dimension is a factor
                has2 == {IF x = "agn" THEN agn ELSE x : x \in has}
            IN IF us = <<>> \/ Cardinality(has2) < Cardinality(has) THEN Bad
               ELSE IF has2 \subseteq {"w", "q", "p", "r"} THEN FlatOf(items, ixs[1].f, ixs[1].tz, us)
               ELSE IF has2 = {"nodim"} /\ ref # <<>> THEN [s |-> "ser", f |-> ixs[1].f, tz |-> ixs[1].tz, u |-> us, m |-> ItemVals(items[1], us)]
               ELSE Bad
NewFlat(items) == FromItems(items, <<>>)
IxOf(L) == [f |-> L.f, tz |-> L.tz, u |-> L.u]
\* An operand of arithmetic with line L: items stand on their own if they can, and else take the index of L.
Operand(items, L) == LET a == NewFlat(items) IN IF IsLine(a) \/ IsOpen(a) THEN a ELSE FromItems(items, <<IxOf(L)>>)

(* ------------------------------- arithmetic ------------------------------ *)
Flatten(L) == IF L.s = "flat" THEN L ELSE [s |-> "flat", k |-> L.k, f |-> L.f, tz |-> L.tz, u |-> L.u, c |-> L.c]

RECURSIVE ScaleRows(_, _)     \* multiply row i by m[i]
ScaleRows(L, m) ==
    IF L.s = "nest" THEN Nest([n \in DOMAIN L.ch |-> ScaleRows(L.ch[n], m)])
    ELSE [L EXCEPT !.c = [x \in DOMAIN @ |-> IF L.k = "all" /\ x = "p" THEN @[x] ELSE Map2(RMul, @[x], m)]]
Scale(L, ser) == IF ~CompatIx(L, ser) THEN Bad ELSE LET us == Common(L.u, ser.u) IN IF us = <<>> THEN Bad ELSE
    ScaleRows(CutTo(L, us), LET p == PosAt(ser, us[1]) IN [i \in 1..Len(us) |-> ser.m[p + i]])
Const(L, x) == [s |-> "ser", f |-> L.f, tz |-> L.tz, u |-> L.u, m |-> [i \in 1..Len(L.u) |-> x]]
Neg(L) == ScaleRows(L, [i \in 1..Len(L.u) |-> <<-1, 1>>])

\* Weighted average by the documented case table (values vs, weights ws).
Wavg(vs, ws) ==
    LET n == Len(vs)
        S == {i \in 1..n : ~IsZero(ws[i])}
        T == IF S = {} THEN 1..n ELSE S
        tot == RSum(ws)
        nan == \E i \in T : IsNaN(vs[i])
        unk == \E i \in 1..n : IsUnk(ws[i]) \/ ~IsFin(ws[i]) \/ IsUnk(vs[i]) \/ vs[i] = INF
        uni == \A i, j \in T : vs[i] = vs[j]
    IN IF unk \/ IsUnk(tot) THEN UNK
       ELSE IF nan THEN NaN
       ELSE IF S # {} /\ ~IsZero(tot) THEN RDiv(RSum([i \in 1..n |-> IF i \in S THEN RMul(vs[i], ws[i]) ELSE Zero]), tot)
       ELSE IF uni THEN vs[CHOOSE i \in T : TRUE] ELSE NaN
\* Price of the sum of two rows: revenue over energy; if there is no energy, the price they have in common.
SumPrice(p1, q1, p2, q2, q, r) ==
    IF ~IsFin(q) \/ ~IsZero(q) THEN RDiv(r, q) ELSE Wavg(<<p1, p2>>, <<q1, q2>>)

RECURSIVE AddSame(_, _)      \* equal kind and index
AddSame(A, B) ==
    IF A.s = "nest" /\ B.s = "nest" THEN
        Nest([n \in DOMAIN A.ch \cup DOMAIN B.ch |->
            IF n \notin DOMAIN A.ch THEN B.ch[n] ELSE IF n \notin DOMAIN B.ch THEN A.ch[n] ELSE AddSame(A.ch[n], B.ch[n])])
    ELSE LET S(x) == Map2(RAdd, A.c[x], B.c[x])
             c == IF A.k # "all" THEN [x \in ColsOf(A.k) |-> S(x)]
                  ELSE LET q == TLCEval(S("q"))  r == TLCEval(S("r"))
                       IN [w |-> S("w"), q |-> q, r |-> r,
                           p |-> [i \in 1..Len(A.u) |-> SumPrice(A.c.p[i], A.c.q[i], B.c.p[i], B.c.q[i], q[i], r[i])]]
         IN Flat(A.k, A, c)
Add(A, B) == IF ~CompatIx(A, B) \/ A.k # B.k THEN Bad
             ELSE LET us == Common(A.u, B.u) IN IF us = <<>> THEN Bad ELSE AddSame(CutTo(A, us), CutTo(B, us))
Sub(A, B) == Add(A, Neg(B))

\* Flat results from two lines at their common timestamps.
Both(A, B, op(_, _)) == IF ~CompatIx(A, B) THEN Bad
    ELSE LET us == Common(A.u, B.u) IN IF us = <<>> THEN Bad ELSE op(CutTo(Flatten(A), us), CutTo(Flatten(B), us))
Mul2(a, b) == IF {a.k, b.k} # {"vol", "pri"} THEN Bad
              ELSE LET v == IF a.k = "vol" THEN a ELSE b  p == IF a.k = "vol" THEN b ELSE a
                   IN Flat("rev", a, [r |-> Map2(RMul, v.c.q, p.c.p)])
Mul(A, B) == Both(A, B, Mul2)
VolOfQ(ix, q) == Flat("vol", ix, [q |-> q, w |-> Map2(RDiv, q, DurH(ix.f, ix.tz, ix.u))])
Div2(a, b) ==
    IF a.k = b.k THEN
        (IF a.k = "all" THEN Bad
         ELSE LET x == CASE a.k = "vol" -> "q" [] a.k = "pri" -> "p" [] a.k = "rev" -> "r"
              IN [s |-> "ser", f |-> a.f, tz |-> a.tz, u |-> a.u, m |-> Map2(RDiv, a.c[x], b.c[x])])
    ELSE IF a.k = "rev" /\ b.k = "pri" THEN VolOfQ(a, Map2(RDiv, a.c.r, b.c.p))
    ELSE IF a.k = "rev" /\ b.k = "vol" THEN Flat("pri", a, [p |-> Map2(RDiv, a.c.r, b.c.q)])
    ELSE Bad
Div(A, B) == Both(A, B, Div2)
Unite2(a, b) ==
    IF a.k = b.k \/ "all" \in {a.k, b.k} THEN Bad
    ELSE LET ks == {a.k, b.k}
             L(k) == IF a.k = k THEN a ELSE b
             has == ({"w", "q"} \cap (IF "vol" \in ks THEN {"w", "q"} ELSE {})) \cup (IF "pri" \in ks THEN {"p"} ELSE {}) \cup (IF "rev" \in ks THEN {"r"} ELSE {})
             col == [x \in has |-> IF x \in {"w", "q"} THEN L("vol").c[x] ELSE IF x = "p" THEN L("pri").c.p ELSE L("rev").c.r]
             d == DurH(a.f, a.tz, a.u)
             rows == TLCEval([i \in 1..Len(a.u) |-> FillRow(has, [x \in has |-> col[x][i]], d[i])])
             l == Flat("all", a, [w |-> [i \in 1..Len(a.u) |-> rows[i].w], q |-> [i \in 1..Len(a.u) |-> rows[i].q],
                                  p |-> [i \in 1..Len(a.u) |-> rows[i].p], r |-> [i \in 1..Len(a.u) |-> rows[i].r]])
         IN IF \E i \in 1..Len(a.u) : rows[i].ok = "n" THEN Bad
            ELSE IF \E i \in 1..Len(a.u) : rows[i].ok = "?" THEN Open(l) ELSE l
Unite(A, B) == Both(A, B, Unite2)

AllZero(ser) == \A i \in 1..Len(ser.m) : IsZero(ser.m[i])
Recip(ser) == [ser EXCEPT !.m = [i \in 1..Len(@) |-> RInv(@[i])]]
\* A op X, where X: a line, a dimensionless series, None or Bad.
RECURSIVE BinOp(_, _, _)
BinOp(o, A, X) ==
    IF IsBad(X) THEN Bad
    ELSE IF IsOpen(X) THEN (LET z == BinOp(o, A, X.v) IN IF IsBad(z) \/ IsOpen(z) THEN z ELSE Open(z))
    ELSE CASE o = "add" -> IF X.s = "none" THEN A ELSE IF X.s = "ser" THEN (IF AllZero(X) THEN A ELSE Bad) ELSE Add(A, X)
           [] o = "sub" -> IF X.s = "none" THEN A ELSE IF X.s = "ser" THEN (IF AllZero(X) THEN A ELSE Bad) ELSE Sub(A, X)
           [] o = "rsub" -> IF X.s = "none" THEN Neg(A) ELSE IF X.s = "ser" THEN (IF AllZero(X) THEN Neg(A) ELSE Bad) ELSE Add(Neg(A), X)
           [] o = "mul" -> IF X.s = "none" THEN Bad ELSE IF X.s = "ser" THEN Scale(A, X) ELSE Mul(A, X)
           [] o = "div" -> IF X.s = "none" THEN Bad ELSE IF X.s = "ser" THEN Scale(A, Recip(X)) ELSE Div(A, X)
           [] o = "rdiv" -> IF X.s \in {"none", "ser"} THEN Bad ELSE Div(X, A)
           [] o = "unite" -> IF X.s = "none" THEN A ELSE IF X.s = "ser" THEN Bad ELSE Unite(A, X)

(* --------------------------- time-axis operations ------------------------ *)
SomeNaN(s, i, j) == \E m \in i..j : ~IsFin(s[m])
\* Full periods of frequency f within the index.
NewIx(L, f) ==
    LET ud == UpDownSpec(L.f, f) IN
    IF ud = "0" THEN L.u
    ELSE IF ud = "1" THEN Periods(f, L.tz, L.u[1], IxEnd(L))
    ELSE LET sp == FullSpan(f, L.tz, IxSod(L), L.u[1], IxEnd(L)) IN Periods(f, L.tz, sp[1], sp[2])
\* Sum / duration-weighted average per new period (nu: starts; e: end of the last).
Bounds(L, nu, e) == [i \in 1..(Len(nu) + 1) |-> PosAt(L, IF i > Len(nu) THEN e ELSE nu[i])]
SumPer(x, b) == [i \in 1..(Len(b) - 1) |-> IF SomeNaN(x, b[i] + 1, b[i + 1]) THEN UNK ELSE RSumRange(x, b[i] + 1, b[i + 1])]
\* Old row of each new (shorter) period.
OldRow(L, nu) == LET e == [i \in 1..Len(L.u) |-> Right(L.f, L.tz, L.u[i])]
                 IN [j \in 1..Len(nu) |-> CHOOSE i \in 1..Len(L.u) : L.u[i] <= nu[j] /\ nu[j] < e[i]]
Resample(L, f) ==      \* flat
    LET ud == UpDownSpec(L.f, f)
        nu == TLCEval(NewIx(L, f))
        nix == [f |-> f, tz |-> L.tz, u |-> nu]
    IN IF ud = "err" THEN Bad ELSE IF nu = <<>> THEN Bad
       ELSE IF ud = "0" THEN (IF L.k = "all" THEN [L EXCEPT !.c.p = Price0(L.c.q, L.c.r)] ELSE L)
       ELSE LET dn == TLCEval(DurH(f, L.tz, nu))
                do == TLCEval(DurH(L.f, L.tz, L.u))
                b == TLCEval(IF ud = "-1" THEN Bounds(L, nu, Right(f, L.tz, nu[Len(nu)])) ELSE <<>>)
                o == TLCEval(IF ud = "1" THEN OldRow(L, nu) ELSE <<>>)
                Smb(x) == IF ud = "-1" THEN SumPer(x, b)
                          ELSE [j \in 1..Len(nu) |-> RMul(RDiv(x[o[j]], do[o[j]]), dn[j])]
                Avg(x) == IF ud = "-1" THEN Map2(RDiv, SumPer(Map2(RMul, x, do), b), dn)
                          ELSE [j \in 1..Len(nu) |-> x[o[j]]]
            IN CASE L.k = "vol" -> LET q == TLCEval(Smb(L.c.q)) IN Flat("vol", nix, [q |-> q, w |-> Map2(RDiv, q, dn)])
                 [] L.k = "pri" -> Flat("pri", nix, [p |-> Avg(L.c.p)])
                 [] L.k = "rev" -> Flat("rev", nix, [r |-> Smb(L.c.r)])
                 [] L.k = "all" -> LET q == TLCEval(Smb(L.c.q))  r == TLCEval(Smb(L.c.r))
                                   IN Flat("all", nix, [q |-> q, w |-> Map2(RDiv, q, dn), r |-> r, p |-> Price0(q, r)])
RECURSIVE AsFreq(_, _)
AsFreq(L, f) == IF L.s = "flat" THEN Resample(L, f) ELSE NestOrBad([n \in DOMAIN L.ch |-> AsFreq(L.ch[n], f)])

\* Selection of the rows with lo <= u <= hi (loc) or lo <= u < hi (slice).
Select(L, us) == IF us = <<>> THEN Bad ELSE IF ~LineIxOk([f |-> L.f, tz |-> L.tz, u |-> us]) THEN Bad ELSE CutTo(L, us)
LocRange(L, lo, hi) == Select(L, SelectSeq(L.u, LAMBDA x : lo <= x /\ x <= hi))
SliceRange(L, lo, hi) == Select(L, SelectSeq(L.u, LAMBDA x : lo <= x /\ x < hi))

RECURSIVE Reindexed(_, _)
Reindexed(L, ix) ==
    IF L.s = "nest" THEN Nest([n \in DOMAIN L.ch |-> Reindexed(L.ch[n], ix)])
    ELSE LET lo == L.u[1]  hi == L.u[Len(L.u)]
             pos == [i \in 1..Len(ix.u) |-> IF lo <= ix.u[i] /\ ix.u[i] <= hi THEN PosAt(L, ix.u[i]) + 1 ELSE 0]
             R(x) == [i \in 1..Len(pos) |-> IF pos[i] = 0 THEN Zero ELSE L.c[x][pos[i]]]
             c == IF L.k # "all" THEN [x \in ColsOf(L.k) |-> R(x)]
                  ELSE LET q == R("q")  r == R("r") IN [w |-> R("w"), q |-> q, r |-> r, p |-> Price0(q, r)]
         IN Flat(L.k, ix, c)
Reindex(L, ix) == IF Len(ix.u) = 0 THEN Bad ELSE IF ~LineIxOk(ix) \/ ~CompatIx(L, ix) THEN Bad ELSE Reindexed(L, ix)

\* Concatenation of a sequence of lines.
RECURSIVE SameShape(_, _)
SameShape(A, B) == /\ A.s = B.s /\ A.k = B.k /\ CompatIx(A, B)
                   /\ A.s = "nest" => /\ DOMAIN A.ch = DOMAIN B.ch
                                      /\ \A n \in DOMAIN A.ch : SameShape(A.ch[n], B.ch[n])
RECURSIVE Join(_, _)
Join(A, B) ==
    LET l == [A EXCEPT !.u = @ \o B.u, !.c = [x \in DOMAIN @ |-> @[x] \o B.c[x]]]
    IN IF A.s = "flat" THEN l ELSE [l EXCEPT !.ch = [n \in DOMAIN @ |-> Join(@[n], B.ch[n])]]
SortByStart(ls) == [i \in 1..Len(ls) |-> ls[CHOOSE j \in 1..Len(ls) :
                        Cardinality({m \in 1..Len(ls) : ls[m].u[1] < ls[j].u[1] \/ (ls[m].u[1] = ls[j].u[1] /\ m < j)}) = i - 1]]
RECURSIVE JoinAll(_)
JoinAll(ls) == IF Len(ls) = 1 THEN ls[1] ELSE Join(ls[1], JoinAll(Tail(ls)))
Concat(ls) ==
    IF Len(ls) < 2 \/ \E i \in 2..Len(ls) : ~SameShape(ls[1], ls[i]) THEN Bad
    ELSE LET s == SortByStart(ls)
         IN IF \E i \in 1..(Len(s) - 1) : IxEnd(s[i]) # s[i + 1].u[1] THEN Bad ELSE JoinAll(s)

(* ----------------------------- reading, editing -------------------------- *)
RECURSIVE Part(_, _)     \* volume / price / revenue of a line
Part(L, k) ==
    IF L.k = k THEN L
    ELSE IF L.k # "all" THEN Bad
    ELSE IF L.s = "nest" /\ k # "pri" THEN Nest([n \in DOMAIN L.ch |-> Part(L.ch[n], k)])
    ELSE Flat(k, L, [x \in ColsOf(k) |-> L.c[x]])
Child(L, n) == IF L.s = "flat" THEN Bad ELSE IF n \notin DOMAIN L.ch THEN Bad ELSE L.ch[n]
RECURSIVE SetChild(_, _, _)
SetChild(L, n, X) ==
    IF IsOpen(X) THEN (LET z == SetChild(L, n, X.v) IN IF IsBad(z) THEN z ELSE Open(z))
    ELSE IF L.s = "flat" \/ ~IsLine(X) \/ n \in {"w", "q", "p", "r"} THEN Bad
    ELSE IF X.k # L.k \/ ~CompatIx(L, X) THEN Bad
    ELSE LET us == Common(L.u, X.u)
         IN IF us = <<>> THEN Bad
            ELSE Nest([m \in DOMAIN L.ch \cup {n} |-> CutTo(IF m = n THEN X ELSE L.ch[m], us)])
DropChild(L, n) ==
    IF L.s = "flat" THEN Bad
    ELSE IF n \notin DOMAIN L.ch \/ DOMAIN L.ch = {n} THEN Bad
    ELSE Nest([m \in DOMAIN L.ch \ {n} |-> L.ch[m]])

All3(S) == IF "n" \in S THEN "n" ELSE IF "?" \in S THEN "?" ELSE "y"
RECURSIVE EqLine(_, _)
EqLine(A, B) ==
    IF A.s # B.s \/ A.k # B.k \/ A.f # B.f \/ A.tz # B.tz \/ A.u # B.u THEN "n"
    ELSE IF A.s = "nest" THEN (IF DOMAIN A.ch # DOMAIN B.ch THEN "n" ELSE All3({EqLine(A.ch[n], B.ch[n]) : n \in DOMAIN A.ch}))
    ELSE All3({EqVal(A.c[x][i], B.c[x][i]) : x \in DOMAIN A.c, i \in 1..Len(A.u)})
NonZero3(s) == IF \E i \in 1..Len(s) : ~IsUnk(s[i]) /\ ~IsZero(s[i]) THEN "y" ELSE IF \E i \in 1..Len(s) : IsUnk(s[i]) THEN "?" ELSE "n"
Any3(S) == IF "y" \in S THEN "y" ELSE IF "?" \in S THEN "?" ELSE "n"
RECURSIVE Truthy(_)
Truthy(L) == IF L.s = "nest" THEN Any3({Truthy(L.ch[n]) : n \in DOMAIN L.ch})
             ELSE CASE L.k = "vol" -> NonZero3(L.c.w) [] L.k = "pri" -> NonZero3(L.c.p) [] L.k = "rev" -> NonZero3(L.c.r)
                    [] L.k = "all" -> Any3({NonZero3(L.c.w), NonZero3(L.c.r)})
\* Exported table: column path -> values.  levels: child levels to include (-1: all).
RECURSIVE Table(_, _, _, _)
Table(L, cols, levels, path) ==
    LET here == [x \in {path \o y : y \in cols \cap ColsOf(L.k)} |-> L.c[CHOOSE y \in cols : path \o y = x]]
        names == IF L.s = "flat" \/ levels = 0 THEN {} ELSE DOMAIN L.ch
        RECURSIVE Merge(_)
        Merge(ns) == IF ns = {} THEN here
                     ELSE LET n == CHOOSE m \in ns : TRUE
                          IN Table(L.ch[n], cols, levels - 1, path \o n \o "/") @@ Merge(ns \ {n})
    IN Merge(names)

(* --------------------------------- invariants ---------------------------- *)
EqR(a, b) == IsUnk(a) \/ IsUnk(b) \/ a = b
RECURSIVE LineOK(_)
LineOK(L) ==
    /\ LineIxOk(IxOf(L)) /\ DOMAIN L.c = ColsOf(L.k) /\ \A x \in DOMAIN L.c : Len(L.c[x]) = Len(L.u)
    /\ "w" \in DOMAIN L.c => LET d == DurH(L.f, L.tz, L.u)     \* C01
                             IN \A i \in 1..Len(L.u) : IsFin(L.c.q[i]) => EqR(L.c.q[i], RMul(L.c.w[i], d[i]))
    /\ L.k = "all" => \A i \in 1..Len(L.u) : (IsFin(L.c.q[i]) /\ ~IsZero(L.c.q[i])) => EqR(L.c.r[i], RMul(L.c.p[i], L.c.q[i]))
    /\ L.s = "nest" => /\ DOMAIN L.ch # {}                     \* C03
                       /\ \A n \in DOMAIN L.ch : LineOK(L.ch[n]) /\ L.ch[n].k = L.k /\ IxOf(L.ch[n]) = IxOf(L)
                       /\ LET a == Nest(L.ch) IN \A x \in DOMAIN L.c : \A i \in 1..Len(L.u) : EqR(L.c[x][i], a.c[x][i])
=============================================================================
