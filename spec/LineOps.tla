------------------------------ MODULE LineOps ------------------------------
(***************************************************************************)
(* Sessions with portfolio lines: the state is the store of named objects,  *)
(* each recorded call is judged against the result Lines.tla prescribes.    *)
(*   e.r    recorded outcome: t = "ok" (with projection v) | "err" | "skip" *)
(*   e.mut  names of earlier objects and inputs that changed                *)
(***************************************************************************)
EXTENDS Lines

Obj(L, nm) == [o |-> "line", v |-> L, nm |-> nm]
Has(store, n) == n \in DOMAIN store
Put(store, n, x) == (n :> x) @@ store
Drop(store, n) == [m \in DOMAIN store \ {n} |-> store[m]]
\* The line (state) named n; Bad if the call that should have made it was refused.
Get(store, n) == store[n].v

(* -------------------------- recorded = prescribed ------------------------ *)
\* Quotient of a small energy, which is the difference of larger ones: the few last digits are lost.
NearWide(x, f) == x[2] > 0 /\ f[2] >= 0 /\ LET ip == x[1] \div x[2] IN RAbsI(ip) >= 1000 /\ RAbsI(ip - f[1]) <= 1 + RAbsI(ip) \div 1000000
ColNear(L, O, x) ==
    /\ Len(L.c[x]) = Len(O.c[x])
    /\ \A i \in 1..Len(L.c[x]) :
         \/ Near(L.c[x][i], O.c[x][i])
         \/ x = "p" /\ L.k = "all" /\ L.c.q[i][2] > 0 /\ RAbsI(L.c.q[i][1]) < L.c.q[i][2] /\ NearWide(L.c.p[i], O.c.p[i])
         \/ x = "p" /\ L.k = "all" /\ O.c.q[i] = <<0, -4>>      \* energy zero up to rounding: price undetermined
         \/ x = "p" /\ L.k = "all" /\ O.c.q[i] = <<0, 0>> /\ O.c.p[i] = <<0, -1>>   \* common price, not recognised because of rounding
\* Without rounding, the common price must be recognised.
PricesExact(L, O) == L.k = "all" => SeqNear(L.c.p, O.c.p)
RECURSIVE MatchLine(_, _, _)
MatchLine(L, O, n) ==
    IF O.s # L.s THEN n \o ".structure"
    ELSE IF O.k # L.k THEN n \o ".kind"
    ELSE IF O.f # L.f THEN n \o ".freq"
    ELSE IF O.tz # L.tz THEN n \o ".zone"
    ELSE IF O.u # L.u THEN n \o ".index"
    ELSE IF O.end # IxEnd(L) THEN n \o ".end"
    ELSE IF DOMAIN O.c # DOMAIN L.c THEN n \o ".columns"
    ELSE IF \E x \in DOMAIN L.c : O.un[x] # UnitName[x] THEN n \o ".units"
    ELSE LET bad == {x \in DOMAIN L.c : ~ColNear(L, O, x)} IN
    IF bad # {} THEN n \o ".values." \o (CHOOSE x \in bad : TRUE)
    ELSE IF L.s = "flat" THEN "ok"
    ELSE IF DOMAIN O.ch # DOMAIN L.ch THEN n \o ".children"
    ELSE LET v == [m \in DOMAIN L.ch |-> MatchLine(L.ch[m], O.ch[m], n \o ".child")]
             b == {m \in DOMAIN v : v[m] # "ok"}
         IN IF b = {} THEN "ok" ELSE v[CHOOSE m \in b : TRUE]
MatchSer(S, O, n) ==
    IF O.s # "ser" THEN n \o ".type" ELSE IF O.un # "dimensionless" THEN n \o ".units"
    ELSE IF O.f # S.f \/ O.tz # S.tz \/ O.u # S.u THEN n \o ".index"
    ELSE IF ~SeqNear(S.m, O.m) THEN n \o ".values" ELSE "ok"
RECURSIVE Unks(_)
Unks(L) == IF L.s = "ser" THEN Cardinality({i \in 1..Len(L.m) : IsUnk(L.m[i])})
           ELSE Cardinality(UNION {{<<x, i>> : i \in {j \in 1..Len(L.u) : IsUnk(L.c[x][j])}} : x \in DOMAIN L.c})
Vals(L) == IF L.s = "ser" THEN Len(L.m) ELSE Len(L.u) * Cardinality(DOMAIN L.c)

\* Verdict on a call that yields an object; w: prescribed object or Bad.
RECURSIVE VObj(_, _, _)
VObj(e, w, n) ==
    IF IsOpen(w) THEN (IF Err(e.r) THEN "ok" ELSE VObj(e, w.v, n))
    ELSE IF IsBad(w) THEN (IF Err(e.r) THEN "ok" ELSE n \o ".accepted")
    ELSE IF ~Ok(e.r) THEN n \o ".raised"
    ELSE IF w.s = "ser" THEN MatchSer(w, e.r.v, n)
    ELSE IF e.r.v.s = "ser" THEN n \o ".type"
    ELSE MatchLine(w, e.r.v, n)
CountUnk(w) == IF IsBad(w) THEN TRUE ELSE LET k == Unks(w) IN IF k = 0 THEN TRUE ELSE PrintT(<<"UNK", k, Vals(w)>>)
Judge(e, store, w0, n) ==
    LET w1 == TLCEval(w0)
        v == VObj(e, w1, n)
        w == IF ~IsOpen(w1) THEN w1 ELSE IF Ok(e.r) THEN w1.v ELSE Bad
        o == [v |-> IF v # "ok" THEN v ELSE IF e.mut # <<>> THEN n \o ".mutates" ELSE "ok",
              store |-> IF v = "ok" /\ ~IsBad(w) THEN (IF w.s = "ser" THEN Drop(store, e.out) ELSE Put(store, e.out, Obj(w, e.r.v.nm))) ELSE Drop(store, e.out)]
    IN IF v = "ok" /\ ~CountUnk(w) THEN o ELSE o
\* Verdict on a call that yields a plain value.
Plain(e, store, v) == [v |-> IF v # "ok" THEN v ELSE IF e.mut # <<>> THEN e.op \o ".mutates" ELSE "ok", store |-> store]

(* ------------------------------- the calls ------------------------------- *)
\* Operands: [t |-> "reg", n] | [t |-> "none"] | [t |-> "items", items]
Missing(store, b) == b.t = "reg" /\ ~Has(store, b.n)
OperandOf(store, b, L) == IF b.t = "reg" THEN Get(store, b.n) ELSE IF b.t = "none" THEN None ELSE Operand(b.items, L)
ChildOf(store, b) == IF b.t = "reg" THEN Get(store, b.n) ELSE IF b.t = "none" THEN Bad ELSE NewFlat(b.items)

RangeOf(L, e) == SelectSeq(L.u, LAMBDA x : (e.lo = <<>> \/ e.lo[1] <= x) /\ (e.hi = <<>> \/ (IF e.op = "slice" THEN x < e.hi[1] ELSE x <= e.hi[1]))
                                            /\ x \notin {e.holes[i] : i \in 1..Len(e.holes)})
Gap(L, us) == \E i \in 1..(Len(us) - 1) : Right(L.f, L.tz, us[i]) # us[i + 1]
\* A selection with a step, or with gaps, does not have the original frequency.
Sel(L, e) == LET us == RangeOf(L, e) IN IF e.step # 1 \/ us = <<>> THEN Bad ELSE IF Gap(L, us) THEN Bad ELSE Select(L, us)

NormF(f) == CASE f = "QS" -> "QS-JAN" [] f = "YS" -> "YS-JAN" [] OTHER -> f
LineOpNames == {"new", "nest", "bin", "neg", "asfreq", "loc", "slice", "reindex", "flatten", "part", "child", "setchild", "dropchild",
                "concat", "eq", "bool", "table", "names", "setattr"}
Operands(e) == (IF "a" \in DOMAIN e THEN {e.a} ELSE {}) \cup (IF "b" \in DOMAIN e /\ e.b.t = "reg" THEN {e.b.n} ELSE {})
    \cup (IF "as" \in DOMAIN e THEN {e.as[i] : i \in 1..Len(e.as)} ELSE {})
    \cup (IF "ch" \in DOMAIN e THEN {e.ch[n].n : n \in {m \in DOMAIN e.ch : e.ch[m].t = "reg"}} ELSE {})

TableVerdict(L, e) ==
    LET cols == {e.cols[i] : i \in 1..Len(e.cols)}
        w == Table(L, cols \cap {"w", "q", "p", "r"}, e.levels, "")
        V == e.r.v
        want(x) == IF e.units THEN UnitName[V.col[x]] ELSE "none"
    IN IF ~Ok(e.r) THEN "table.raised"
       ELSE First(<< <<V.f = L.f /\ V.tz = L.tz /\ V.u = L.u, "table.index">>,
                     <<{V.keys[i] : i \in 1..Len(V.keys)} = DOMAIN w, "table.columns">>,
                     <<Len(V.keys) = Cardinality(DOMAIN w), "table.duplicates">>,
                     <<\A x \in DOMAIN w : SeqNear(w[x], V.m[x]), "table.values">>,
                     <<\A x \in DOMAIN w : V.un[x] = want(x), "table.units">> >>)
NamesVerdict(o, e) ==
    LET L == o.v  V == e.r.v IN
    IF L.s = "flat" THEN (IF Err(e.r) THEN "ok" ELSE "names.accepted")
    ELSE IF ~Ok(e.r) THEN "names.raised"
    ELSE First(<< <<V.iter = o.nm /\ V.items = o.nm, "names.order">>, <<V.len = Cardinality(DOMAIN L.ch), "names.len">>,
                  <<\A n \in DOMAIN V.has : V.has[n] = (n \in DOMAIN L.ch), "names.contains">> >>)
OrderVerdict(e, old, v) ==   \* order of the children after editing
    LET nm == IF e.op = "dropchild" THEN SelectSeq(old, LAMBDA x : x # e.n)
              ELSE IF e.n \in {old[i] : i \in 1..Len(old)} THEN old ELSE Append(old, e.n)
    IN IF v = "ok" /\ Ok(e.r) THEN (IF e.r.v.nm # nm THEN e.op \o ".order" ELSE "ok") ELSE v

\* What a call that yields a line or series gives.
LineResult(e, store) ==
    CASE e.op = "new" -> NewFlat(e.items)
      [] e.op = "nest" -> IF e.bad THEN Bad ELSE NestAny([n \in DOMAIN e.ch |-> ChildOf(store, e.ch[n])])
      [] e.op = "bin" -> LET L == Get(store, e.a) IN BinOp(e.o, L, OperandOf(store, e.b, L))
      [] e.op = "neg" -> Neg(Get(store, e.a))
      [] e.op = "asfreq" -> AsFreq(Get(store, e.a), NormF(e.f))
      [] e.op \in {"loc", "slice"} -> Sel(Get(store, e.a), e)
      [] e.op = "reindex" -> Reindex(Get(store, e.a), e.ix)
      [] e.op = "flatten" -> Flatten(Get(store, e.a))
      [] e.op = "part" -> Part(Get(store, e.a), e.k)
      [] e.op = "child" -> Child(Get(store, e.a), e.n)
      [] e.op = "setchild" -> SetChild(Get(store, e.a), e.n, ChildOf(store, e.b))
      [] e.op = "dropchild" -> DropChild(Get(store, e.a), e.n)
      [] e.op = "concat" -> Concat([i \in 1..Len(e.as) |-> Get(store, e.as[i])])
LineOutcome(e, store) ==
    IF \E n \in Operands(e) : ~Has(store, n) THEN [v |-> "ok", store |-> IF "out" \in DOMAIN e THEN Drop(store, e.out) ELSE store]
    ELSE CASE e.op = "bin" -> LET W == TLCEval(LineResult(e, store))
                                  o == Judge(e, store, W, e.o)
                              IN IF o.v = "ok" /\ "exact" \in DOMAIN e /\ IsLine(W) THEN [o EXCEPT !.v = IF PricesExact(W, e.r.v) THEN "ok" ELSE e.o \o ".price"] ELSE o
      [] e.op \in {"setchild", "dropchild"} -> LET o == Judge(e, store, LineResult(e, store), e.op)
                                              IN [o EXCEPT !.v = OrderVerdict(e, store[e.a].nm, @)]
      [] e.op = "eq" -> LET v == EqLine(Get(store, e.a), Get(store, e.b.n))
                        IN Plain(e, store, IF ~Ok(e.r) THEN "eq.raised" ELSE IF v # "?" /\ e.r.v # (v = "y") THEN "eq.value" ELSE "ok")
      [] e.op = "bool" -> LET v == Truthy(Get(store, e.a))
                          IN Plain(e, store, IF ~Ok(e.r) THEN "bool.raised" ELSE IF v # "?" /\ e.r.v # (v = "y") THEN "bool.value" ELSE "ok")
      [] e.op = "table" -> Plain(e, store, TableVerdict(Get(store, e.a), e))
      [] e.op = "names" -> Plain(e, store, NamesVerdict(store[e.a], e))
      [] e.op = "setattr" -> Plain(e, store, IF Err(e.r) THEN "ok" ELSE "setattr.accepted")
      [] OTHER -> Judge(e, store, LineResult(e, store), e.op)
=============================================================================
