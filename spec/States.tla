------------------------------- MODULE States -------------------------------
(***************************************************************************)
(* Portfolio states: offtake volume (off), price of what is not sourced     *)
(* (pu) and sourced volume and revenue (src); all else is derived.          *)
(***************************************************************************)
EXTENDS LineOps

\* Energy and revenue zero at every timestamp.
NoSrc(ix) == LET z == [i \in 1..Len(ix.u) |-> Zero]  n == [i \in 1..Len(ix.u) |-> NaN]
             IN Flat("all", ix, [w |-> z, q |-> z, r |-> z, p |-> n])
Covers(L, us) == IF us = <<>> THEN TRUE ELSE L.u[1] <= us[1] /\ us[Len(us)] <= L.u[Len(L.u)]
IsState(x) == x.s = "state"
Unopen(x) == IF IsOpen(x) THEN x.v ELSE x
\* State of offtake O, unsourced price P, sourced S (None: nothing sourced).
MkState0(O, P, S) ==
    IF ~IsLine(O) \/ ~IsLine(P) \/ ~(IsLine(S) \/ S.s = "none") THEN Bad
    ELSE IF O.k \notin {"vol", "all"} \/ P.k \notin {"pri", "all"} THEN Bad
    ELSE IF S.s # "none" /\ S.k # "all" THEN Bad
    ELSE IF ~CompatIx(O, P) \/ ~Covers(P, O.u) THEN Bad
    ELSE IF S.s # "none" /\ (~CompatIx(O, S) \/ ~Covers(S, O.u)) THEN Bad
    ELSE [s |-> "state", f |-> O.f, tz |-> O.tz, u |-> O.u, off |-> Part(O, "vol"), pu |-> CutTo(Part(P, "pri"), O.u),
          src |-> IF S.s = "none" THEN NoSrc(IxOf(O)) ELSE CutTo(S, O.u)]
MkState(O, P, S) ==
    LET s == TLCEval(MkState0(Unopen(TLCEval(O)), Unopen(TLCEval(P)), Unopen(TLCEval(S))))
    IN IF IsBad(s) THEN Bad ELSE IF IsOpen(O) \/ IsOpen(P) \/ IsOpen(S) THEN Open(s) ELSE s

(* ------------------------------- components ------------------------------ *)
OffVol(s) == s.off
SrcVol(s) == Part(s.src, "vol")
UnsVol(s) == TLCEval(Neg(TLCEval(Add(s.off, SrcVol(s)))))
Unsourced(s) == TLCEval(Unopen(Unite(UnsVol(s), s.pu)))
PnlCost(s) == Nest([n \in {"sourced", "unsourced"} |-> IF n = "sourced" THEN s.src ELSE Unsourced(s)])
Fraction(s) == Unopen(Div(SrcVol(s), Neg(s.off)))
OneMinus(x) == IF x.s # "ser" THEN x ELSE [x EXCEPT !.m = [i \in 1..Len(@) |-> RSub(One, @[i])]]
\* Volume valued at the unsourced price, minus its cost.
Mtm(s) == Unopen(Sub(Unopen(Mul(SrcVol(s), Flatten(s.pu))), Flatten(Part(s.src, "rev"))))
Comp(s, n) ==
    CASE n \in {"off", "offtake", "offtakevolume"} -> s.off
      [] n \in {"pu", "unsourcedprice"} -> s.pu
      [] n \in {"src", "sourced"} -> s.src
      [] n = "unsourced" -> Unsourced(s)
      [] n = "netposition" -> Neg(Unsourced(s))
      [] n = "pnl_cost" -> PnlCost(s)
      [] n = "sourcedfraction" -> Fraction(s)
      [] n = "unsourcedfraction" -> OneMinus(Fraction(s))
      [] n = "mtm" -> Mtm(s)

(* ------------------------------- operations ------------------------------ *)
AddState(a, b) ==
    LET off == TLCEval(Add(a.off, b.off))  src == TLCEval(Add(a.src, b.src)) IN
    IF IsBad(off) \/ IsBad(src) THEN Bad
    ELSE LET us == off.u
             ua == UnsVol(a)  ub == UnsVol(b)
             pa == TLCEval(CutTo(a.pu, us).c.p)  pb == TLCEval(CutTo(b.pu, us).c.p)
             qa == TLCEval(CutTo(ua, us).c.q)  qb == TLCEval(CutTo(ub, us).c.q)
             \* prices that keep unsourced revenue additive; if there is no unsourced energy, the common price
             p == TLCEval([i \in 1..Len(us) |-> Wavg(<<pa[i], pb[i]>>, <<qa[i], qb[i]>>)])
         IN MkState(off, Flat("pri", off, [p |-> p]), src)
NegState(s) == TLCEval([s EXCEPT !.off = Neg(@), !.src = Neg(@)])
ScaleState(s, ser) == MkState(Scale(s.off, ser), s.pu, Scale(s.src, ser))
\* Ratios of two states, per column of the table.
RatioOf(a, b) == Unopen(Div(Flatten(a), Flatten(b)))
Ratios(a, b) == [n \in {"offtake/volume", "sourced/volume", "sourced/price", "unsourced/volume", "unsourced/price", "pnl_cost/price"} |->
    CASE n = "offtake/volume" -> RatioOf(a.off, b.off)
      [] n = "sourced/volume" -> RatioOf(SrcVol(a), SrcVol(b))
      [] n = "sourced/price" -> RatioOf(Part(a.src, "pri"), Part(b.src, "pri"))
      [] n = "unsourced/volume" -> RatioOf(UnsVol(a), UnsVol(b))
      [] n = "unsourced/price" -> RatioOf(a.pu, b.pu)
      [] n = "pnl_cost/price" -> RatioOf(Part(PnlCost(a), "pri"), Part(PnlCost(b), "pri"))]
AsFreqState(s, f) ==
    LET un == TLCEval(AsFreq(Unsourced(s), f)) IN
    IF IsBad(un) THEN Bad
    ELSE \* where nothing is unsourced, the price is not determined
         MkState(AsFreq(s.off, f), Flat("pri", un, [p |-> [i \in 1..Len(un.u) |-> IF IsZero(un.c.q[i]) THEN UNK ELSE un.c.p[i]]]), AsFreq(s.src, f))
\* A op X; X: a state, a line, None, a dimensionless series.
StateBin(o, A, X) ==
    CASE o = "add" -> IF X.s = "none" THEN A ELSE IF X.s = "state" THEN AddState(A, X) ELSE Bad
      [] o = "sub" -> IF X.s = "none" THEN A ELSE IF X.s = "state" THEN AddState(A, NegState(X)) ELSE Bad
      [] o = "rsub" -> IF X.s = "none" THEN NegState(A) ELSE IF X.s = "state" THEN AddState(NegState(A), X) ELSE Bad
      [] o = "mul" -> IF X.s = "ser" THEN ScaleState(A, X) ELSE Bad
      [] o = "div" -> IF X.s = "ser" THEN ScaleState(A, Recip(X)) ELSE Bad
      [] OTHER -> Bad
CutState(s, us) == MkState(Select(s.off, us), Select(s.pu, us), Select(s.src, us))
ConcatStates(ss) ==
    LET n == Len(ss) IN
    IF n < 2 THEN Bad
    ELSE MkState(Concat([i \in 1..n |-> ss[i].off]), Concat([i \in 1..n |-> ss[i].pu]), Concat([i \in 1..n |-> ss[i].src]))
EqState(a, b) == IF IxOf(a) # IxOf(b) THEN "n"
                 ELSE All3({EqLine(a.off, b.off), EqLine(Unsourced(a), Unsourced(b)), EqLine(a.src, b.src)})

(* --------------------------------- invariants ---------------------------- *)
SeqEq(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : EqR(x[i], y[i])
StateOK(s) ==
    LET un == Unsourced(s)  pc == TLCEval(PnlCost(s))
    IN /\ LineOK(s.off) /\ LineOK(s.pu) /\ LineOK(s.src)
       /\ s.off.k = "vol" /\ s.pu.k = "pri" /\ s.src.k = "all"
       /\ IxOf(s.pu) = IxOf(s.off) /\ IxOf(s.src) = IxOf(s.off)
       /\ IsLine(un) => /\ LineOK(un)
                        /\ LineOK(pc)
                        /\ \A i \in 1..Len(s.u) : EqR(RAdd(RAdd(s.off.c.q[i], s.src.c.q[i]), un.c.q[i]), Zero)
                        /\ SeqEq(pc.c.q, Neg(s.off).c.q)
                        /\ SeqEq(pc.c.r, Map2(RAdd, s.src.c.r, un.c.r))
                        /\ \A i \in 1..Len(s.u) : (IsFin(s.pu.c.p[i]) /\ IsFin(un.c.q[i])) => EqR(un.c.r[i], RMul(un.c.q[i], s.pu.c.p[i]))

(* ---------------------------- recorded = prescribed ---------------------- *)
\* e.r.v: off, pu, src, and the unsourced line of the recorded state.  exact: all recorded numbers are exact.
PuNear(w, O, exact) ==
    /\ Len(w.pu.c.p) = Len(O.pu.c.p)
    /\ \A i \in 1..Len(w.pu.c.p) : Near(w.pu.c.p[i], O.pu.c.p[i]) \/ (~exact /\ O.q[i] \in {<<0, 0>>, <<0, -4>>})
MatchState(w, O, n, exact) ==
    IF O.s # "state" THEN n \o ".type"
    ELSE IF O.f # w.f \/ O.tz # w.tz \/ O.u # w.u THEN n \o ".index"
    ELSE LET a == MatchLine(w.off, O.off, n \o ".offtake")
             b == MatchLine([w.pu EXCEPT !.c.p = [i \in 1..Len(@) |-> UNK]], O.pu, n \o ".unsourcedprice")
             c == MatchLine(w.src, O.src, n \o ".sourced")
         IN IF a # "ok" THEN a ELSE IF b # "ok" THEN b ELSE IF c # "ok" THEN c
            ELSE IF ~PuNear(w, O, exact) THEN n \o ".unsourcedprice.values" ELSE "ok"
RECURSIVE VState(_, _, _)
VState(e, w, n) ==
    IF IsOpen(w) THEN (IF Err(e.r) THEN "ok" ELSE VState(e, w.v, n))
    ELSE IF IsBad(w) THEN (IF Err(e.r) THEN "ok" ELSE n \o ".accepted")
    ELSE IF ~Ok(e.r) THEN n \o ".raised"
    ELSE MatchState(w, e.r.v, n, "exact" \in DOMAIN e)
JudgeState(e, store, w0, n) ==
    LET w1 == TLCEval(w0)
        v == VState(e, w1, n)
        w == IF ~IsOpen(w1) THEN w1 ELSE IF Ok(e.r) THEN w1.v ELSE Bad
    IN [v |-> IF v # "ok" THEN v ELSE IF e.mut # <<>> THEN n \o ".mutates" ELSE "ok",
        store |-> IF v = "ok" /\ ~IsBad(w) THEN Put(store, e.out, [o |-> "state", v |-> w]) ELSE Drop(store, e.out)]

StateOpNames == {"snew", "sseries", "scomp", "sset", "sbin", "sneg", "sdiv2", "sasfreq", "sloc", "sslice", "sconcat", "seq", "stable"}
Miss(store, e) == \E n \in Operands(e) \cup (IF "parts" \in DOMAIN e THEN {e.parts[k].n : k \in {m \in DOMAIN e.parts : e.parts[m].t = "reg"}} ELSE {}) : ~Has(store, n)
PartArg(store, e, k) == IF k \notin DOMAIN e.parts THEN None
                        ELSE IF e.parts[k].t = "none" THEN None
                        ELSE IF e.parts[k].t = "reg" THEN Get(store, e.parts[k].n) ELSE NewFlat(e.parts[k].items)
SetSpec(s, k, X) ==
    CASE k = "offtakevolume" -> MkState(X, s.pu, s.src)
      [] k = "unsourcedprice" -> MkState(s.off, X, s.src)
      [] k = "sourced" -> MkState(s.off, s.pu, X)
      [] k = "add" -> IF X.s = "none" THEN s ELSE LET t == BinOp("add", s.src, X) IN MkState(s.off, s.pu, t)
StateOperand(store, b, s) == IF b.t = "reg" THEN Get(store, b.n) ELSE IF b.t = "none" THEN None ELSE Unopen(FromItems(b.items, <<IxOf(s)>>))
\* Judge by the kind of prescribed object.
JudgeAny(e, store, w, n) == IF IsState(Unopen(w)) THEN JudgeState(e, store, w, n)
                            ELSE IF IsBad(w) THEN JudgeState(e, store, w, n) ELSE Judge(e, store, w, n)
StateTable(s, cols) ==
    LET T(n, lv) == Table(Comp(s, n), cols, lv, n \o "/") IN T("offtakevolume", -1) @@ T("pnl_cost", 0) @@ T("sourced", -1) @@ T("unsourced", -1)
StableVerdict(s, e) ==
    LET w == TLCEval(StateTable(s, {e.cols[i] : i \in 1..Len(e.cols)} \cap {"w", "q", "p", "r"}))
        V == e.r.v
        want(x) == IF e.units THEN UnitName[V.col[x]] ELSE "none"
    IN IF ~Ok(e.r) THEN "stable.raised"
       ELSE First(<< <<V.f = s.f /\ V.tz = s.tz /\ V.u = s.u, "stable.index">>,
                     <<{V.keys[i] : i \in 1..Len(V.keys)} = DOMAIN w, "stable.columns">>,
                     <<Len(V.keys) = Cardinality(DOMAIN w), "stable.duplicates">>,
                     <<\A x \in DOMAIN w : SeqNear(w[x], V.m[x]), "stable.values">>,
                     <<\A x \in DOMAIN w : V.un[x] = want(x), "stable.units">> >>)
RatioVerdict(a, b, e) ==
    LET w == TLCEval(Ratios(a, b))  V == e.r.v IN
    IF \E n \in DOMAIN w : IsBad(w[n]) THEN (IF Err(e.r) THEN "ok" ELSE "div.accepted")
    ELSE IF ~Ok(e.r) THEN "div.raised"
    ELSE First(<< <<{V.keys[i] : i \in 1..Len(V.keys)} = DOMAIN w, "div.columns">>,
                  <<V.u = w["offtake/volume"].u, "div.index">>,
                  <<\A x \in DOMAIN w : SeqNear(w[x].m, V.m[x]), "div.values">> >>)
\* The state an operation yields.
StateResult(e, store) ==
    CASE e.op = "snew" -> MkState(PartArg(store, e, "off"), PartArg(store, e, "pu"), PartArg(store, e, "src"))
      [] e.op = "sset" -> SetSpec(Get(store, e.a), e.k, PartArg(store, e, "x"))
      [] e.op = "sbin" -> LET s == Get(store, e.a) IN StateBin(e.o, s, StateOperand(store, e.b, s))
      [] e.op = "sneg" -> NegState(Get(store, e.a))
      [] e.op = "sasfreq" -> AsFreqState(Get(store, e.a), NormF(e.f))
      [] e.op \in {"sloc", "sslice"} -> LET s == Get(store, e.a)
                                            us == RangeOf(s, [e EXCEPT !.op = IF @ = "sslice" THEN "slice" ELSE "loc"])
                                        IN IF us = <<>> THEN Bad ELSE IF e.step # 1 \/ Gap(s, us) THEN Bad ELSE CutState(s, us)
      [] e.op = "sconcat" -> ConcatStates([i \in 1..Len(e.as) |-> Get(store, e.as[i])])
StateOpName(e) == CASE e.op = "snew" -> "state" [] e.op = "sset" -> "set." \o e.k [] e.op = "sbin" -> e.o [] e.op = "sneg" -> "neg"
                    [] e.op = "sasfreq" -> "asfreq" [] e.op = "sconcat" -> "concat" [] OTHER -> e.op
StateOutcome(e, store) ==
    IF Miss(store, e) THEN [v |-> "ok", store |-> IF "out" \in DOMAIN e THEN Drop(store, e.out) ELSE store]
    ELSE CASE e.op = "scomp" -> Judge(e, store, Comp(Get(store, e.a), e.n), e.n)
      [] e.op = "sdiv2" -> Plain(e, store, RatioVerdict(Get(store, e.a), Get(store, e.b.n), e))
      [] e.op = "seq" -> LET v == EqState(Get(store, e.a), Get(store, e.b.n))
                         IN Plain(e, store, IF ~Ok(e.r) THEN "eq.raised" ELSE IF v # "?" /\ e.r.v # (v = "y") THEN "eq.value" ELSE "ok")
      [] e.op = "stable" -> Plain(e, store, StableVerdict(Get(store, e.a), e))
      [] OTHER -> JudgeState(e, store, StateResult(e, store), StateOpName(e))
=============================================================================
