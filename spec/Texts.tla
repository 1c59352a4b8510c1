------------------------------- MODULE Texts -------------------------------
(***************************************************************************)
(* Printed overviews of lines and states (C34), and their excel export      *)
(* (C32): which levels and timestamps are shown, with which values.         *)
(***************************************************************************)
EXTENDS Years

\* A displayed number is the value, rounded to the decimals of its dimension (half a unit, in 1e-6).
HalfUnit(x) == CASE x = "w" -> 50000 [] x = "q" -> 500000 [] x = "p" -> 5000 [] x = "r" -> 500000
NearTol(v, f, tol) ==
    IF IsUnk(v) \/ v = INF \/ f[2] = -3 THEN TRUE
    ELSE IF IsNaN(v) THEN f[2] = -1
    ELSE IF f[2] < 0 \/ v[2] > 200000000 THEN f[2] >= 0
    ELSE LET ip == v[1] \div v[2]  di == ip - f[1]
         IN RAbsI(di) <= 1 /\ RAbsI(di * 1000000 + FracDigits(v[1] % v[2], v[2], 6) - f[2]) <= tol + 4 + RAbsI(ip) \div 1000
\* The rows shown if at most k are to be shown; 0: "..".
Rows_(n, k) == IF n <= k THEN [i \in 1..n |-> i]
               ELSE LET a == k \div 2  b == (k - 1) \div 2 IN [i \in 1..(a + 1 + b) |-> IF i <= a THEN i ELSE IF i = a + 1 THEN 0 ELSE n - b + (i - a - 1)]
\* The levels: path -> [L, same].  same: only child of a child; its values are not repeated.
RECURSIVE Levels(_, _, _, _)
Levels(L, path, depth, only) ==
    LET here == [x \in {path} |-> [L |-> L, same |-> only /\ depth > 0, d |-> depth]]
        names == IF L.s = "flat" THEN {} ELSE DOMAIN L.ch
        RECURSIVE Merge(_)
        Merge(ns) == IF ns = {} THEN here
                     ELSE LET m == CHOOSE m \in ns : TRUE
                          IN Levels(L.ch[m], path \o "/" \o m, depth + 1, Cardinality(names) = 1) @@ Merge(ns \ {m})
    IN Merge(names)
BlockOK(w, b, k) ==
    IF w.same THEN b.same /\ b.d = w.d
    ELSE LET rows == Rows_(Len(w.L.u), k) IN
         /\ ~b.same /\ b.d = w.d /\ Len(b.rows) = Len(rows)
         /\ \A i \in 1..Len(rows) : IF rows[i] = 0 THEN b.rows[i].u = 0
                                    ELSE /\ b.rows[i].u = w.L.u[rows[i]]
                                         /\ DOMAIN b.rows[i].v = ColsOf(w.L.k)
                                         /\ \A x \in ColsOf(w.L.k) : NearTol(w.L.c[x][rows[i]], b.rows[i].v[x], HalfUnit(x))
KindWord(k) == CASE k = "vol" -> "volume" [] k = "pri" -> "price" [] k = "rev" -> "revenue" [] k = "all" -> "complete"
Unit_(x) == CASE x = "w" -> "MW" [] x = "q" -> "MWh" [] x = "p" -> "Eur/MWh" [] x = "r" -> "Eur"
HeadOK(L, V, cols) == /\ V.start = L.u[1] /\ V.end = IxEnd(L) /\ V.tz = L.tz /\ V.sod = IxSod(L) /\ V.len = Len(L.u)
                      /\ V.cols = cols /\ V.units = [i \in 1..Len(cols) |-> Unit_(cols[i])]
ColSeq(k) == SelectSeq(<<"w", "q", "p", "r">>, LAMBDA x : x \in ColsOf(k))
BlocksVerdict(want, V, k, n) ==
    First(<< <<{V.order[i] : i \in 1..Len(V.order)} = DOMAIN want, n \o ".levels">>, <<Len(V.order) = Cardinality(DOMAIN want), n \o ".duplicates">>,
             <<\A x \in DOMAIN want : BlockOK(want[x], V.blocks[x], k), n \o ".values">> >>)
\* e.flat: only the top level; e.k: rows to show
LineText(o, e) ==
    LET L == o.v  V == e.r.v
        want == TLCEval(Levels(IF e.flat THEN Flatten(L) ELSE L, e.top, 0, TRUE))
    IN IF ~Ok(e.r) THEN "text.raised"
       ELSE LET v == First(<< <<HeadOK(L, V, ColSeq(L.k)), "text.header">>, <<V.what = KindWord(L.k), "text.kind">>,
                              <<V.names = o.nm, "text.children">>,
                              <<L.s = "nest" => \A i \in 1..Len(o.nm) : V.kinds[i] = KindWord(L.k), "text.childkinds">> >>)
            IN IF v # "ok" THEN v ELSE BlocksVerdict(want, V, e.k, "text")
StateText(s, e) ==
    LET V == e.r.v  want == TLCEval(Levels(s.off, "offtake", 0, TRUE) @@ Levels(TLCEval(PnlCost(s)), "pnl_cost", 0, TRUE))
    IN IF ~Ok(e.r) THEN "stext.raised"
       ELSE IF ~HeadOK(s, V, <<"w", "q", "p", "r">>) THEN "stext.header"
       ELSE BlocksVerdict(want, V, e.k, "stext")

\* Excel: rows are local times without zone, columns are levels; the same values as the full table.
ExcelVerdict(L, w, e, n) ==
    IF ~Ok(e.r) THEN n \o ".raised"
    ELSE LET V == e.r.v IN
         First(<< <<V.wall = [i \in 1..Len(L.u) |-> ToWall(L.tz, L.u[i])], n \o ".index">>,
                  <<{V.keys[i] : i \in 1..Len(V.keys)} = DOMAIN w, n \o ".columns">>, <<Len(V.keys) = Cardinality(DOMAIN w), n \o ".duplicates">>,
                  <<\A x \in DOMAIN w : SeqNear(w[x], V.m[x]), n \o ".values">>,
                  <<\A x \in DOMAIN w : V.un[x] = Unit_(V.col[x]), n \o ".units">> >>)
AllCols == {"w", "q", "p", "r"}
TextOpNames == {"text", "stext", "excel", "sexcel"}
TextOutcome(e, store) ==
    IF ~Has(store, e.a) THEN [v |-> "ok", store |-> store]
    ELSE CASE e.op = "text" -> Plain(e, store, LineText(store[e.a], e))
           [] e.op = "stext" -> Plain(e, store, StateText(Get(store, e.a), e))
           [] e.op = "excel" -> Plain(e, store, ExcelVerdict(Get(store, e.a), TLCEval(Table(Get(store, e.a), AllCols, -1, "")), e, "excel"))
           [] e.op = "sexcel" -> Plain(e, store, ExcelVerdict(Get(store, e.a), TLCEval(StateTable(Get(store, e.a), AllCols)), e, "sexcel"))
=============================================================================
