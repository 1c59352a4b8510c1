------------------------------- MODULE Plots --------------------------------
(***************************************************************************)
(* Plots of lines and states (C35).  A plot consists of axes; on each, a    *)
(* curve for the line and possibly for each of its children; and each curve *)
(* of pieces: an extent and a height.  Periods of months and longer are     *)
(* categories (position 0, 1, ..), shorter periods extend over their time.  *)
(***************************************************************************)
EXTENDS Texts

Categorical(L) == Rank(L.f) >= 4
VolCol(L) == IF Categorical(L) THEN "q" ELSE "w"
DimCol(L, dim) == CASE dim = "vol" -> VolCol(L) [] dim = "pri" -> "p" [] dim = "rev" -> "r"
HowDrawn(L, col, parent) == IF Categorical(L) THEN (IF parent THEN "bar" ELSE "hline") ELSE IF parent /\ col \in {"w", "q"} THEN "area" ELSE "step"
NoKind == "none"
\* Heights are drawn exactly.
NearY(v, f) == IF IsUnk(v) \/ v = INF THEN TRUE ELSE Near(v, f)
\* One curve: the pieces for the values that are known.
CurveVerdict(c, L, col, how, label, n) ==
    LET I == SelectSeq([i \in 1..Len(L.u) |-> i], LAMBDA i : ~IsNaN(L.c[col][i]))
        free == \E i \in 1..Len(L.u) : IsUnk(L.c[col][i]) \/ L.c[col][i] = INF
        x0(i) == IF Categorical(L) THEN i - 1 ELSE L.u[i]
        x1(i) == IF Categorical(L) THEN i - 1 ELSE IF i = Len(L.u) THEN IxEnd(L) ELSE L.u[i + 1]
    IN IF free THEN "ok"
       ELSE First(<< <<c.how = how, n \o ".form">>, <<c.label = label, n \o ".label">>, <<Len(c.y) = Len(I), n \o ".count">>,
                     <<\A j \in 1..Len(I) : c.x[j] = <<x0(I[j]), x1(I[j])>>, n \o ".place">>,
                     <<\A j \in 1..Len(I) : NearY(L.c[col][I[j]], c.y[j]), n \o ".height">> >>)
\* Text beside the values: at its own period (the middle of it), rounded.
TextsVerdict(tt, L, col, n) ==
    LET N == Len(L.u)
        mid(i) == IF Categorical(L) THEN i - 1 ELSE L.u[i] + ((IF i = N THEN IxEnd(L) ELSE L.u[i + 1]) - L.u[i]) \div 2
        full == IF Categorical(L) THEN N <= 15 ELSE N <= 24
    IN First(<< <<full => Len(tt) = N, n \o ".texts.count">>, <<~full /\ ~Categorical(L) => tt = <<>>, n \o ".texts.many">>,
                <<\A j \in 1..Len(tt) : \E i \in 1..N : tt[j].x = mid(i) /\ NearTol(L.c[col][i], tt[j].v, HalfUnit(col)), n \o ".texts.values">> >>)
\* The categories: each tick names its own period; if there are not too many, all are there.
MonthName == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
TickLabel(L, i) ==
    LET d == Civil(ToWall(L.tz, L.u[i]) \div DAY) m == d[2] y == ToString(d[1])
    IN IF Rank(L.f) = 6 THEN y
       ELSE IF Rank(L.f) = 5 THEN LET q == (m - 1) \div 3 + 1 IN "Q" \o ToString(q) \o " " \o (IF i = 1 \/ q = 1 THEN y ELSE "")
       ELSE MonthName[m] \o " " \o (IF i = 1 \/ m = 1 THEN y ELSE "")
TicksVerdict(tt, L, n) ==
    IF ~Categorical(L) THEN "ok"
    ELSE First(<< <<\A j \in 1..Len(tt) : tt[j].x \in 0..(Len(L.u) - 1) /\ tt[j].s = TickLabel(L, tt[j].x + 1), n \o ".ticks.labels">>,
                  <<Len(tt) > 0 /\ tt[1].x = 0 /\ Len(tt) <= 15 /\ (Len(L.u) <= 15 => Len(tt) = Len(L.u)), n \o ".ticks.count">>,
                  <<\A j \in 1..(Len(tt) - 1) : tt[j].x < tt[j + 1].x, n \o ".ticks.order">> >>)
RECURSIVE AllOk(_)
AllOk(vs) == IF vs = <<>> THEN "ok" ELSE IF vs[1] # "ok" THEN vs[1] ELSE AllOk(Tail(vs))
\* One line on axes. nm: names of the children shown ("" : children not shown).
AxVerdict(ax, L, nm, dim, texts, n) ==
    LET col == DimCol(L, dim)
    IN IF ax.un # Unit_(col) THEN n \o ".unit"
       ELSE IF Len(ax.curves) # 1 + Len(nm) THEN n \o ".curves"
       ELSE IF Len(ax.legend) # Len(nm) \/ {ax.legend[i] : i \in 1..Len(ax.legend)} # {nm[i] : i \in 1..Len(nm)} THEN n \o ".legend"
       ELSE AllOk(<<CurveVerdict(ax.curves[1], L, col, HowDrawn(L, col, TRUE), "", n \o ".parent")>>
                  \o [i \in 1..Len(nm) |-> CurveVerdict(ax.curves[i + 1], L.ch[nm[i]], DimCol(L.ch[nm[i]], dim), HowDrawn(L, col, FALSE), nm[i], n \o ".child")]
                  \o <<IF texts THEN TextsVerdict(ax.texts, L, col, n) ELSE IF ax.texts = <<>> THEN "ok" ELSE n \o ".texts.unwanted">>)
Dims(L) == CASE L.k = "vol" -> <<"vol">> [] L.k = "pri" -> <<"pri">> [] L.k = "rev" -> <<"rev">> [] L.k = "all" -> <<"vol", "pri", "rev">>
LinePlot(o, e) ==
    LET L == o.v  V == e.r.v  dd == Dims(L)  nm == IF e.children THEN o.nm ELSE <<>>
    IN IF ~Ok(e.r) THEN "plot.raised"
       ELSE IF Len(V.axes) # Len(dd) THEN "plot.axes"
       ELSE AllOk([i \in 1..Len(dd) |-> AxVerdict(V.axes[i], L, nm, dd[i], TRUE, "plot")] \o <<TicksVerdict(V.axes[Len(dd)].ticks, L, "plot")>>)
\* Several lines on the same axes, with a dimension if the line has all.
PlotDim(L, kind) == IF L.k # "all" THEN L.k ELSE kind
RECURSIVE Onto(_, _, _, _)
Onto(ls, kinds, k, first) ==    \* number of lines that are drawn; the following one is refused
    IF k > Len(ls) THEN k - 1
    ELSE IF PlotDim(ls[k], kinds[k]) = NoKind THEN k - 1
    ELSE IF k > 1 /\ (NormF(ls[k].f) # NormF(ls[1].f) \/ PlotDim(ls[k], kinds[k]) # first) THEN k - 1
    ELSE Onto(ls, kinds, k + 1, first)
AxesPlot(ls, e) ==
    LET V == e.r.v  n == Onto(ls, e.kinds, 1, PlotDim(ls[1], e.kinds[1]))
    IN IF ~Ok(e.r) THEN "plotax.raised"
       ELSE IF V.done # n THEN (IF V.done > n THEN "plotax.accepted" ELSE "plotax.refused")
       ELSE IF n = 0 THEN "ok"
       ELSE LET dim == PlotDim(ls[1], e.kinds[1])  col(i) == DimCol(ls[i], dim)
            IN IF V.ax.un # Unit_(col(1)) THEN "plotax.unit"
               ELSE IF Len(V.ax.curves) < n THEN "plotax.curves"
               ELSE AllOk([i \in 1..n |-> CurveVerdict(V.ax.curves[i], ls[i], col(i), HowDrawn(ls[i], col(i), TRUE), "", "plotax")])
\* A state: volumes and prices of offtake (as positive), sourced, unsourced.
StatePlot(s, e) ==
    LET V == e.r.v  off == TLCEval(Neg(s.off))  cost == TLCEval(PnlCost(s))  src == s.src  un == TLCEval(Unsourced(s))
        nm(L, names) == IF e.children /\ L.s = "nest" THEN names ELSE <<>>
        want == <<[L |-> off, nm |-> nm(off, e.r.v.nmoff), dim |-> "vol"], [L |-> src, nm |-> nm(src, e.r.v.nmsrc), dim |-> "vol"], [L |-> un, nm |-> <<>>, dim |-> "vol"],
                  [L |-> cost, nm |-> <<>>, dim |-> "pri"], [L |-> src, nm |-> nm(src, e.r.v.nmsrc), dim |-> "pri"], [L |-> un, nm |-> <<>>, dim |-> "pri"]>>
        titles == <<"Offtake volume", "Sourced volume", "Unsourced volume", "Procurement price", "Sourced price", "Unsourced price">>
    IN IF ~Ok(e.r) THEN "splot.raised"
       ELSE IF \E x \in {<<off, V.nmoff>>, <<src, V.nmsrc>>} : Len(x[2]) # (IF x[1].s = "nest" THEN Cardinality(DOMAIN x[1].ch) ELSE 0)
                 \/ (x[1].s = "nest" /\ {x[2][i] : i \in 1..Len(x[2])} # DOMAIN x[1].ch) THEN "splot.children"
       ELSE IF Len(V.axes) # 6 THEN "splot.axes"
       ELSE IF \E i \in 1..6 : V.axes[i].title # titles[i] THEN "splot.titles"
       ELSE AllOk([i \in 1..6 |-> AxVerdict(V.axes[i], want[i].L, want[i].nm, want[i].dim, FALSE, "splot" \o ToString(i))])
PlotOpNames == {"plot", "plotax", "splot"}
PlotOutcome(e, store) ==
    CASE e.op = "plot" -> IF ~Has(store, e.a) THEN [v |-> "ok", store |-> store] ELSE Plain(e, store, LinePlot(store[e.a], e))
      [] e.op = "splot" -> IF ~Has(store, e.a) THEN [v |-> "ok", store |-> store] ELSE Plain(e, store, StatePlot(Get(store, e.a), e))
      [] e.op = "plotax" -> IF \E i \in 1..Len(e.as) : ~Has(store, e.as[i]) THEN [v |-> "ok", store |-> store]
                            ELSE Plain(e, store, AxesPlot([i \in 1..Len(e.as) |-> Get(store, e.as[i])], e))
=============================================================================
