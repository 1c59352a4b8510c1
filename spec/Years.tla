------------------------------- MODULE Years -------------------------------
(***************************************************************************)
(* Mapping data onto another year (C29).  Every target month takes its data *)
(* from one source month of the same name: itself if the source has it,     *)
(* otherwise the least used, then the earliest one.  Within a month, days   *)
(* at which the clock changes are mapped to each other; workdays to the     *)
(* least used, then nearest, workday with the same name; holidays to the    *)
(* same holiday, or else to any holiday or Sunday.  Shorter periods keep    *)
(* their place in the day.  Without correspondence, the call is refused.    *)
(***************************************************************************)
EXTENDS Peak

(* Greedy assignment: st.m target -> source (0: none yet), st.c times used. *)
Best(S, c, cost) == CHOOSE s \in S : \A x \in S : c[s] < c[x] \/ (c[s] = c[x] /\ (cost[s] < cost[x] \/ (cost[s] = cost[x] /\ s <= x)))
RECURSIVE Assign(_, _, _)
Assign(todo, K, st) ==      \* todo: sequence of targets; K[t]: candidates and cost
    IF todo = <<>> THEN st
    ELSE LET t == todo[1] IN
         IF K[t].S = {} THEN Assign(Tail(todo), K, st)
         ELSE LET s == Best(K[t].S, st.c, K[t].cost)
              IN Assign(Tail(todo), K, TLCEval([m |-> [st.m EXCEPT ![t] = s], c |-> [st.c EXCEPT ![s] = @ + 1]]))
Seq1(n) == [i \in 1..n |-> i]
Start(tn, sn) == [m |-> [t \in tn |-> 0], c |-> [s \in sn |-> 0]]

YM(tz, u) == LET c == Civil(ToWall(tz, u) \div DAY) IN <<c[1], c[2]>>
\* months: sequences of <<year, month>>
MonthMap(src, tgt) ==
    LET T == 1..Len(tgt)  S == 1..Len(src)
        same == [t \in T |-> [S |-> {s \in S : src[s] = tgt[t]}, cost |-> [s \in S |-> src[s][1]]]]
        name == [t \in T |-> [S |-> {s \in S : src[s][2] = tgt[t][2]}, cost |-> [s \in S |-> src[s][1]]]]
        st1 == TLCEval(Assign(Seq1(Len(tgt)), TLCEval(same), Start(T, S)))
    IN Assign(SelectSeq(Seq1(Len(tgt)), LAMBDA t : st1.m[t] = 0), TLCEval(name), st1).m

AbsI(x) == IF x < 0 THEN -x ELSE x
HolidayOf(hol, dn) == LET c == Civil(dn)  H == {k \in 1..Len(hol) : <<hol[k].y, hol[k].m, hol[k].d>> = c} IN IF H = {} THEN "" ELSE hol[CHOOSE k \in H : TRUE].n
DayInfo(tz, u, hol) == LET dn == ToWall(tz, u) \div DAY IN [wd |-> Weekday(dn), dd |-> Civil(dn)[3], hol |-> HolidayOf(hol, dn), dst |-> Duration("D", tz, u) # DAY]
\* ti, si: day information, by row, of the target and the source month
DayMap(ti, si) ==
    LET T == DOMAIN ti  S == DOMAIN si
        cost == [t \in T |-> [s \in S |-> AbsI(si[s].dd - ti[t].dd)]]
        K(ok(_, _)) == TLCEval([t \in T |-> [S |-> {s \in S : ok(ti[t], si[s])}, cost |-> cost[t]]])
        clock(t, s) == s.dst
        work(t, s) == ~s.dst /\ s.hol = "" /\ s.wd = t.wd
        named(t, s) == ~s.dst /\ s.hol = t.hol
        rest(t, s) == ~s.dst /\ (s.hol # "" \/ s.wd = 7)
        lo == CHOOSE t \in T : \A x \in T : t <= x
        Ts(p(_)) == SelectSeq([k \in 1..Cardinality(T) |-> k + lo - 1], LAMBDA t : p(t))
        st1 == TLCEval(Assign(Ts(LAMBDA t : ti[t].dst), K(clock), Start(T, S)))
        st2 == TLCEval(Assign(Ts(LAMBDA t : ~ti[t].dst /\ ti[t].hol = ""), K(work), st1))
        st3 == TLCEval(Assign(Ts(LAMBDA t : ~ti[t].dst /\ ti[t].hol # ""), K(named), st2))
    IN Assign(Ts(LAMBDA t : ~ti[t].dst /\ ti[t].hol # "" /\ st3.m[t] = 0), K(rest), st3).m

\* Row of the source for each target: a sequence; contains 0 where there is no correspondence.
MonthRows(tz, us) ==        \* <<month, first row, last row>> of a sequence of days
    LET ym == TLCEval([i \in 1..Len(us) |-> YM(tz, us[i])])
        st == SelectSeq(Seq1(Len(us)), LAMBDA i : i = 1 \/ ym[i] # ym[i - 1])
    IN TLCEval([k \in 1..Len(st) |-> [ym |-> ym[st[k]], i |-> st[k], j |-> IF k = Len(st) THEN Len(us) ELSE st[k + 1] - 1]])
DailyRows(tz, su, tu, hol) ==
    LET SR == MonthRows(tz, su)  TR == MonthRows(tz, tu)
        mm == TLCEval(MonthMap(TLCEval([k \in 1..Len(SR) |-> SR[k].ym]), TLCEval([k \in 1..Len(TR) |-> TR[k].ym])))
        si == TLCEval([i \in 1..Len(su) |-> DayInfo(tz, su[i], hol)])
        ti == TLCEval([i \in 1..Len(tu) |-> DayInfo(tz, tu[i], hol)])
        dm == TLCEval([k \in 1..Len(TR) |-> IF mm[k] = 0 THEN [t \in TR[k].i..TR[k].j |-> 0]
                                           ELSE LET s == SR[mm[k]] IN TLCEval(DayMap(TLCEval([t \in TR[k].i..TR[k].j |-> ti[t]]), TLCEval([x \in s.i..s.j |-> si[x]])))])
        mon(t) == CHOOSE k \in 1..Len(TR) : TR[k].i <= t /\ t <= TR[k].j
    IN [t \in 1..Len(tu) |-> dm[mon(t)][t]]
RowsFor(f, tz, su, tu, hol) ==
    IF Rank(f) >= 4 THEN MonthMap([i \in 1..Len(su) |-> YM(tz, su[i])], [i \in 1..Len(tu) |-> YM(tz, tu[i])])
    ELSE IF Rank(f) = 3 THEN DailyRows(tz, su, tu, hol)
    ELSE LET sd == TLCEval(Periods("D", tz, su[1], Right(f, tz, su[Len(su)])))
             td == TLCEval(Periods("D", tz, tu[1], Right(f, tz, tu[Len(tu)])))
             m == TLCEval(DailyRows(tz, sd, td, hol))
             \* first row of each day
             sr == TLCEval([d \in 1..Len(sd) |-> (sd[d] - su[1]) \div Freqs[f].sec])
             tr == TLCEval([d \in 1..Len(td) |-> (td[d] - tu[1]) \div Freqs[f].sec])
             day(k) == CHOOSE d \in 1..Len(td) : tr[d] < k /\ (d = Len(td) \/ k <= tr[d + 1])
         IN [k \in 1..Len(tu) |-> LET d == day(k) IN IF m[d] = 0 THEN 0 ELSE sr[m[d]] + (k - tr[d])]
Covered(rows) == \A k \in 1..Len(rows) : rows[k] # 0

\* the same months, in another year
YearIx(ix, year) ==
    LET sod == IxSod(ix)  y0 == YM(ix.tz, ix.u[1])[1]
        move(u) == LET c == Civil(ToWall(ix.tz, u) \div DAY) IN AtDay(ix.tz, DayNo(c[1] + year - y0, c[2], c[3]), sod)
    IN TLCEval(Periods(ix.f, ix.tz, move(ix.u[1]), move(IxEnd(ix))))

VYearMap(e) ==
    IF e.api = "index_with_year"
    THEN IF ~Ok(e.r) THEN "year.raised" ELSE IF e.r.v.u # YearIx(e.ix, e.year) THEN "year.index" ELSE IF e.r.v.f # e.ix.f \/ e.r.v.tz # e.ix.tz THEN "year.freq" ELSE "ok"
    ELSE IF e.to = "index" /\ (e.ix.f # e.t.f \/ e.ix.tz # e.t.tz) THEN (IF Err(e.r) THEN "ok" ELSE "year.accepted")
    ELSE LET tu == TLCEval(IF e.to = "year" THEN YearIx(e.ix, e.year) ELSE e.t.u)
             rows == TLCEval(RowsFor(e.ix.f, e.ix.tz, e.ix.u, tu, e.hol))
         IN IF ~Covered(rows) THEN (IF Err(e.r) THEN "ok" ELSE "year.accepted")
            ELSE IF ~Ok(e.r) THEN "year.raised"
            ELSE First(<< <<e.r.v.u = tu, "year.index">>, <<e.r.v.rows = rows, "year.rows">>, <<e.mut = <<>>, "year.mutates">> >>)

\* lines: power and price are taken over; energy and revenue follow the duration
RECURSIVE YearLine(_, _, _)
YearLine(L, tu, rows) ==
    IF L.s = "nest" THEN NestOrBad(TLCEval([n \in DOMAIN L.ch |-> YearLine(L.ch[n], tu, rows)]))
    ELSE LET ds == DurOf(L)  dt == TLCEval(DurH(L.f, L.tz, tu))  n == Len(tu)
             take(x) == [k \in 1..n |-> L.c[x][rows[k]]]
             w == take("w")  p == take("p")  q == Map2(RMul, w, dt)
             r == [k \in 1..n |-> RDiv(RMul(L.c.r[rows[k]], dt[k]), ds[rows[k]])]
         IN Flat(L.k, [f |-> L.f, tz |-> L.tz, u |-> tu],
                 TLCEval(CASE L.k = "vol" -> [w |-> w, q |-> q] [] L.k = "pri" -> [p |-> p] [] L.k = "rev" -> [r |-> r]
                           [] L.k = "all" -> [w |-> w, p |-> p, q |-> q, r |-> [k \in 1..n |-> IF IsFin(p[k]) THEN RMul(p[k], q[k]) ELSE UNK]]))
YearOutcome(e, store) ==
    IF \E n \in Operands(e) : ~Has(store, n) THEN [v |-> "ok", store |-> IF "out" \in DOMAIN e THEN Drop(store, e.out) ELSE store]
    ELSE LET L == Get(store, e.a)
             tu == TLCEval(YearIx(IxOf(L), e.year))
             rows == TLCEval(RowsFor(L.f, L.tz, L.u, tu, e.hol))
         IN Judge(e, store, IF ~Covered(rows) THEN Bad ELSE YearLine(L, tu, rows), "mapyear")
\* Description of the days of an index.
VChar(e) ==
    IF e.ix.f # "D" THEN (IF Err(e.r) THEN "ok" ELSE "characterize.accepted")
    ELSE IF ~Ok(e.r) THEN "characterize.raised"
    ELSE LET n == Len(e.ix.u)
             dn == TLCEval([i \in 1..n |-> ToWall(e.ix.tz, e.ix.u[i]) \div DAY])
             I == TLCEval([i \in 1..n |-> DayInfo(e.ix.tz, e.ix.u[i], e.hol)])
             col(f(_)) == [i \in 1..n |-> f(i)]
         IN First(<< <<e.r.v.u = e.ix.u, "characterize.index">>,
                     <<e.r.v.wd = col(LAMBDA i : I[i].wd), "characterize.weekday">>,
                     <<e.r.v.date = col(LAMBDA i : Civil(dn[i])), "characterize.date">>,
                     <<e.r.v.hol = col(LAMBDA i : I[i].hol), "characterize.holiday">>,
                     <<e.r.v.dst = col(LAMBDA i : I[i].dst), "characterize.clockchange">>, <<e.mut = <<>>, "characterize.mutates">> >>)
VYear(e) == IF e.op = "charix" THEN VChar(e) ELSE VYearMap(e)
YearLineOps == {"mapyear"}
YearOpNames == {"year", "charix"}
=============================================================================
