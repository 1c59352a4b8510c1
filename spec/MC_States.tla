----------------------------- MODULE MC_States -----------------------------
(***************************************************************************)
(* The portfolio-state system: states of offtake, unsourced price and       *)
(* sourced lines, and every operation on them, in any order.  The           *)
(* invariants are the laws of C17 (balance), C18 (editing) and C19          *)
(* (component-wise arithmetic, resampling, slicing, concatenation).         *)
(***************************************************************************)
EXTENDS States, Worlds, Json

CONSTANTS Contexts, Rows, Vecs, Srcs, Depth, Bases
VARIABLES ctx, store, n, script
vars == <<ctx, store, n, script>>

RowsIx(r) == BlockIx(ctx, r)
Nm(k) == "x" \o ToString(k)
Reg(m) == [t |-> "reg", n |-> m]
Item(d, ix, v) == [d |-> d, un |-> "none", sc |-> FALSE, ix |-> ix, v |-> [i \in 1..Len(ix.u) |-> v[((i - 1) % Len(v)) + 1]]]
Line(ds, ix, vs) == [t |-> "items", items |-> [i \in 1..Len(ds) |-> Item(ds[i], ix, vs[i])]]
Back(v) == [i \in 1..Len(v) |-> v[Len(v) + 1 - i]]
\* The sourced part: nothing, a price and a volume, or exactly the opposite of the offtake.
SrcOf(kind, ix, v) == CASE kind = "none" -> [t |-> "none"]
                        [] kind = "some" -> Line(<<"q", "r">>, ix, <<Back(v), v>>)
                        [] kind = "full" -> Line(<<"q", "p">>, ix, <<[i \in 1..Len(v) |-> RNeg(v[i])], Back(v)>>)
                        [] kind = "zero" -> Line(<<"q", "r">>, ix, << << <<0, 1>> >>, << <<0, 1>> >> >>)
SNew(ix, v, v2, kind) == [op |-> "snew", parts |-> [off |-> Line(<<"q">>, ix, <<v>>), pu |-> Line(<<"p">>, ix, <<v2>>), src |-> SrcOf(kind, ix, v)]]

Names == DOMAIN store
New == {Nm(n)}
Pairs == {ab \in Names \X Names : Nm(n) \in {ab[1], ab[2]}}
Cuts == CutsOf(ctx)
NewActs == {SNew(RowsIx(r), v, v2, k) : r \in Rows, v \in Vecs, v2 \in Vecs, k \in Srcs}
SetLine(k, ix, v) == CASE k = "offtakevolume" -> Line(<<"w">>, ix, <<v>>) [] k = "unsourcedprice" -> Line(<<"p">>, ix, <<Back(v)>>) [] OTHER -> Line(<<"q", "r">>, ix, <<v, Back(v)>>)
OpActs ==
    {[op |-> "sbin", o |-> o, a |-> ab[1], b |-> Reg(ab[2])] : o \in {"add", "sub"}, ab \in Pairs}
    \cup {[op |-> "sneg", a |-> a] : a \in New}
    \cup {[op |-> "sasfreq", a |-> a, f |-> f] : a \in New, f \in GrainNames(store[Nm(n)].v)}
    \cup {[op |-> "sslice", a |-> a, lo |-> lo, hi |-> hi, how |-> "ts", step |-> 1, holes |-> <<>>]
             : a \in New, lo \in {<<>>} \cup {<<c>> : c \in Cuts}, hi \in {<<>>} \cup {<<c>> : c \in Cuts}}
    \cup {[op |-> "sset", a |-> a, k |-> k, parts |-> [x |-> SetLine(k, RowsIx(r), v)]]
             : a \in New, k \in {"offtakevolume", "unsourcedprice", "sourced", "add"}, r \in Rows \cup {<<1, 4>>}, v \in Vecs}
    \cup {[op |-> "sconcat", as |-> <<ab[1], ab[2]>>] : ab \in Pairs}
Do(e0) == LET e == e0 @@ [out |-> Nm(n + 1)]
              L == TLCEval(StateResult(e, store))
          IN /\ n' = n + 1 /\ UNCHANGED <<ctx, script>>
             /\ IsState(L) /\ store' = Put(store, e.out, [o |-> "state", v |-> L])
Init == ctx \in Contexts /\ store = <<>> /\ n = 0 /\ script = <<>>
Next == /\ n < Depth
        /\ \E e \in (IF n < Bases THEN NewActs ELSE OpActs) : Do(e)
Spec == Init /\ [][Next]_vars

(* ------------------------------- properties ------------------------------ *)
S == store[Nm(n)].v
States_ == {store[m].v : m \in Names}
SeqR(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : EqR(a[i], b[i])
Unk1(x) == [i \in 1..Len(x) |-> IF IsFin(x[i]) THEN x[i] ELSE UNK]      \* only where it is a number
LineEq(A0, B0) ==
  LET A == TLCEval(A0)  B == TLCEval(B0) IN
                \/ IsBad(A) /\ IsBad(B)
                \/ IF IsBad(A) \/ IsBad(B) THEN FALSE
                   ELSE A.k = B.k /\ IxOf(A) = IxOf(B) /\ \A x \in ColsOf(A.k) : SeqR(Unk1(A.c[x]), B.c[x]) \/ SeqR(A.c[x], Unk1(B.c[x]))
StEq(A0, B0) == LET A == TLCEval(A0)  B == TLCEval(B0) IN IF IsBad(A) \/ IsBad(B) THEN IsBad(A) /\ IsBad(B)
              ELSE LineEq(A.off, B.off) /\ LineEq(A.src, B.src) /\ LineEq(Unsourced(A), Unsourced(B))
\* C17
Balance == n > 0 => StateOK(S)
\* The unsourced price matters only where something is unsourced.
Parts3 == n > 0 => LET f == TLCEval(Fraction(S))  g == TLCEval(OneMinus(f))  m == TLCEval(Mtm(S))  pc == TLCEval(PnlCost(S))  un == TLCEval(Unsourced(S)) IN
    /\ LineEq(Neg(Comp(S, "netposition")), Unsourced(S))
    /\ (f.s = "ser" => \A i \in 1..Len(S.u) : (IsFin(f.m[i])) => /\ EqR(RMul(f.m[i], Neg(S.off).c.q[i]), S.src.c.q[i])
                                                                  /\ EqR(RMul(g.m[i], Neg(S.off).c.q[i]), un.c.q[i]))
    /\ IsLine(m) => /\ m.k = "rev"
                    /\ \A i \in 1..Len(S.u) : EqR(m.c.r[i], RSub(RMul(S.src.c.q[i], S.pu.c.p[i]), S.src.c.r[i])) \/ ~IsFin(m.c.r[i])
    \* the revenue of the whole portfolio if everything sourced were sold: the offtake at the unsourced price
    /\ IsLine(m) => \A i \in 1..Len(S.u) : LET r == pc.c.r[i] IN
                        EqR(RAdd(r, m.c.r[i]), RMul(Neg(S.off).c.q[i], S.pu.c.p[i])) \/ ~IsFin(r) \/ ~IsFin(m.c.r[i])
\* C18
Editing == n > 0 => LET ix == IxOf(S) IN
    /\ StEq(SetSpec(S, "offtakevolume", S.off), S) /\ StEq(SetSpec(S, "unsourcedprice", S.pu), S) /\ StEq(SetSpec(S, "sourced", S.src), S)
    /\ \A T \in States_ :
        LET o == TLCEval(SetSpec(S, "offtakevolume", T.off))  p == TLCEval(SetSpec(S, "unsourcedprice", T.pu))  s == TLCEval(SetSpec(S, "sourced", T.src))
            a == TLCEval(SetSpec(S, "add", T.src))
        IN /\ IsState(o) => /\ o.off = T.off /\ o.pu = CutTo(S.pu, T.u) /\ LineEq(o.src, CutTo(S.src, T.u)) /\ Covers(S.off, T.u)
           /\ IsState(p) => /\ p.pu = CutTo(T.pu, S.u) /\ p.off = S.off /\ p.src = S.src /\ Covers(T.pu, S.u)
           /\ IsState(s) => /\ LineEq(s.src, CutTo(T.src, S.u)) /\ s.off = S.off /\ s.pu = S.pu
           /\ (CompatIx(S, T) /\ Covers(T.pu, S.u)) => IsState(p) /\ IsState(s) /\ IsState(a)
           /\ ~CompatIx(S, T) => IsBad(o) /\ IsBad(p) /\ IsBad(s) /\ IsBad(a)
           /\ IsState(a) => LineEq(a.src, Add(S.src, CutTo(T.src, a.u)))
    \* sourcing everything that is unsourced leaves nothing, at unchanged cost
    /\ LET un == TLCEval(Unsourced(S))  a == TLCEval(SetSpec(S, "add", un)) IN
       (IsLine(un) /\ \A i \in 1..Len(S.u) : IsFin(un.c.r[i])) =>
            IsState(a) /\ (\A i \in 1..Len(S.u) : IsZero(UnsVol(a).c.q[i])) /\ SeqR(PnlCost(S).c.r, a.src.c.r)
\* C19
Arithmetic == n > 0 =>
    /\ StEq(NegState(NegState(S)), S)
    /\ \A T \in States_ :
        LET Z == TLCEval(AddState(S, T)) IN
        /\ StEq(Z, AddState(T, S))
        /\ StEq(StateBin("sub", S, T), AddState(S, NegState(T)))
        /\ StEq(StateBin("sub", S, T), StateBin("rsub", T, S))
        /\ IF CompatIx(S, T) /\ Common(S.u, T.u) # <<>> THEN IsState(Z) ELSE IsBad(Z)
        /\ IsState(Z) => LET uz == TLCEval(Unsourced(Z))  us == TLCEval(CutTo(Unsourced(S), Z.u))  ut == TLCEval(CutTo(Unsourced(T), Z.u))  pz == TLCEval(PnlCost(Z))
                         IN /\ LineEq(Z.off, Add(S.off, T.off)) /\ LineEq(Z.src, Add(S.src, T.src))
                            /\ \A i \in 1..Len(Z.u) : EqR(uz.c.q[i], RAdd(us.c.q[i], ut.c.q[i]))
                            /\ \A i \in 1..Len(Z.u) : IsZero(uz.c.q[i]) \/ EqR(uz.c.r[i], RAdd(us.c.r[i], ut.c.r[i])) \/ ~IsFin(us.c.r[i]) \/ ~IsFin(ut.c.r[i])
    /\ LET D == TLCEval(StateBin("mul", S, Const(S, <<5, 2>>))) IN
         /\ StEq(StateBin("div", D, Const(S, <<5, 2>>)), S) /\ LineEq(Unsourced(D), Scale(Unsourced(S), Const(S, <<5, 2>>)))
         /\ D.pu = S.pu
    /\ StEq(AddState(S, S), StateBin("mul", S, Const(S, <<2, 1>>)))
Resampling == n > 0 => \A f \in GrainsOf(S) : LET Z == TLCEval(AsFreqState(S, f)) IN
    /\ IsBad(Z) <=> IsBad(AsFreq(S.off, f))
    /\ IsState(Z) =>
        /\ StateOK(Z) /\ LineEq(Z.off, AsFreq(S.off, f)) /\ LineEq(Z.src, AsFreq(S.src, f))
        /\ LET u == TLCEval(Unsourced(Z))  v == TLCEval(AsFreq(Unsourced(S), f)) IN
             \A i \in 1..Len(Z.u) : EqR(u.c.q[i], v.c.q[i]) /\ (EqR(u.c.r[i], v.c.r[i]) \/ ~IsFin(v.c.r[i]) \/ IsZero(v.c.q[i]))
        /\ Rank(NormF(f)) < Rank(S.f) => StEq(AsFreqState(Z, S.f), S)
Cutting == (n > 0 /\ Len(S.u) <= 8) =>
    \A c \in {S.u[i] : i \in 2..Len(S.u)} :
        LET A == TLCEval(CutState(S, SelectSeq(S.u, LAMBDA x : x < c)))  B == TLCEval(CutState(S, SelectSeq(S.u, LAMBDA x : x >= c))) IN
        (IsState(A) /\ IsState(B)) => /\ StEq(ConcatStates(<<A, B>>), S) /\ StEq(ConcatStates(<<B, A>>), S)
                                      /\ LineEq(Unsourced(A), CutTo(Unsourced(S), A.u)) /\ LineEq(PnlCost(B), CutTo(PnlCost(S), B.u))

VecsQ == {<< <<2, 1>>, <<-3, 1>>, <<1, 2>> >>, << <<0, 1>>, <<3, 1>>, <<-1, 1>> >>}
RowsQ == {<<1, 2>>, <<2, 4>>}
(* ------------------------------- simulation ------------------------------ *)
SimVec(x) == [i \in 1..3 |-> RandomElement({<<0, 1>>, <<1, 1>>, <<-2, 1>>, <<7, 2>>, <<30, 1>>, <<-45, 1>>, <<100, 1>>})]
Pick1(X) == RandomElement(X)
SimNew == SNew(RowsIx(Pick1(Rows)), SimVec(n), SimVec(n + 1), Pick1(Srcs))
SimAct ==
    LET a == Pick1(Names)  b == Pick1(Names)  o == Pick1(1..12)  small == Len(store[a].v.u) <= 8 IN
    CASE o \in 1..3 -> [op |-> "sbin", o |-> Pick1({"add", "sub"}), a |-> a, b |-> Reg(b)]
      [] o = 4 -> [op |-> "sneg", a |-> a]
      [] o \in 5..6 -> [op |-> "sasfreq", a |-> a, f |-> Pick1(GrainNames(store[a].v) \cup {"MS"})]
      [] o \in 7..8 -> [op |-> "sslice", a |-> a, lo |-> Pick1({<<>>} \cup {<<c>> : c \in Cuts}), hi |-> Pick1({<<>>} \cup {<<c>> : c \in Cuts}), how |-> "ts", step |-> 1, holes |-> <<>>]
      [] o \in 9..10 -> LET k == Pick1({"offtakevolume", "unsourcedprice", "sourced", "add"})
                       IN [op |-> "sset", a |-> a, k |-> k, parts |-> [x |-> SetLine(k, IF Pick1(1..3) > 1 /\ small THEN IxOf(store[a].v) ELSE RowsIx(Pick1(Rows \cup {<<1, 4>>})), SimVec(n))]]
      [] o = 11 -> [op |-> "sconcat", as |-> <<a, b>>]
      [] o = 12 -> SimNew
SimNext == /\ n < Depth
           /\ \E e0 \in {IF n < Bases \/ Names = {} THEN SimNew ELSE SimAct} : \E e \in {e0 @@ [out |-> Nm(n + 1)]} : \E L \in {Unopen(StateResult(e, store))} :
                 /\ n' = n + 1 /\ UNCHANGED ctx /\ script' = Append(script, e)
                 /\ store' = IF IsState(L) THEN Put(store, e.out, [o |-> "state", v |-> L]) ELSE store
SimSpec == Init /\ [][SimNext]_vars
Emit == n = Depth => PrintT(<<"SCRIPT", ToJson(script)>>)
=============================================================================
