------------------------------ MODULE MC_Lines ------------------------------
(***************************************************************************)
(* The portfolio-line system: a growing set of named lines, to which any    *)
(* library operation may be applied in any order.  Its state space is       *)
(* explored exhaustively within bounds (Spec), and random behaviours are    *)
(* turned into scripts for the implementation (SimSpec).  The operations    *)
(* are those of trace validation (LineResult); the invariants are the       *)
(* properties C01-C14 and C31 as laws that relate them to each other.       *)
(***************************************************************************)
EXTENDS LineOps, Worlds, TLC, Json

CONSTANTS Contexts,   \* names of the calendars
          Vecs,       \* value vectors
          Rows,       \* index variants: <<first, last>> row
          Dims,       \* dimensions a new line is created from
          Depth,      \* number of operations
          Bases       \* number of lines created first
VARIABLES ctx, store, n, script
vars == <<ctx, store, n, script>>

RowsIx(r) == BlockIx(ctx, r)
DimsQ == {<<"w">>, <<"p">>, <<"r">>, <<"p", "r">>}
DimsT == {<<"w">>, <<"q">>, <<"p">>, <<"r">>, <<"w", "p">>, <<"q", "r">>, <<"p", "r">>}
Item(d, ix, v) == [d |-> d, un |-> "none", sc |-> FALSE, ix |-> ix, v |-> [i \in 1..Len(ix.u) |-> v[((i - 1) % Len(v)) + 1]]]
NewAct(ds, r, vs) == [op |-> "new", items |-> [i \in 1..Len(ds) |-> Item(ds[i], RowsIx(r), vs[i])], form |-> "dict"]

(* --------------------------------- calls --------------------------------- *)
Nm(k) == "x" \o ToString(k)
Reg(m) == [t |-> "reg", n |-> m]
Names == DOMAIN store
New == {Nm(n)}              \* every operation uses the newest line (and possibly an older one)
Pairs == {ab \in Names \X Names : Nm(n) \in {ab[1], ab[2]}}
NewActs == {NewAct(ds, r, <<v1, v2>>) : ds \in Dims, r \in Rows, v1 \in Vecs, v2 \in Vecs}
Cuts == CutsOf(ctx)
OpActs ==
    {[op |-> "bin", o |-> o, a |-> ab[1], b |-> Reg(ab[2])] : o \in {"add", "sub", "mul", "div", "unite"}, ab \in Pairs}
    \cup {[op |-> o, a |-> a] : o \in {"neg", "flatten"}, a \in New}
    \cup {[op |-> "part", a |-> a, k |-> k] : k \in {"vol", "pri", "rev"}, a \in New}
    \cup {[op |-> "asfreq", a |-> a, f |-> f] : a \in New, f \in GrainNames(store[Nm(n)].v)}
    \cup {[op |-> "slice", a |-> a, lo |-> lo, hi |-> hi, how |-> "ts", step |-> 1, holes |-> <<>>]
             : a \in New, lo \in {<<>>} \cup {<<c>> : c \in Cuts}, hi \in {<<>>} \cup {<<c>> : c \in Cuts}}
    \cup {[op |-> "loc", a |-> a, lo |-> <<>>, hi |-> <<c>>, how |-> "slice", step |-> 1, holes |-> <<>>] : a \in New, c \in Cuts}
    \cup {[op |-> "reindex", a |-> a, ix |-> RowsIx(r)] : a \in New, r \in Rows \cup {<<1, 4>>}}
    \cup {[op |-> "nest", bad |-> FALSE, ch |-> [x \in {"A", "B"} |-> IF x = "A" THEN Reg(ab[1]) ELSE Reg(ab[2])]] : ab \in Pairs}
    \cup {[op |-> "setchild", a |-> ab[1], n |-> x, b |-> Reg(ab[2])] : ab \in Pairs, x \in {"B", "C"}}
    \cup {[op |-> o, a |-> a, n |-> x] : o \in {"dropchild", "child"}, a \in New, x \in {"A", "B"}}
    \cup {[op |-> "concat", as |-> <<ab[1], ab[2]>>] : ab \in Pairs}

Do(e0) == LET e == e0 @@ [out |-> Nm(n + 1)]
              L == TLCEval(LineResult(e, store))
          IN /\ n' = n + 1 /\ UNCHANGED ctx
             /\ script' = <<>>
             /\ IsLine(L) /\ store' = Put(store, e.out, Obj(L, <<>>))
Init == ctx \in Contexts /\ store = <<>> /\ n = 0 /\ script = <<>>
Next == /\ n < Depth
        /\ \E e \in (IF n < Bases THEN NewActs ELSE OpActs) : Do(e)
Spec == Init /\ [][Next]_vars

(* ------------------------------- properties ------------------------------ *)
Last == store[Nm(n)].v
Lines == {store[m].v : m \in Names}
AnyBad(A, B) == IsBad(A) \/ IsBad(B)
U(L) == IF IsOpen(L) THEN L.v ELSE L
RECURSIVE Same_(_, _, _)
Same_(A, B, exact) ==
    /\ A.s = B.s /\ A.f = B.f /\ A.tz = B.tz /\ A.u = B.u
    /\ IF A.s = "ser" THEN \A i \in 1..Len(A.u) : EqR(A.m[i], B.m[i])
       ELSE /\ A.k = B.k
            /\ \A x \in ColsOf(A.k) : \A i \in 1..Len(A.u) :
                 EqR(A.c[x][i], B.c[x][i]) \/ (x = "p" /\ A.k = "all" /\ ~exact /\ (~IsFin(A.c.q[i]) \/ IsZero(A.c.q[i])))
            /\ A.s = "nest" => DOMAIN A.ch = DOMAIN B.ch /\ \A m \in DOMAIN A.ch : Same_(A.ch[m], B.ch[m], exact)
Same(A0, B0) == LET A == TLCEval(U(A0))  B == TLCEval(U(B0)) IN IF AnyBad(A, B) THEN IsBad(A) /\ IsBad(B) ELSE Same_(A, B, TRUE)
SameQ(A0, B0) == LET A == TLCEval(U(A0))  B == TLCEval(U(B0)) IN IF AnyBad(A, B) THEN IsBad(A) /\ IsBad(B) ELSE Same_(A, B, FALSE)
Times(L, x) == Scale(L, Const(L, x))
IxR(r) == RowsIx(r)

\* C01, C03: every reachable line is consistent; nested lines are aggregates.
Consistent == n > 0 => LineOK(Last)
\* C05
AddLaws == n > 0 => LET X == Last IN \A Y \in Lines :
    /\ Same(Add(X, Y), Add(Y, X))
    /\ Same(BinOp("sub", X, Y), Add(X, Neg(Y)))
    /\ LET Z == TLCEval(Add(X, Y)) IN
       IF IsBad(Z) THEN X.k # Y.k \/ ~CompatIx(X, Y) \/ Common(X.u, Y.u) = <<>>
       ELSE /\ Z.u = Common(X.u, Y.u)
            /\ LET a == CutTo(X, Z.u)  b == CutTo(Y, Z.u)
               IN \A x \in ColsOf(X.k) \ {"p"} : \A i \in 1..Len(Z.u) : EqR(Z.c[x][i], RAdd(a.c[x][i], b.c[x][i]))
            /\ SameQ(Flatten(Z), Add(Flatten(X), Flatten(Y)))
            /\ (X.s = Y.s /\ X.s = "flat") => SameQ(Sub(Z, Y), CutTo(X, Z.u))
    /\ Same(BinOp("add", X, None), X)
    /\ \A W \in Lines : LET XY == TLCEval(Add(X, Y))  YW == TLCEval(Add(Y, W)) IN
         IF IsBad(XY) \/ IsBad(YW) \/ X.s # Y.s \/ Y.s # W.s THEN TRUE ELSE SameQ(Add(XY, W), Add(X, YW))
\* C06
ScaleLaws == n > 0 => LET X == Last IN
    /\ SameQ(Times(Times(X, <<2, 1>>), <<1, 2>>), X) /\ SameQ(Neg(Neg(X)), X) /\ SameQ(Times(X, <<-1, 1>>), Neg(X))
    /\ X.k # "all" => SameQ(Add(X, X), Times(X, <<2, 1>>))
    /\ X.k = "all" => LET v == Part(X, "vol")  p == Part(X, "pri")  r == Part(X, "rev") IN
         /\ SameQ(Unite(v, p), Flatten(X)) \/ \E i \in 1..Len(X.u) : IsZero(X.c.q[i]) \/ ~IsFin(X.c.p[i])
         /\ SameQ(Unite(v, r), Flatten(X)) \/ \E i \in 1..Len(X.u) : ~IsFin(X.c.p[i])
         /\ \A i \in 1..Len(X.u) : (IsFin(X.c.q[i]) /\ ~IsZero(X.c.q[i])) => EqR(Mul(v, p).c.r[i], X.c.r[i]) /\ EqR(Div(r, v).c.p[i], X.c.p[i])
    /\ \A Y \in Lines : (X.k = Y.k /\ CompatIx(X, Y) /\ Common(X.u, Y.u) # <<>> /\ X.s = Y.s) => SameQ(Times(Add(X, Y), <<3, 2>>), Add(Times(X, <<3, 2>>), Times(Y, <<3, 2>>)))
\* C07: an operation is defined for exactly these combinations of kinds (and for compatible indices with common timestamps)
Defined(o, a, b) == CASE o \in {"add", "sub"} -> a = b
                      [] o = "mul" -> {a, b} = {"vol", "pri"}
                      [] o = "div" -> (a = b /\ a # "all") \/ <<a, b>> \in {<<"rev", "pri">>, <<"rev", "vol">>}
                      [] o = "unite" -> a # b /\ "all" \notin {a, b}
Refusals == n > 0 => LET X == Last IN \A Y \in Lines, o \in {"add", "sub", "mul", "div", "unite"} :
    LET Z == U(BinOp(o, X, Y)) IN IF CompatIx(X, Y) /\ Common(X.u, Y.u) # <<>> THEN (o = "unite" /\ Y.k # X.k) \/ (IsBad(Z) <=> ~Defined(o, X.k, Y.k)) ELSE IsBad(Z)
\* C08
Flattening == n > 0 => LET X == Last  F == Flatten(X) IN
    /\ Same(Flatten(F), F) /\ SameQ(Flatten(Neg(X)), Neg(F)) /\ SameQ(Flatten(Times(X, <<1, 3>>)), Times(F, <<1, 3>>))
    /\ \A f \in GrainsOf(X) : LET A == TLCEval(AsFreq(X, f)) IN SameQ(IF IsBad(A) THEN A ELSE Flatten(A), AsFreq(F, f))
    /\ \A r \in Rows \cup {<<1, 4>>} : LET A == Reindex(X, IxR(r)) IN SameQ(IF IsBad(A) THEN A ELSE Flatten(A), Reindex(F, IxR(r)))
    /\ \A c \in Cuts : LET A == SliceRange(X, 0, c) IN Same(IF IsBad(A) THEN A ELSE Flatten(A), SliceRange(F, 0, c))
    /\ \A k \in {"vol", "rev", "pri"} : LET A == Part(X, k) IN Same(IF IsBad(A) THEN A ELSE Flatten(A), Part(F, k))
\* C09
Children == n > 0 => LET X == Last IN X.s = "nest" =>
    /\ \A m \in DOMAIN X.ch : /\ Same(Child(X, m), X.ch[m])
                              /\ Same(SetChild(X, m, X.ch[m]), X)
                              /\ Cardinality(DOMAIN X.ch) > 1 => LET D == DropChild(X, m) IN
                                    /\ DOMAIN D.ch = DOMAIN X.ch \ {m}
                                    /\ SameQ(Flatten(SetChild(D, m, X.ch[m])), Flatten(X))
                                    /\ SameQ(Flatten(D), Sub(Flatten(X), Flatten(X.ch[m])))
    /\ \A Y \in Lines : LET Z == SetChild(X, "Z", Y) IN
         IF X.k # Y.k \/ ~CompatIx(X, Y) \/ Common(X.u, Y.u) = <<>> THEN IsBad(Z)
         ELSE /\ Same(Child(Z, "Z"), CutTo(Y, Z.u)) /\ Same(DropChild(Z, "Z"), CutTo(X, Z.u)) /\ SameQ(Flatten(Z), Add(Flatten(X), Flatten(Y)))
\* C10, C12
Slicing == n > 0 => LET X == Last IN
    \A c \in Cuts \ {X.u[1]} : (\E i \in 1..Len(X.u) : X.u[i] = c) =>
        LET A == SliceRange(X, 0, c)  B == SliceRange(X, c, MAXI)
        IN (~IsBad(A) /\ ~IsBad(B)) => /\ Len(A.u) + Len(B.u) = Len(X.u) /\ Same(Concat(<<A, B>>), X) /\ Same(Concat(<<B, A>>), X)
                                       /\ Same(LocRange(X, 0, A.u[Len(A.u)]), A)
Concatenation == n > 0 => LET X == Last IN \A Y \in Lines : LET Z == Concat(<<X, Y>>) IN
    /\ Same(Z, Concat(<<Y, X>>))
    /\ ~IsBad(Z) => /\ Len(Z.u) = Len(X.u) + Len(Y.u) /\ LineOK(Z) /\ Common(X.u, Y.u) = <<>>
                    /\ Same(SliceRange(Z, X.u[1], IxEnd(X)), X) /\ Same(SliceRange(Z, Y.u[1], IxEnd(Y)), Y)
    /\ (SameShape(X, Y) /\ (IxEnd(X) = Y.u[1] \/ IxEnd(Y) = X.u[1])) => ~IsBad(Z)
\* C11
Reindexing == n > 0 => LET X == Last IN
    /\ SameQ(Reindex(X, IxOf(X)), X)
    /\ \A r \in Rows \cup {<<1, 4>>} : LET ix == IxR(r)  Z == Reindex(X, ix)  us == SelectSeq(X.u, LAMBDA x : \E i \in 1..Len(ix.u) : ix.u[i] = x) IN
         IF ~CompatIx(X, ix) THEN IsBad(Z)
         ELSE /\ ~IsBad(Z) /\ Z.u = ix.u /\ LineOK(Z)
              /\ us # <<>> => SameQ(CutTo(Z, us), CutTo(X, us))
              /\ \A x \in ColsOf(X.k) \ {"p"} : EqR(RSum(Z.c[x]), IF us = <<>> THEN Zero ELSE RSum(CutTo(X, us).c[x]))
\* C13, C14
Full(X, f) == LET sp == FullSpan(f, X.tz, IxSod(X), X.u[1], IxEnd(X)) IN sp
Conservation == n > 0 => LET X == Last IN \A f \in GrainsOf(X) :
    LET g == NormF(f)  Z == AsFreq(X, g)  sp == IF Rank(g) > Rank(X.f) THEN Full(X, g) ELSE <<X.u[1], IxEnd(X)>>
    IN IF sp[1] >= sp[2] \/ UpDownSpec(X.f, g) = "err" THEN IsBad(Z)
       ELSE /\ ~IsBad(Z) /\ Z.u[1] = sp[1] /\ IxEnd(Z) = sp[2] /\ Gapless(IxOf(Z)) /\ Z.f = (IF UpDownSpec(X.f, g) = "0" THEN X.f ELSE g)
            /\ LineOK(Z)
            /\ \A x \in ColsOf(X.k) \cap {"q", "r"} : LET S == SelectSeq([i \in 1..Len(X.u) |-> i], LAMBDA i : sp[1] <= X.u[i] /\ X.u[i] < sp[2])
                                                     IN EqR(RSum(Z.c[x]), RSum([i \in 1..Len(S) |-> X.c[x][S[i]]])) \/ \E i \in 1..Len(X.u) : ~IsFin(X.c[x][i])
            /\ X.k = "pri" => EqR(RSum(Map2(RMul, Z.c.p, DurH(Z.f, Z.tz, Z.u))),
                                  LET S == SelectSeq([i \in 1..Len(X.u) |-> i], LAMBDA i : sp[1] <= X.u[i] /\ X.u[i] < sp[2])  d == DurH(X.f, X.tz, X.u)
                                  IN RSum([i \in 1..Len(S) |-> RMul(X.c.p[S[i]], d[S[i]])])) \/ \E i \in 1..Len(X.u) : ~IsFin(X.c.p[i])
            /\ Rank(g) < Rank(X.f) => SameQ(AsFreq(Z, X.f), X)
\* C31
Equality == n > 0 => LET X == Last IN
    /\ EqLine(X, X) # "n"
    /\ \A Y \in Lines : /\ EqLine(X, Y) = EqLine(Y, X)
                        /\ (EqLine(X, Y) = "y" /\ X.s = "flat" /\ X.k # "all") => SameQ(X, Y)
    /\ Truthy(Times(X, Zero)) # "y" \/ X.k = "all"
    /\ Truthy(X) = Truthy(Neg(X))

VecsQ == {<< <<2, 1>>, <<-3, 1>>, <<1, 2>> >>}
VecsT == {<< <<2, 1>>, <<-3, 1>>, <<1, 2>> >>, << <<0, 1>>, <<3, 1>>, <<0, 1>> >>}
RowsQ == {<<1, 2>>, <<2, 4>>}
RowsT == {<<1, 2>>, <<2, 4>>, <<3, 3>>}
(* ------------------------------- simulation ------------------------------ *)
SimVec(x) == [i \in 1..3 |-> RandomElement({<<0, 1>>, <<1, 1>>, <<-2, 1>>, <<7, 2>>, <<30, 1>>, <<-45, 1>>, <<100, 1>>})]
Pick1(S) == RandomElement(S)
NewActs1 == NewAct(Pick1(Dims), Pick1(Rows), <<SimVec(n), SimVec(n + 1)>>)
Kin(a) == {m \in Names : store[m].v.k = store[a].v.k}
SimAct ==
    LET a == Pick1(Names)  b == IF Pick1(1..4) = 1 THEN Pick1(Names) ELSE Pick1(Kin(a))  o == Pick1(1..16) IN
    CASE o \in 1..2 -> [op |-> "bin", o |-> Pick1({"add", "sub"}), a |-> a, b |-> Reg(b)]
      [] o = 3 -> [op |-> "bin", o |-> Pick1({"mul", "div", "unite"}), a |-> a, b |-> Reg(Pick1(Names))]
      [] o = 4 -> [op |-> Pick1({"neg", "flatten"}), a |-> a]
      [] o = 5 -> [op |-> "part", a |-> a, k |-> Pick1({"vol", "pri", "rev"})]
      [] o \in 6..7 -> [op |-> "asfreq", a |-> a, f |-> Pick1(GrainNames(store[a].v) \cup {"MS"})]
      [] o \in 8..9 -> [op |-> "slice", a |-> a, lo |-> Pick1({<<>>} \cup {<<c>> : c \in Cuts}), hi |-> Pick1({<<>>} \cup {<<c>> : c \in Cuts}), how |-> "ts", step |-> 1, holes |-> <<>>]
      [] o = 10 -> [op |-> "loc", a |-> a, lo |-> <<>>, hi |-> <<Pick1(Cuts)>>, how |-> "slice", step |-> 1, holes |-> <<>>]
      [] o = 11 -> [op |-> "reindex", a |-> a, ix |-> RowsIx(Pick1(Rows \cup {<<1, 4>>}))]
      [] o \in 12..13 -> [op |-> "nest", bad |-> FALSE, ch |-> [x \in {"A", "B"} |-> IF x = "A" THEN Reg(a) ELSE Reg(b)]]
      [] o = 14 -> [op |-> "setchild", a |-> a, n |-> Pick1({"B", "C"}), b |-> Reg(b)]
      [] o = 15 -> [op |-> Pick1({"dropchild", "child"}), a |-> a, n |-> Pick1({"A", "B"})]
      [] o = 16 -> [op |-> "concat", as |-> <<a, b>>]
SimNext == /\ n < Depth
           /\ \E e0 \in {IF n < Bases \/ Names = {} THEN NewActs1 ELSE SimAct} : \E e \in {e0 @@ [out |-> Nm(n + 1)]} : \E L \in {LineResult(e, store)} :
                 /\ n' = n + 1 /\ UNCHANGED ctx /\ script' = Append(script, e)
                 /\ store' = IF IsLine(L) THEN Put(store, e.out, Obj(L, <<>>)) ELSE store
SimInit == ctx \in Contexts /\ store = <<>> /\ n = 0 /\ script = <<>>
SimSpec == SimInit /\ [][SimNext]_vars
Emit == n = Depth => PrintT(<<"SCRIPT", ToJson(script)>>)
=============================================================================
