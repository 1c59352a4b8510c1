------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation.  The recorder writes a sequence of events; the trace   *)
(* is accepted if each event is a step the specification allows.  Verdicts  *)
(* are total: a rejected event is reported with the violated clause and the *)
(* session continues in the state the specification prescribes.             *)
(***************************************************************************)
EXTENDS Units, Json, IOUtils

Trace == JsonDeserialize(IOEnv.VERIF_TRACE)

VARIABLES l,        \* next event
          store     \* the session: named lines, states and inputs
vars == <<l, store>>

Init == l = 1 /\ store = <<>>

Outcome(e) ==      \* [v |-> verdict, store |-> next store]
    CASE e.op = "begin" -> [v |-> "ok", store |-> <<>>]
      [] e.op = "crash" -> [v |-> "unreadable", store |-> store]      \* a live object or the result cannot be read at all
      [] e.op \in TimeOpNames -> [v |-> TimeVerdict(e), store |-> store]
      [] e.op \in LineOpNames -> LineOutcome(e, store)
      [] e.op \in StateOpNames -> StateOutcome(e, store)
      [] e.op \in ToolOpNames -> [v |-> ToolVerdict(e), store |-> store]
      [] e.op \in TextOpNames -> TextOutcome(e, store)
      [] e.op \in PlotOpNames -> PlotOutcome(e, store)
      [] e.op \in UnitOpNames -> [v |-> UnitVerdict(e), store |-> store]
      [] e.op \in PeakLineOps -> PeakLineOutcome(e, store)
      [] e.op \in YearLineOps -> YearOutcome(e, store)
      [] e.op \in YearOpNames -> [v |-> VYear(e), store |-> store]
      [] e.op \in PeakOpNames -> [v |-> PeakVerdict(e), store |-> store]

Next == /\ l <= Len(Trace)
        /\ IF Trace[l].op = "begin" THEN PrintT(<<"AT", l>>) ELSE TRUE
        /\ LET o == TLCEval(Outcome(Trace[l]))
           IN /\ IF o.v = "ok" THEN TRUE ELSE PrintT(<<"REJECT", l, o.v>>)
              /\ store' = o.store
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
\* every event was consumed
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
