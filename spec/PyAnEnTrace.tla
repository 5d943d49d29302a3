----------------------------- MODULE PyAnEnTrace ----------------------------
(* Trace validation.  The recorded calls (one JSON object per line) are replayed as actions of PyAnEn;
   every event gets a total verdict, the set of clauses it violates, printed as <<"BAD", line, clauses>>. *)
EXTENDS PyAnEn, Facts, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Data == ndJsonDeserialize(IOEnv.DATA)
VARIABLE l
tvars == <<vars, l>>
Dat(d) == Data[d]
Past(i) == Trace[i]
Has(e, k) == k \in DOMAIN e

Clauses(e) ==
  CASE e.a = "call" -> IF e.id \in DOMAIN objs THEN CallClauses(Dat, Past, e.id, e) ELSE {}
    [] e.a = "new" -> When(e.r.t = "ok", "construction refused")
    [] e.a = "set" -> When(e.r.t = "ok", "setter refused") \cup When(e.r.t # "ok" \/ e.same, "setter does not return the verifier")
    [] e.a = "fact" -> Fact(e, st)
    [] OTHER -> {}

Apply(e) ==
  CASE e.a = "reset" -> st' = Defaults /\ objs' = <<>> /\ disk' = <<>>
    [] e.a = "opt" -> (IF e.k \in DOMAIN st THEN SetOption(e.k, e.v) ELSE OtherOption)
    [] e.a = "new" /\ e.r.t = "ok" -> Create(e.id, e.cfg)
    [] e.a = "set" /\ e.r.t = "ok" -> Reconfigure(e.id, e.ch)
    [] e.a = "call" /\ e.id \in DOMAIN objs -> Call(e.id, e, l)
    [] e.a = "crash" /\ e.id \in DOMAIN objs -> Interrupted(e.id, e, l)
    [] OTHER -> UNCHANGED vars

Init == Init0 /\ l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] bad == TLCEval(Clauses(e))
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", l, bad>>)
              /\ Apply(e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
