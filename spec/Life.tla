-------------------------------- MODULE Life --------------------------------
(* The life of one verifier under well-posed and ill-posed requests.  A refused construction leaves nothing;
   a refused setter leaves the verifier unfit in that setting, until the setting is given a proper value. *)
EXTENDS Requests, TLC, Json
CONSTANTS Of, Ops, Checked, Hist
VARIABLES cls, phase, bad, cfg, said, last, nops, hist
vars == <<cls, phase, bad, cfg, said, last, nops, hist>>
Faults(c) == {"none", "shape", "forecast", "observation"} \cup (IF c \in {"gauss", "gamma", "hurdle"} THEN {"parameter"} ELSE {}) \cup (IF c = "ens" THEN {"member axis"} ELSE {})
Log(x) == hist' = IF Hist THEN Append(hist, x) ELSE hist
Init == cls \in Of /\ phase = "void" /\ bad = {} /\ cfg = [trunc |-> FALSE, mem |-> FALSE] /\ said = "" /\ last = <<>> /\ nops = 0 /\ hist = <<>>
Build(fault, k, kind) ==
  LET r == IF Checked /\ (fault # "none" \/ KindVerdict(k, kind) # "ok") THEN "refused" ELSE "ok"
  IN /\ phase = "void" /\ phase' = (IF r = "ok" THEN "fit" ELSE "void") /\ said' = r /\ last' = <<"build", fault, k, kind>>
     /\ Log([op |-> "build", cls |-> cls, fault |-> fault, k |-> k, kind |-> kind, r |-> r]) /\ bad' = {} /\ UNCHANGED cfg
Set(k, kind) ==
  LET good == KindVerdict(k, kind) = "ok" b == IF good THEN bad \ {k} ELSE bad \cup {k}
      r == IF ~Checked \/ b = {} THEN "ok" ELSE "refused"
  IN /\ phase # "void" /\ bad' = b /\ said' = r /\ phase' = (IF b = {} THEN "fit" ELSE "unfit") /\ last' = <<"set", k, kind>>
     /\ Log([op |-> "set", k |-> k, kind |-> kind, r |-> r])
     /\ cfg' = IF k \in {"trunc", "mem"} /\ good THEN [cfg EXCEPT ![k] = IF k = "mem" THEN kind = "int" ELSE @] ELSE cfg
Ask(m, th) ==
  LET r == IF Checked THEN Verdict(cls, m, cfg.trunc, cfg.mem, th) ELSE "answer"
  IN /\ phase = "fit" /\ said' = r /\ last' = <<"ask", m, th>> /\ UNCHANGED <<phase, bad, cfg>>
     /\ Log([op |-> "ask", m |-> m, th |-> th, r |-> r])
Ths == [o1 : BOOLEAN, o2 : BOOLEAN, b1 : BOOLEAN, b2 : BOOLEAN]
Settable(c) == SettingsOf(c) \ {"scratch", "pit", "ir"}       \* given at construction, or always a pair
Next == /\ nops < Ops /\ nops' = nops + 1 /\ UNCHANGED cls
        /\ \/ \E x \in Faults(cls), k \in SettingsOf(cls), kind \in Kinds :
                /\ KindVerdict(k, kind) # "either" /\ (x = "none" \/ KindVerdict(k, kind) = "ok") /\ Build(x, k, kind)
           \/ \E k \in Settable(cls), kind \in Kinds : KindVerdict(k, kind) # "either" /\ Set(k, kind)
           \/ \E m \in Metrics, th \in Ths : Has(cls, m) /\ (m # "iou_prob" => ~th.o2 /\ ~th.b2) /\ (m \in Plain => th = [o1 |-> FALSE, o2 |-> FALSE, b1 |-> FALSE, b2 |-> FALSE]) /\ Ask(m, th)
Finish == nops = Ops /\ nops' = Ops + 1 /\ UNCHANGED <<cls, phase, bad, cfg, said, last, hist>>
Spec == Init /\ [][Next \/ Finish]_vars

(* C24: what is answered was well posed, what is built is fit *)
NothingFromNonsense == phase = "fit" => bad = {}
OnlyWellPosed == (said = "answer" /\ last # <<>> /\ last[1] = "ask") => Defined(cls, last[2], cfg.trunc, cfg.mem) /\ WellPosed(last[2], last[3])
BuiltFit == [][phase = "void" /\ phase' # "void" => last'[2] = "none" /\ KindVerdict(last'[3], last'[4]) = "ok"]_vars
Repairable == [][phase = "unfit" /\ bad' = {} => said' = "ok"]_vars
Shown == nops = Ops + 1 => PrintT("BEH " \o ToJson(hist))
=============================================================================
