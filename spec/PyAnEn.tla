------------------------------- MODULE PyAnEn -------------------------------
(* The system as a user sees it: option settings (process environment), verifier objects with their
   current settings, and directories of saved results.  Each public call is one action.
   Which value a metric call may return is decided by Judge (definitions) and, with saving on, by
   the saved results that are visible to the verifier. *)
EXTENDS Judge

VARIABLES st,      \* option settings: [skip, conf, reps, mult]
          objs,    \* verifier id -> settings
          disk     \* directory -> sequence of saved results [key, d, ob, at, maybe, lost]
vars == <<st, objs, disk>>

Defaults == [skip |-> FALSE, conf |-> <<19, 20>>, reps |-> 1000, mult |-> 5]
Init0 == st = Defaults /\ objs = <<>> /\ disk = <<>>

DirOf(dk, d) == IF d \in DOMAIN dk THEN dk[d] ELSE <<>>
(* enabling saving (constructor, enable_saving): from scratch nothing saved earlier is visible *)
Opened(dk, d, scratch) == IF d = "" THEN dk ELSE (d :> (IF scratch THEN <<>> ELSE DirOf(dk, d))) @@ dk
(* any other reconfiguration: in scratch mode saved results may or may not survive *)
Doubt(dk, d, scratch) ==
  IF d = "" \/ ~scratch THEN dk
  ELSE (d :> [i \in 1..Len(DirOf(dk, d)) |-> [DirOf(dk, d)[i] EXCEPT !.maybe = TRUE]]) @@ dk

SetOption(k, v) == /\ st' = [st EXCEPT ![k] = v]
                   /\ UNCHANGED <<objs, disk>>
OtherOption == UNCHANGED vars             \* workers, chunk size, map axis, progress bars: no effect on results
Create(id, cfg) == /\ objs' = (id :> cfg) @@ objs
                   /\ disk' = Opened(disk, cfg.dir, cfg.scr)
                   /\ UNCHANGED st
(* settings that every saved result may depend on without showing it in its name *)
Baked == {"eax", "col", "trunc", "ib", "ir"}
Reconfigure(id, ch) ==                    \* ch: settings that change
  LET new == [k \in DOMAIN objs[id] |-> IF k \in DOMAIN ch THEN ch[k] ELSE objs[id][k]]
  IN /\ objs' = (id :> new) @@ objs
     /\ disk' = IF "dir" \in DOMAIN ch THEN Opened(disk, ch.dir, new.scr)
                ELSE IF new.scr /\ DOMAIN ch \cap Baked # {} THEN Opened(disk, new.dir, TRUE)   \* as a new verifier would
                ELSE Doubt(disk, new.dir, new.scr)
     /\ UNCHANGED st

(* ---- saved results ---- *)
AxisKeyed == {"iou_determ", "iou_prob", "reliability", "binned_spread_skill", "corr", "brier_decomp"}
PointKeyed == {"error", "ab_error", "sq_error", "rmse", "spread", "crps", "brier", "reliability", "binned_spread_skill"}
DefaultName(m) == CASE m = "rmse" -> "sq_error" [] m = "rank_hist" -> "rank" [] m = "reliability" -> "rel"
                    [] m = "binned_spread_skill" -> "ss" [] OTHER -> m
Unsaved(e) == \/ e.sn = "none"
              \/ e.sn = "" /\ e.m \in {"corr", "brier_decomp"}
              \/ ~e.lit /\ e.t.k = "a" /\ Len(e.t.v) > 5
KeyOf(ob, e) ==
  IF e.lit THEN <<"literal", e.sn>>
  ELSE <<IF e.sn = "" THEN DefaultName(e.m) ELSE e.sn,
         IF e.m \in ThrMetrics THEN <<e.over, e.t, IF e.m = "iou_prob" THEN <<e.pover, e.pt>> ELSE <<>>>> ELSE <<>>,
         IF e.m \in {"reliability", "binned_spread_skill"} THEN e.nb ELSE 0,
         IF e.m \in AxisKeyed THEN <<ob.axn, ob.ax>> ELSE <<>>,
         IF e.m \in {"corr", "brier_decomp"} THEN ob.boot ELSE 0>>
Find(q, key) == SelectSeq(q, LAMBDA x : x.key = key)

(* some saved result stems from other data (0: a mixture), whose parts a calculation may use *)
Foreign(ob) == ob.dir # "" /\ \E i \in 1..Len(DirOf(disk, ob.dir)) :
                 LET x == DirOf(disk, ob.dir)[i] IN x.d # ob.d \/ \E k \in Baked : x.ob[k] # ob[k]
(* verdict on a call given the visible saved results; Dat(d) dataset, Past(i) earlier recorded event *)
CallClauses(Dat(_), Past(_), id, e) ==
  LET ob == objs[id]
      q == IF ob.dir = "" \/ Unsaved(e) THEN <<>> ELSE Find(DirOf(disk, ob.dir), KeyOf(ob, e))
      fresh == JudgeCall(Dat(ob.d), ob, e, st)
      foreign == Foreign(ob)
      from(x) == IF (x.lost /\ x.d # ob.d) \/ (x.d = 0 /\ e.m \in PointKeyed) THEN {}       \* parts of one, parts of the other
                 ELSE IF e.m \in PointKeyed \/ x.lost
                 THEN JudgeCall(Dat(x.d), [x.ob EXCEPT !.ax = ob.ax, !.axn = ob.axn, !.boot = ob.boot], e, st)
                 ELSE When(e.r = Past(x.at).r, "saved result not reused")
  IN IF q = <<>> THEN (IF foreign THEN {} ELSE fresh)
     ELSE LET x == q[1]
              c == from(x)
          IN IF c = {} \/ (x.maybe /\ fresh = {}) THEN {} ELSE c \cup {"saved"}
Call(id, e, at) ==
  LET ob == objs[id]
      q == DirOf(disk, ob.dir)
      name == IF Unsaved(e) THEN <<"parts">> ELSE KeyOf(ob, e)      \* a result that is not saved may leave saved parts
      old == IF Unsaved(e) THEN <<>> ELSE Find(q, name)
      new == [key |-> name, d |-> IF Foreign(ob) THEN 0 ELSE ob.d, ob |-> ob, at |-> at, maybe |-> FALSE, lost |-> FALSE]
      part == [new EXCEPT !.maybe = TRUE, !.lost = TRUE]            \* refused: what it is computed from may be saved
      parts == [part EXCEPT !.key = <<"parts">>]
  IN /\ disk' = IF ob.dir = "" THEN disk
                ELSE IF e.r.t # "ok"
                THEN IF old = <<>> THEN (ob.dir :> (q \o IF name = <<"parts">> THEN <<parts>> ELSE <<parts, part>>)) @@ disk
                     ELSE IF old[1].lost
                     THEN (ob.dir :> Append(SelectSeq(q, LAMBDA x : x.key # name), [part EXCEPT !.d = IF old[1].d = ob.d THEN @ ELSE 0])) @@ disk
                     ELSE disk
                ELSE IF old = <<>> THEN (ob.dir :> Append(q, new)) @@ disk
                ELSE IF old[1].lost           \* now it is certainly there
                THEN (ob.dir :> Append(SelectSeq(q, LAMBDA x : x.key # name), [new EXCEPT !.d = IF old[1].d = ob.d THEN @ ELSE 0])) @@ disk
                ELSE disk
     /\ UNCHANGED <<st, objs>>
(* a call that was interrupted: its result, or parts of it, may have been saved; nothing else changes *)
Interrupted(id, e, at) ==
  LET ob == objs[id]
      key == KeyOf(ob, e)
      q == DirOf(disk, ob.dir)
      new(k) == [key |-> k, d |-> ob.d, ob |-> ob, at |-> at, maybe |-> TRUE, lost |-> TRUE]
  IN /\ disk' = IF ob.dir = "" THEN disk
                ELSE (ob.dir :> (q \o <<new(<<"parts">>)>> \o (IF Unsaved(e) \/ Find(q, key) # <<>> THEN <<>> ELSE <<new(key)>>))) @@ disk
     /\ UNCHANGED <<st, objs>>
=============================================================================
