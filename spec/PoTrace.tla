------------------------------- MODULE PoTrace ------------------------------
(* Validation of recorded runs: every line of the trace is a scenario [w, ops] *)
(* with the outcomes the real library produced (res).  The machine runs the    *)
(* operations; each outcome must be the recorded one.  Scenarios all end: a    *)
(* machine that stops half way is reported by TLC as a deadlock.               *)
(*                                                                             *)
(* The three judgements below print what they find and are always true, so     *)
(* that one run of TLC reports every deviation (an invariant that fails makes  *)
(* TLC rebuild and print a whole behaviour for each).  The checks read the     *)
(* lines; none printed means the invariants                                    *)
(*     Conforms, PropertiesHold, RecordedHolds                                 *)
(* hold.                                                                       *)
EXTENDS PoProps
CONSTANTS TraceFile, Checked     \* the recorded runs; the properties to check
Trace == ndJsonDeserialize(TraceFile)
DerefTrace(i) == Trace[i]
TInit == sc \in 1..Len(Trace) /\ SysReset
TNext == SysNext \/ (Terminal /\ UNCHANGED sysvars)
TSpec == TInit /\ [][TNext]_sysvars
TView == <<sc, n>>

(* the outcome just produced is the one the library produced *)
Conforms == Idle => out[J] = SC.res[J]
ConformsReport ==
  Conforms \/ PrintT("MISMATCH " \o ToJson([line |-> sc, op |-> Len(out), expected |-> out[Len(out)]]))

(* the properties, of what the model does *)
Broken(p) == PrintT("BROKEN " \o ToJson([line |-> sc, op |-> Len(out), prop |-> p, ph |-> ph]))
PropertiesHold == \A p \in Checked : Holds(p)
PropertiesReport == \A p \in Checked : Holds(p) \/ Broken(p)

(* the same properties, of what the library did *)
Recorded == INSTANCE PoProps WITH out <- SubSeq(SC.res, 1, Len(out))
RecordedHolds == Idle => \A p \in Checked : Recorded!Holds(p)
Refuted(p) == PrintT("REFUTED " \o ToJson([line |-> sc, op |-> Len(out), prop |-> p]))
RecordedReport == Idle => \A p \in Checked : Recorded!Holds(p) \/ Refuted(p)
=============================================================================
