------------------------------- MODULE MCStore ------------------------------
(* Histories of a map: sources (parse operations) stored in any order, with    *)
(* other operations in between.  A module gives the descriptions, the sources  *)
(* and the other operations; a history is a sequence of steps, step i being    *)
(* "store source i" or an other operation.                                     *)
EXTENDS MCBase
(* index of the parse of source s among the parse operations of the scenario: *)
(* only the sources a history uses are parsed, in the order of the table       *)
Used(steps, ns) == {steps[i] : i \in {j \in 1..Len(steps) : steps[j] <= ns}}
ParseIndex(steps, ns, s) == Cardinality({x \in Used(steps, ns) : x <= s})
HistoryOps(steps, sources, others, mm) ==
  LET ns == Len(sources)
      used == IdxFrom(1, ns, LAMBDA s : s \in Used(steps, ns))
  IN MapSeq(used, LAMBDA s : sources[s])
     \o MapSeq(steps, LAMBDA s : IF s <= ns THEN StoreOp(ParseIndex(steps, ns, s), mm) ELSE others[s - ns])
=============================================================================
