------------------------------- MODULE PoCfg -------------------------------
(* Configuration files and the environment.                                  *)
EXTENDS PoDesc, PoErr

COpt(k, v, t, un) == [k |-> k, pos |-> -1, v |-> v, t |-> t, un |-> un, ci |-> FALSE]

(* ---- which names a description admits ----------------------------------- *)
PrimaryName(m) == IF m.long = <<>> THEN "" ELSE m.long[1]
HasNameless(opts) == \E i \in 1..Len(opts) : PrimaryName(opts[i]) = ""
NameSet(opts) == {PrimaryName(opts[i]) : i \in 1..Len(opts)}
Wildcards(names) == {StarPrefix(n) : n \in {x \in names : LastCh(x) = "*"}}

(* Two wildcards of which one covers the other: reported for the first one,   *)
(* in name order, that meets a conflicting earlier one.                       *)
RECURSIVE OverlapRec(_, _)
OverlapRec(todo, seen) ==
  IF todo = <<>> THEN ""
  ELSE IF LastCh(todo[1]) # "*" THEN OverlapRec(Tail(todo), seen)
  ELSE LET s == StarPrefix(todo[1])
           ups == {p \in seen : p = s \/ StrLess(s, p)}       \* not below s
           low == seen \ ups
           up == StrMin(ups)
           lo == CHOOSE x \in low : \A y \in low : x = y \/ StrLess(y, x)
           bad == (ups # {} /\ Prefix(s, up)) \/ (low # {} /\ Prefix(lo, s))
           other == IF low # {} THEN lo ELSE up
       IN IF bad THEN "options '" \o todo[1] \o "' and '" \o other \o
                      "*' will both match the same arguments from the configuration file"
          ELSE OverlapRec(Tail(todo), seen \cup {s})
Overlap(names) == OverlapRec(SortedSeq(names), {})
(* what the user relies on: an error exactly if some wildcard covers another *)
Covering(names) == \E a, b \in Wildcards(names) : a # b /\ Prefix(a, b)

Admitted(names, name) == name \in names \/ \E p \in Wildcards(names) : Prefix(p, name)

(* ---- lines --------------------------------------------------------------- *)
StripComment(s) == LET p == Find(s, "#", 1) IN IF p = 0 THEN s ELSE Upto(s, p - 1)
Clean(s) == Trim(StripComment(s))
(* [kind, name, value] of a cleaned line *)
LineOf(s) ==
  IF s = "" THEN [kind |-> "empty", a |-> "", b |-> ""]
  ELSE IF Ch(s, 1) = "[" /\ LastCh(s) = "]"
  THEN [kind |-> "section", a |-> SubSeq(s, 2, Len(s) - 1), b |-> ""]
  ELSE LET p == Find(s, "=", 1) IN
       IF p = 0 THEN [kind |-> "invalid", a |-> s, b |-> ""]
       ELSE [kind |-> "assign", a |-> Trim(Upto(s, p - 1)), b |-> Trim(From(s, p + 1))]
SectionPrefix(sec) == IF LastCh(sec) = "." THEN sec ELSE sec \o "."

CfgError(opts) ==
  IF HasNameless(opts)
  THEN ErrMsg("error", "abbreviated option names are not permitted in options configuration files")
  ELSE LET o == Overlap(NameSet(opts)) IN IF o = "" THEN NoErr ELSE ErrMsg("error", o)

(* ---- the config parser as a machine: one line per step ------------------- *)
CfgInit(opts, text) ==
  LET e == CfgError(opts) IN
  [pc |-> IF e = NoErr THEN "line" ELSE "fail", lines |-> GetLines(text, "\n"), li |-> 1,
   prefix |-> "", opts |-> <<>>, err |-> e]
CfgFailed(c, e) == [c EXCEPT !.pc = "fail", !.err = e]
CfgLine(opts, unreg, c) ==
  LET l == LineOf(Clean(c.lines[c.li]))
      name == c.prefix \o l.a
      ok == Admitted(NameSet(opts), name)
      go == [c EXCEPT !.li = @ + 1]
  IN IF c.li > Len(c.lines) THEN [c EXCEPT !.pc = "done"]
     ELSE CASE l.kind = "empty" -> go
            [] l.kind = "section" -> [go EXCEPT !.prefix = SectionPrefix(l.a)]
            [] l.kind = "invalid" ->
                 CfgFailed(c, [Err("cfgsyntax", "unrecognized_line") EXCEPT !.line = l.a])
            [] l.kind = "assign" ->
                 IF ~ok /\ ~unreg
                 THEN CfgFailed(c, [Err("unknown", "") EXCEPT !.tok = name])
                 ELSE [go EXCEPT !.opts = Append(@, COpt(name, <<l.b>>, <<name, l.b>>, ~ok))]
CfgDone(c) == c.pc \in {"done", "fail"}

(* ---- declaratively: what a well-formed file means ------------------------ *)
Assigns(text) ==
  LET ls == MapSeq(GetLines(text, "\n"), LAMBDA s : LineOf(Clean(s)))
      secAt(i) == LET S == {j \in 1..i : ls[j].kind = "section"}
                  IN IF S = {} THEN "" ELSE SectionPrefix(ls[MaxOf(S)].a)
      is == IdxFrom(1, Len(ls), LAMBDA i : ls[i].kind = "assign")
  IN MapSeq(is, LAMBDA i : <<secAt(i) \o ls[i].a, ls[i].b>>)

(* ---- environment ---------------------------------------------------------- *)
EnvSplit(e) == LET p == Find(e, "=", 1) IN <<Upto(e, p - 1), From(e, p + 1)>>
MapName(map, prefix, n) ==
  CASE map = "prefix" -> IF Prefix(prefix, n) THEN Lower(From(n, Len(prefix) + 1)) ELSE ""
    [] map = "id" -> n
    [] map = "table" -> CASE n = "V_FOO" -> "foo" [] n = "V_BAR" -> "bar" [] n = "V_SAME" -> "foo"
                          [] n = "V_UNK" -> "undeclared" [] OTHER -> ""
EnvInit(entries) == [pc |-> "entry", es |-> entries, i |-> 1, opts |-> <<>>, err |-> NoErr]
EnvEntry(map, prefix, c) ==
  LET e == EnvSplit(c.es[c.i])
      n == MapName(map, prefix, e[1])
  IN IF c.i > Len(c.es) THEN [c EXCEPT !.pc = "done"]
     ELSE [c EXCEPT !.i = @ + 1,
                    !.opts = IF n = "" THEN @ ELSE Append(@, COpt(n, <<e[2]>>, <<>>, FALSE))]
=============================================================================
