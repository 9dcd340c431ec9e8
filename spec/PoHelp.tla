------------------------------- MODULE PoHelp ------------------------------
(* Help output.                                                              *)
EXTENDS PoDesc, PoErr

TwoTabs == "Only one tab per paragraph is allowed in the options description"
FirstColumn(m) == "  " \o FormatName(m) \o " " \o FormatParameter(m)

RECURSIVE ColumnWidth(_)
ColumnWidth(d) ==
  LET own == {Len(FirstColumn(d.opts[i])) : i \in 1..Len(d.opts)}
      grp == {ColumnWidth(d.groups[i]) : i \in 1..Len(d.groups)}
      w == MaxOf({23} \cup own \cup grp)
  IN Min2(w, d.ll - d.ml - 1) + 1

(* the lines of one paragraph: p without its tab, hang: extra indent of all   *)
(* lines but the first                                                        *)
RECURSIVE ParLines(_, _, _, _, _, _)
ParLines(p, b0, indent, width, hang, first) ==
  LET n == Len(p)
      skip == ~first /\ Ch(p, b0) = " " /\ b0 + 1 <= n /\ Ch(p, b0 + 1) # " "
      b == IF skip THEN b0 + 1 ELSE b0
      e0 == b + Min2(n - b + 1, width)                       \* one past the line
      inWord == Ch(p, e0 - 1) # " " /\ e0 <= n /\ Ch(p, e0) # " "
      spaces == {i \in b..(e0 - 1) : Ch(p, i) = " "}
      brk == IF spaces = {} THEN b ELSE MaxOf(spaces) + 1
      e == IF inWord /\ brk # b /\ e0 - brk < width \div 2 THEN brk ELSE e0
      ind == IF first THEN indent + hang ELSE indent
      wid == IF first THEN width - hang ELSE width
  IN SubSeq(p, b, e - 1) \o
     (IF e = n + 1 THEN "" ELSE "\n" \o Spaces(ind) \o ParLines(p, e, ind, wid, hang, FALSE))

Paragraph(par, indent, ll) ==       \* [err, s]
  LET width == ll - indent
      tab == Find(par, "\t", 1)
      p == IF tab = 0 THEN par ELSE Upto(par, tab - 1) \o From(par, tab + 1)
      hang == IF tab = 0 \/ tab - 1 >= width THEN 0 ELSE tab - 1
  IN IF tab # 0 /\ Find(par, "\t", tab + 1) # 0 THEN [err |-> TRUE, s |-> ""]
     ELSE [err |-> FALSE, s |-> IF Len(p) < width THEN p ELSE ParLines(p, 1, indent, width, hang, TRUE)]

Description(text, col, ll) ==
  LET ps == MapSeq(Split(text, "\n"), LAMBDA par : Paragraph(par, col, ll - 1))
  IN [err |-> \E i \in 1..Len(ps) : ps[i].err,
      s |-> Join(MapSeq(ps, LAMBDA p : p.s), "\n" \o Spaces(col))]

HelpOne(m, col, ll) ==
  LET fc == FirstColumn(m)
      d == Description(m.o.help, col, ll)
  IN IF m.o.help = "" THEN [err |-> FALSE, s |-> fc \o "\n"]
     ELSE [err |-> d.err,
           s |-> fc \o (IF Len(fc) >= col THEN "\n" \o Spaces(col) ELSE Spaces(col - Len(fc)))
                 \o d.s \o "\n"]

RECURSIVE HelpText(_, _)
HelpText(d, col) ==
  LET w == IF col = 0 THEN ColumnWidth(d) ELSE col
      own == IdxFrom(1, Len(d.opts), LAMBDA i : ~d.ing[i])
      os == MapSeq(own, LAMBDA i : HelpOne(d.opts[i], w, d.ll))
      gs == MapSeq(d.groups, LAMBDA g : HelpText(g, w))
  IN [err |-> (\E i \in 1..Len(os) : os[i].err) \/ (\E i \in 1..Len(gs) : gs[i].err),
      s |-> (IF d.cap = "" THEN "" ELSE d.cap \o ":\n")
            \o Join(MapSeq(os, LAMBDA x : x.s), "")
            \o Join(MapSeq(gs, LAMBDA x : "\n" \o x.s), "")]

(* ---- what the user relies on (property C19) -------------------------------- *)
Letters(s) ==       \* the characters of the text without blanks
  SelectSeq(TLCEval([i \in 1..Len(s) |-> Ch(s, i)]), LAMBDA c : c \notin {" ", "\t", "\n"})
RECURSIVE AllHelp(_)
AllHelp(d) ==
  (IF d.cap = "" THEN "" ELSE d.cap \o ":")
  \o Join(MapSeq(IdxFrom(1, Len(d.opts), LAMBDA i : ~d.ing[i]),
                 LAMBDA i : FirstColumn(d.opts[i]) \o d.opts[i].o.help), "")
  \o Join(MapSeq(d.groups, AllHelp), "")
NothingLost(d, text) == Letters(text) = Letters(AllHelp(d))
=============================================================================
