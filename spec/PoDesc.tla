------------------------------- MODULE PoDesc ------------------------------
(* Option descriptions: declared names, name resolution, arity, groups.      *)
EXTENDS PoStr

(* ---- declared names ---------------------------------------------------- *)
(* "long1,long2,c": the last of several names is a short name if it has one  *)
(* character; a single remaining empty long name is dropped (",c").          *)
DeclNames(names) ==
  LET ns == GetLines(names, ",")
      short == Len(ns) > 1 /\ Len(ns[Len(ns)]) = 1
      ls == IF short THEN SubSeq(ns, 1, Len(ns) - 1) ELSE ns
  IN [long |-> IF short /\ ls = <<"">> THEN <<>> ELSE ls,
      short |-> IF short THEN "-" \o ns[Len(ns)] ELSE ""]

(* An option as given in a scenario (o) becomes a model option: the same     *)
(* record with its names analysed.                                           *)
MkOpt(o) == [o |-> o, long |-> DeclNames(o.names).long, short |-> DeclNames(o.names).short]

(* ---- arity ------------------------------------------------------------- *)
MinTok(m) ==
  CASE m.o.t = "untyped0" -> 0
    [] m.o.t = "untyped1" -> 1
    [] m.o.t = "two" -> 2
    [] m.o.t = "upto3" -> 1
    [] m.o.t = "upto3z" -> 0
    [] OTHER -> IF m.o.zero \/ m.o.hasimp THEN 0 ELSE 1
MaxTok(m) ==
  CASE m.o.t = "untyped0" -> 0
    [] m.o.t = "untyped1" -> 1
    [] m.o.t = "two" -> 2
    [] m.o.t \in {"upto3", "upto3z"} -> 3
    [] OTHER -> IF m.o.multi THEN M ELSE IF m.o.zero THEN 0 ELSE 1

(* ---- matching one option ----------------------------------------------- *)
Fold(s, ignore) == IF ignore THEN Lower(s) ELSE s
StarPrefix(l) == SubSeq(l, 1, Len(l) - 1)

FullLong(m, name, li) == \E i \in 1..Len(m.long) :
                            m.long[i] # "" /\ Fold(m.long[i], li) = Fold(name, li)
FullShort(m, name, si) == m.short # "" /\ Fold(m.short, si) = Fold(name, si)
ApproxLong(m, name, ap, li) ==
  \E i \in 1..Len(m.long) :
    LET l == Fold(m.long[i], li) n == Fold(name, li)
    IN /\ l # ""
       /\ \/ LastCh(l) = "*" /\ Prefix(StarPrefix(l), n)
          \/ ap /\ Prefix(n, l)
Match(m, name, ap, li, si) ==
  IF FullLong(m, name, li) \/ FullShort(m, name, si) THEN "full"
  ELSE IF ApproxLong(m, name, ap, li) THEN "approx" ELSE "no"

(* The name under which an option is stored. *)
Key(m, name) ==
  IF m.long # <<>> THEN (IF Has(m.long[1], "*") THEN name ELSE m.long[1]) ELSE m.short

(* ---- resolving a name in a description --------------------------------- *)
FindOpt(opts, name, ap, li, si) ==
  LET n == Len(opts)
      ms == TLCEval([i \in 1..n |-> Match(opts[i], name, ap, li, si)])
      fulls == IdxFrom(1, n, LAMBDA i : ms[i] = "full")
      apps == IdxFrom(1, n, LAMBDA i : ms[i] = "approx")
      keys(is) == MapSeq(is, LAMBDA i : Key(opts[i], name))
  IN IF Len(fulls) > 1 THEN [r |-> "amb", i |-> 0, alts |-> keys(fulls)]
     ELSE IF fulls = <<>> /\ Len(apps) > 1 THEN [r |-> "amb", i |-> 0, alts |-> keys(apps)]
     ELSE IF fulls # <<>> THEN [r |-> "found", i |-> fulls[1], alts |-> <<>>]
     ELSE IF apps # <<>> THEN [r |-> "found", i |-> apps[1], alts |-> <<>>]
     ELSE [r |-> "none", i |-> 0, alts |-> <<>>]

(* ---- display ----------------------------------------------------------- *)
(* prefix styles: "long", "disguise", "dash", "slash", "" *)
PrefixText(p) == CASE p = "long" -> "--" [] p = "disguise" -> "-" [] p = "dash" -> "-"
                   [] p = "slash" -> "/" [] OTHER -> ""
DisplayName(m, p) ==
  IF m.long # <<>> /\ p = "long" THEN "--" \o m.long[1]
  ELSE IF m.long # <<>> /\ p = "disguise" THEN "-" \o m.long[1]
  ELSE IF Len(m.short) = 2 /\ p = "slash" THEN "/" \o Ch(m.short, 2)
  ELSE IF Len(m.short) = 2 /\ p = "dash" THEN "-" \o Ch(m.short, 2)
  ELSE IF m.long # <<>> THEN m.long[1] ELSE m.short
FormatName(m) ==
  IF m.short # "" THEN (IF m.long = <<>> THEN m.short ELSE m.short \o " [ --" \o m.long[1] \o " ]")
  ELSE "--" \o m.long[1]
Untyped(m) == m.o.t \in {"untyped0", "untyped1"}
ValueName(m) ==
  IF Untyped(m) THEN "arg"
  ELSE LET var == IF m.o.vn = "" THEN "arg" ELSE m.o.vn
           d == m.o.hasdef /\ m.o.deft # ""
           dt == " (=" \o m.o.deft \o ")"
       IN IF m.o.hasimp /\ m.o.impt # ""
          THEN "[=" \o var \o "(=" \o m.o.impt \o ")]" \o (IF d THEN dt ELSE "")
          ELSE var \o (IF d THEN dt ELSE "")
FormatParameter(m) == IF MaxTok(m) # 0 THEN ValueName(m) ELSE ""

(* ---- descriptions: own options, group snapshots ------------------------- *)
(* opts: every option, in order of addition (those of added groups too);     *)
(* ing[i]: opts[i] came with a group; groups: the added descriptions as they *)
(* were when added.                                                          *)
NewDesc(cap, ll, ml) == [cap |-> cap, ll |-> ll, ml |-> ml, opts |-> <<>>, ing |-> <<>>, groups |-> <<>>]
AddOpt(d, o) == [d EXCEPT !.opts = Append(@, MkOpt(o)), !.ing = Append(@, FALSE)]
AddGroup(d, g) == [d EXCEPT !.opts = @ \o g.opts,
                            !.ing = @ \o TLCEval([i \in 1..Len(g.opts) |-> TRUE]),
                            !.groups = Append(@, g)]
=============================================================================
