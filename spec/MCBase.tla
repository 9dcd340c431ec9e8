-------------------------------- MODULE MCBase ------------------------------
(* Exhaustive exploration.  A scenario is chosen by a sequence g of small      *)
(* numbers: Size(g) is the number of ways to go on (0: complete) and Build(g)  *)
(* the scenario a complete sequence stands for; each MC module defines the     *)
(* two.  TLC enumerates every sequence, runs every scenario, checks the        *)
(* properties in every state, and emits each scenario with its outcomes so     *)
(* that they can be replayed into the library.                                 *)
EXTENDS PoProps
CONSTANTS Checked, Deep         \* the properties to check; 0 quick, 1 thorough
VARIABLES g, mode
mcvars == <<g, mode, sc, k, n, ph, cur, descs, parsed, vms, tgt, out>>

DerefId(s) == s
NoScenario == [w |-> FALSE, ops |-> <<>>]
MCInit == g = <<>> /\ mode = "choose" /\ sc = NoScenario /\ SysReset
Choose(Size(_), Build(_)) ==
  /\ mode = "choose"
  /\ \E c \in 1..Size(g) :
       LET h == Append(g, c) IN
       /\ g' = h
       /\ IF Size(h) = 0 THEN mode' = "run" /\ sc' = Build(h) ELSE UNCHANGED <<mode, sc>>
  /\ UNCHANGED <<k, n, ph, cur, descs, parsed, vms, tgt, out>>
Run == mode = "run" /\ SysNext /\ UNCHANGED <<g, mode>>
Rest == mode = "run" /\ Terminal /\ UNCHANGED mcvars
MCNextOf(Size(_), Build(_)) == Choose(Size, Build) \/ Run \/ Rest
MCView == <<g, n>>

Broken(p) == PrintT("BROKEN " \o ToJson([g |-> g, op |-> Len(out), prop |-> p, ph |-> ph, s |-> sc]))
PropertiesHold == mode = "run" => \A p \in Checked : Holds(p)
(* as PropertiesHold, but prints every failure and goes on *)
PropertiesReport == mode = "run" => \A p \in Checked : Holds(p) \/ Broken(p)

(* option tables are emitted once: a desc operation made with DescRef carries  *)
(* its index                                                                   *)
Lean(op) == IF op.op = "desc" /\ "ref" \in DOMAIN op THEN [op EXCEPT !.opts = <<>>] ELSE op
Emit == (mode = "run" /\ Terminal) =>
   PrintT("S " \o ToJson([w |-> sc.w, ops |-> MapSeq(sc.ops, Lean), o |-> out]))

(* ---- shapes of choice sequences -------------------------------------------- *)
(* |heads| choices of the given sizes, then up to most more out of size        *)
SizeHS(h, heads, size, most) ==
  IF Len(h) < Len(heads) THEN heads[Len(h) + 1]
  ELSE IF Len(h) >= Len(heads) + most \/ (Len(h) > Len(heads) /\ h[Len(h)] = size + 1) THEN 0
  ELSE IF most = 0 THEN 0 ELSE size + 1
Picked(h, nh, table) ==
  LET t == SubSeq(h, nh + 1, Len(h))
      m == IF t # <<>> /\ t[Len(t)] = Len(table) + 1 THEN Len(t) - 1 ELSE Len(t)
  IN TLCEval([i \in 1..m |-> table[t[i]]])
RECURSIVE Strs(_, _)
Strs(al, len) ==         \* all texts of at most this length over an alphabet, as a sequence
  IF len = 0 THEN <<"">> ELSE
  LET before == Strs(al, len - 1)
      longest == SelectSeq(before, LAMBDA s : Len(s) = len - 1)
      S[i \in 0..Len(longest)] == IF i = 0 THEN <<>> ELSE S[i - 1] \o MapSeq(al, LAMBDA c : longest[i] \o c)
  IN before \o S[Len(longest)]

(* ---- operations --------------------------------------------------------------- *)
Decl(id, names, t) ==
  [id |-> id, names |-> names, t |-> t, help |-> "", vn |-> "", hasdef |-> t = "switch",
   def |-> IF t = "switch" THEN <<"0">> ELSE <<>>, deft |-> IF t = "switch" THEN "0" ELSE "", hasimp |-> FALSE,
   imp |-> <<>>, impt |-> "", comp |-> FALSE, multi |-> FALSE, zero |-> t = "switch", req |-> FALSE,
   notif |-> FALSE, nthrow |-> FALSE, sto |-> FALSE]
WithDef(o, v) == [o EXCEPT !.hasdef = TRUE, !.def = v, !.deft = v[1]]
WithImp(o, v) == [o EXCEPT !.hasimp = TRUE, !.imp = v, !.impt = v[1]]
Composing(o) == [o EXCEPT !.comp = TRUE]
Multi(o) == [o EXCEPT !.multi = TRUE]
Required(o) == [o EXCEPT !.req = TRUE]
Notifies(o) == [o EXCEPT !.notif = TRUE]
Throws(o) == [o EXCEPT !.notif = TRUE, !.nthrow = TRUE]
StoresTo(o) == [o EXCEPT !.sto = TRUE]

DescOp(os) == [op |-> "desc", cap |-> "", ll |-> 80, ml |-> 40, opts |-> os]
DescRef(table, i) == [op |-> "desc", cap |-> "", ll |-> 80, ml |-> 40, opts |-> table[i], ref |-> i]
CmdOp(d, st, args) == [op |-> "cmd", d |-> d, style |-> st, unreg |-> FALSE, haspos |-> FALSE, pos |-> <<>>,
                       extra |-> "", sx |-> "", wide |-> FALSE, api |-> "vec", args |-> args]
Tolerant(c) == [c EXCEPT !.unreg = TRUE]
WithPos(c, pos) == [c EXCEPT !.haspos = TRUE, !.pos = pos]
FindOp(d, name, ap, li, si, thr) == [op |-> "find", d |-> d, name |-> name, ap |-> ap, li |-> li, si |-> si, thr |-> thr]
CfgOp(d, text, unreg) == [op |-> "cfg", d |-> d, text |-> text, unreg |-> unreg, wide |-> FALSE, file |-> ""]
EnvOp(d, entries, map, prefix) == [op |-> "env", d |-> d, entries |-> entries, map |-> map, prefix |-> prefix]
StoreOp(p, m) == [op |-> "store", p |-> p, m |-> m]
VmOp(next) == [op |-> "vm", n |-> next]
NotifyOp(m) == [op |-> "notify", m |-> m]
DumpOp(m) == [op |-> "dump", m |-> m]
GetOp(m, name) == [op |-> "get", m |-> m, name |-> name]
AsOp(m, name, t) == [op |-> "as", m |-> m, name |-> name, t |-> t]
ClearOp(m) == [op |-> "clear", m |-> m]
PutOp(m, key, v, d) == [op |-> "put", m |-> m, k |-> key, v |-> v, d |-> d]
EraseOp(m, key) == [op |-> "erase", m |-> m, k |-> key]
NextOp(m, nx) == [op |-> "next", m |-> m, n |-> nx]
CollectOp(p, inc) == [op |-> "collect", p |-> p, inc |-> inc]
ShowOp(p) == [op |-> "show", p |-> p]
AddOp(d, o) == [op |-> "add", d |-> d, o |-> o]
GrpOp(d, gr) == [op |-> "grp", d |-> d, g |-> gr]
MatchOp(d, name, ap, li, si) == [op |-> "match", d |-> d, name |-> name, ap |-> ap, li |-> li, si |-> si]
ListOp(d) == [op |-> "list", d |-> d]
VcopyOp(m) == [op |-> "vcopy", m |-> m]
VassignOp(m, f) == [op |-> "vassign", m |-> m, f |-> f]
DcopyOp(d) == [op |-> "dcopy", d |-> d]
HelpOp(d) == [op |-> "help", d |-> d]
SplitOp(kind, s, sep, q, e) == [op |-> "split", kind |-> kind, s |-> s, sep |-> sep, q |-> q, esc |-> e]
ConvOp(dir, s) == [op |-> "conv", dir |-> dir, s |-> s]
HelpAt(d, c) == [op |-> "help", d |-> d, col |-> c]
StoreLocal(p, m) == [op |-> "store", p |-> p, m |-> m, loc |-> "utf8"]
ConvAs(en, dir, s) == [op |-> "conv", enc |-> en, dir |-> dir, s |-> s]
(* a parse result made by the program; the tokens of an option *)
MakeOp(d, pre, os) == [op |-> "make", d |-> d, pre |-> pre, opts |-> os]
Made1(key, vals) == [k |-> key, pos |-> -1, v |-> vals, t |-> <<key>> \o vals, un |-> FALSE, ci |-> FALSE]
(* a command line that is what parse p left over *)
RestOf(c, p, inc) == [op |-> "cmd", d |-> c.d, style |-> c.style, unreg |-> c.unreg, haspos |-> c.haspos, pos |-> c.pos, extra |-> c.extra,
                      sx |-> c.sx, wide |-> c.wide, api |-> c.api, args |-> <<>>, rest |-> p, inc |-> inc]
PosOp(pos, ask) == [op |-> "pos", pos |-> pos, ask |-> ask]
ErrOp(cls, kd, ctx) == [op |-> "err", cls |-> cls, kd |-> kd, opt |-> "", tok |-> "", pre |-> "", alts |-> <<>>, val |-> "",
                        wide |-> FALSE, line |-> "", msg |-> "", subs |-> <<>>, dfl |-> <<>>, ctx |-> ctx]
Plain(ops) == [w |-> FALSE, ops |-> ops]
Worded(ops) == [w |-> TRUE, ops |-> ops]
Unix == <<"long", "short", "dash", "ladj", "lnext", "sadj", "snext", "sticky", "guess">>
NoGuess == SelectSeq(Unix, LAMBDA f : f # "guess")
NoSticky == SelectSeq(Unix, LAMBDA f : f # "sticky")
=============================================================================
