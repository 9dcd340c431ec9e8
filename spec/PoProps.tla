------------------------------- MODULE PoProps ------------------------------
(* The properties C01..C24 (see /verif/properties.jsonl), as invariants of    *)
(* the system.  They are stated from what a user observes - the operations of *)
(* the scenario and their outcomes - and not from the machines' internals, so *)
(* that the model is checked against them and not against itself.             *)
EXTENDS PoSys

(* ---- vocabulary ------------------------------------------------------------ *)
Idle == ph = "idle" /\ out # <<>>
J == Len(out)                        \* the operation that has just finished
LO == Effective(SC.ops[J])
LR == out[J]
JustDid(kind) == Idle /\ LO.op = kind
Opts(d) == descs[d].opts
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Suffix(v, s) == Len(v) <= Len(s) /\ From(s, Len(s) - Len(v) + 1) = v
RECURSIVE IsSubseq(_, _)
IsSubseq(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
                  ELSE IF Head(a) = Head(b) THEN IsSubseq(Tail(a), Tail(b)) ELSE IsSubseq(a, Tail(b))
Named(o) == o.pos = -1
Tokens(os) == Concat(MapSeq(os, LAMBDA o : o.t))

(* ---- C01: name resolution ---------------------------------------------------- *)
SameName(a, b, ignore) ==
  Len(a) = Len(b) /\ \A i \in 1..Len(a) : Ch(a, i) = Ch(b, i) \/ (ignore /\ Lower(Ch(a, i)) = Lower(Ch(b, i)))
Begins(a, b, ignore) == Len(a) <= Len(b) /\ SameName(a, Upto(b, Len(a)), ignore)
Exact(m, name, li, si) ==
  \/ \E i \in 1..Len(m.long) : m.long[i] # "" /\ SameName(m.long[i], name, li)
  \/ m.short # "" /\ SameName(m.short, name, si)
Loose(m, name, ap, li) ==
  \E i \in 1..Len(m.long) : LET l == m.long[i] IN
     \/ l # "" /\ LastCh(l) = "*" /\ Begins(Upto(l, Len(l) - 1), name, li)
     \/ l # "" /\ ap /\ Begins(name, l, li)
Meaning(os, name, ap, li, si) ==         \* the set of options a name denotes
  LET ex == {i \in 1..Len(os) : Exact(os[i], name, li, si)}
      lo == {i \in 1..Len(os) : Loose(os[i], name, ap, li)}
  IN IF ex # {} THEN ex ELSE lo
C01Find ==
  LET os == Opts(LO.d)
      S == Meaning(os, LO.name, LO.ap, LO.li, LO.si)
  IN JustDid("find") =>
       IF Cardinality(S) = 1
       THEN LR.r = "ok" /\ LR.x # <<>> /\ LR.x[1] = os[CHOOSE i \in S : TRUE].o.id
       ELSE IF S = {} THEN IF LO.thr THEN LR.r = "err" /\ LR.e = "unknown" ELSE LR.r = "ok" /\ LR.x = <<>>
       ELSE LR.r = "err" /\ LR.e = "ambiguous" /\ Range(LR.x) = {Key(os[i], LO.name) : i \in S}
(* on the command line: one token naming a long option *)
C01Cmd ==
  LET st == EffStyle(LO.style)
      tok == LO.args[1]
      p == Find(tok, "=", 1)
      name == IF p = 0 THEN From(tok, 3) ELSE SubSeq(tok, 3, p - 1)
      S == Meaning(Opts(LO.d), name, "guess" \in st, "lci" \in st, "sci" \in st)
  IN (JustDid("cmd") /\ LR.e # "style" /\ "long" \in st /\ LO.extra = "" /\ LO.sx = "" /\ LO.args # <<>>
      /\ Prefix("--", tok) /\ name # "" /\ p # Len(tok)) =>
        /\ Cardinality(S) > 1 => LR.r = "err" /\ LR.e = "ambiguous"
        /\ S = {} /\ ~LO.unreg => LR.r = "err" /\ LR.e = "unknown"
        /\ Cardinality(S) = 1 /\ LR.r = "ok" =>
             LR.x # <<>> /\ LR.x[1].k = Key(Opts(LO.d)[CHOOSE i \in S : TRUE], name) /\ ~LR.x[1].un
C01Match ==
  JustDid("match") =>
    LET os == Opts(LO.d) IN
    LR.x = TLCEval([i \in 1..Len(os) |-> IF Exact(os[i], LO.name, LO.li, LO.si) THEN "full"
                                        ELSE IF Loose(os[i], LO.name, LO.ap, LO.li) THEN "approx" ELSE "no"])
C01Inv == C01Find /\ C01Cmd /\ C01Match

(* ---- C02: tokens are conserved ------------------------------------------------- *)
C02Inv ==
  (JustDid("cmd") /\ LR.r = "ok" /\ LO.sx \notin {"drop", "stop", "grow"}) =>
    LET T == Tokens(LR.x) IN
    /\ T = LO.args \/ \E i \in 1..Len(LO.args) : LO.args[i] = "--" /\ T = RemoveAt(LO.args, i)
    /\ (LO.extra # "no" /\ LO.sx # "two") =>
         \A i \in 1..Len(LR.x) : LET o == LR.x[i] IN
           \A j \in 1..Len(o.v) : \/ o.v[j] \in Range(o.t)
                                  \/ j = 1 /\ o.t # <<>> /\ Suffix(o.v[1], o.t[1])

(* ---- C03: arity ----------------------------------------------------------------- *)
ResultOption(o) ==      \* the declared option a result names
  LET st == EffStyle(LO.style)
  IN FindOpt(Opts(LO.d), o.k, "guess" \in st, "lci" \in st, "sci" \in st)
C03Inv ==
  (JustDid("cmd") /\ LR.r = "ok") =>
    \A i \in 1..Len(LR.x) :
      LET o == LR.x[i]
          f == ResultOption(o)
          m == Opts(LO.d)[f.i]
      IN Named(o) =>
           IF o.un THEN Len(o.v) <= 1
           ELSE f.r = "found" =>
             /\ MinTok(m) <= Len(o.v) /\ Len(o.v) <= MaxTok(m)
             /\ (MinTok(m) < MaxTok(m) /\ Len(o.v) < MaxTok(m) /\ i < Len(LR.x)
                 /\ "--" \notin Range(LO.args) /\ LO.sx # "stop") => Named(LR.x[i + 1])

(* known finding F10: an option without a name *)
Nameless(st, t) == Prefix("--=", t) \/ ("disg" \in st /\ Len(t) >= 2 /\ Ch(t, 2) = "=")
(* ---- C04: positional tokens -------------------------------------------------------- *)
Declared(pos) ==      \* how many tokens the positional description takes
  IF \E i \in 1..Len(pos) : pos[i][2] = -1 THEN M
  ELSE LET S[i \in 0..Len(pos)] == IF i = 0 THEN 0 ELSE S[i - 1] + pos[i][2] IN S[Len(pos)]
PosName(pos, at) ==   \* the name of position n
  LET S[i \in 0..Len(pos)] == IF i = 0 THEN 0 ELSE S[i - 1] + Max2(0, pos[i][2])
      is == {i \in 1..Len(pos) : at < S[i]}
  IN IF is # {} THEN pos[MinOf(is)][1]
     ELSE pos[CHOOSE i \in 1..Len(pos) : pos[i][2] = -1][1]
C04Inv ==
  /\ (JustDid("cmd") /\ LR.r = "ok") =>
       LET is == IdxFrom(1, Len(LR.x), LAMBDA i : ~Named(LR.x[i]))
           T == Tokens(LR.x)
           cut == {i \in 1..Len(LO.args) : LO.args[i] = "--" /\ T = RemoveAt(LO.args, i)}
       IN /\ \A j \in 1..Len(is) : LET o == LR.x[is[j]] IN
               /\ o.pos = j - 1
               /\ Len(o.v) = 1 /\ (o.v = o.t \/ Nameless(EffStyle(LO.style), o.t[1]))
               /\ o.k = IF LO.haspos THEN PosName(LO.pos, j - 1) ELSE ""
          /\ LO.haspos => Len(is) <= Declared(LO.pos)
          \* what follows the terminator is positional
          /\ (cut # {} /\ T # LO.args /\ LO.sx = "") =>
               \E i \in cut : LET k0 == Len(LO.args) - i IN
                 k0 <= Len(LR.x) /\ \A j \in (Len(LR.x) - k0 + 1)..Len(LR.x) : ~Named(LR.x[j])
  /\ (JustDid("cmd") /\ LR.r = "err" /\ LR.e = "toomany" /\ LO.sx # "grow") =>
       LO.haspos /\ Declared(LO.pos) < Len(LO.args)
  /\ JustDid("pos") =>
       LET total == Declared(LO.pos)
           asked == SelectSeq(LO.ask, LAMBDA a : a < total)
       IN LR.x = <<IF total = M THEN "unlimited" ELSE ToString(total)>> \o MapSeq(asked, LAMBDA a : PosName(LO.pos, a))

(* ---- C05: styles --------------------------------------------------------------------- *)
LongShape(st, t) == "long" \in st /\ Len(t) >= 3 /\ Prefix("--", t)
DisgShape(st, t) == "disg" \in st /\ Len(t) >= 2 /\
   (\/ Ch(t, 1) = "-" /\ Ch(t, 2) # "-"
    \/ Ch(t, 1) = "/" /\ "slash" \in st)
DashShape(st, t) == {"short", "dash"} \subseteq st /\ Len(t) >= 2 /\ Ch(t, 1) = "-" /\ Ch(t, 2) # "-"
SlashShape(st, t) == {"short", "slash"} \subseteq st /\ Len(t) >= 2 /\ Ch(t, 1) = "/"
OptionShape(st, t) == LongShape(st, t) \/ DisgShape(st, t) \/ DashShape(st, t) \/ SlashShape(st, t)
Incomplete(st) ==
  \/ (st \cap {"long", "disg"} # {} /\ st \cap {"ladj", "lnext"} = {})
  \/ ("short" \in st /\ st \cap {"sadj", "snext"} = {})
  \/ ("short" \in st /\ st \cap {"dash", "slash"} = {})
C05Inv ==
  JustDid("cmd") =>
    LET st == EffStyle(LO.style) IN
    /\ Incomplete(st) <=> (LR.r = "err" /\ LR.e = "style")
    /\ (LR.r = "ok" /\ LO.extra = "" /\ LO.sx = "") =>
         \A i \in 1..Len(LR.x) : LET o == LR.x[i] IN
           /\ Named(o) /\ o.t # <<>> => OptionShape(st, o.t[1])
           \* a flag of a group of short options, whose token comes with a later one
           /\ Named(o) /\ o.t = <<>> =>
                /\ "sticky" \in st /\ o.v = <<>>
                /\ \E j \in (i + 1)..Len(LR.x) : LR.x[j].t # <<>> /\ DashShape(st, LR.x[j].t[1])
           /\ (~Named(o) /\ "--" \notin Range(LO.args) /\ ~Nameless(st, o.t[1])) =>
                ~LongShape(st, o.t[1]) /\ ~DashShape(st, o.t[1]) /\ ~SlashShape(st, o.t[1])
           \* the key and the value come from the token
           /\ (Named(o) /\ o.t # <<>> /\ LongShape(st, o.t[1]) /\ Has(o.t[1], "=")) =>
                o.v # <<>> /\ o.v[1] = From(o.t[1], Find(o.t[1], "=", 1) + 1)

(* ---- C06: unknown options -------------------------------------------------------------- *)
C06Inv ==
  /\ (JustDid("cmd") /\ LR.r = "ok" /\ ~LO.unreg) => \A i \in 1..Len(LR.x) : ~LR.x[i].un
  /\ (JustDid("cmd") /\ LO.unreg) => ~(LR.r = "err" /\ LR.e = "unknown")
  /\ (JustDid("cmd") /\ LR.r = "ok" /\ LO.sx = "") =>
       \A i \in 1..Len(LR.x) : LR.x[i].un => Len(LR.x[i].t) <= 1
  /\ JustDid("collect") /\ LR.r = "ok" =>
       LET os == parsed[LO.p].opts IN
       /\ IsSubseq(LR.x, Tokens(os))
       /\ Len(LR.x) = Len(Concat(MapSeq(IdxFrom(1, Len(os), LAMBDA i : os[i].un \/ (LO.inc /\ ~Named(os[i]))),
                                        LAMBDA i : os[i].t)))

(* ---- C07: user parsers -------------------------------------------------------------------- *)
C07Style ==      \* what a style parser makes of the first token comes first in the result
  (JustDid("cmd") /\ LR.r = "ok" /\ LO.sx # "" /\ LO.args # <<>>) =>
    LET st == EffStyle(LO.style)
        r == StyleParser(LO.sx, LO.args)
    IN /\ Len(LR.x) >= Len(r.next)
       /\ \A i \in 1..Len(r.next) :
            LET g == r.next[i] o == LR.x[i]
                f == FindOpt(Opts(LO.d), g.k, "guess" \in st, "lci" \in st, "sci" \in st)
            IN IF g.k = "" THEN ~Named(o) /\ o.v = g.v ELSE
               /\ Named(o)
               /\ o.un <=> (f.r = "none")
               /\ o.k = IF o.un THEN g.k ELSE Key(Opts(LO.d)[f.i], g.k)
               /\ Len(o.v) >= Len(g.v) /\ SubSeq(o.v, 1, Len(g.v)) = g.v
C07Extra ==
  (JustDid("cmd") /\ LR.r = "ok" /\ LO.sx = "" /\ LO.extra # "") =>
    LET st == EffStyle(LO.style) IN
    \A i \in 1..Len(LR.x) :
      LET o == LR.x[i]
          c == ExtraParser(LO.extra, o.t[1])
          f == FindOpt(Opts(LO.d), c[1], "guess" \in st, "lci" \in st, "sci" \in st)
      IN (o.t # <<>> /\ c[1] # "") =>
           /\ ~Named(o) => "--" \in Range(LO.args)
           /\ Named(o) =>
                /\ o.un <=> (f.r = "none")
                /\ o.k = IF o.un THEN c[1] ELSE Key(Opts(LO.d)[f.i], c[1])
                /\ c[2] # "" => o.v # <<>> /\ o.v[1] = c[2]
C07Inv == C07Extra /\ C07Style

(* ---- C08, C09: config files ----------------------------------------------------------------- *)
C08Inv ==
  (JustDid("cfg") /\ LR.r = "ok") =>
    /\ MapSeq(LR.x, LAMBDA o : <<o.k, o.v[1]>>) = Assigns(LO.text)
    /\ \A i \in 1..Len(LR.x) : Len(LR.x[i].v) = 1 /\ LR.x[i].pos = -1
AllLines(text) == MapSeq(GetLines(text, "\n"), LAMBDA s : LineOf(Clean(s)))
CfgAccepts(os, text, unreg) ==
  /\ \A i \in 1..Len(os) : os[i].long # <<>>
  /\ ~Covering(NameSet(os))
  /\ \A i \in 1..Len(AllLines(text)) : AllLines(text)[i].kind # "invalid"
  /\ unreg \/ \A i \in 1..Len(Assigns(text)) : Admitted(NameSet(os), Assigns(text)[i][1])
C09Inv ==
  JustDid("cfg") =>
    LET names == NameSet(Opts(LO.d)) IN
    /\ LO.file \in {"missing"} => LR.r = "err" /\ LR.e = "readfile"
    /\ LO.file = "dir" => LR.r = "err" /\ LR.e \in {"readfile", "error"}
    /\ LO.file \in {"", "ok"} =>
         /\ (LR.r = "ok") <=> CfgAccepts(Opts(LO.d), LO.text, LO.unreg)
         /\ LR.r = "ok" => \A i \in 1..Len(LR.x) : LR.x[i].un <=> ~Admitted(names, LR.x[i].k)
         /\ LR.r = "err" => LR.e \in {"error", "unknown", "cfgsyntax"}
         /\ (LR.r = "err" /\ LR.e = "error") <=>
              ((\E i \in 1..Len(Opts(LO.d)) : Opts(LO.d)[i].long = <<>>) \/ Covering(names))

(* ---- C10: the environment ---------------------------------------------------------------------- *)
C10Inv ==
  JustDid("env") =>
    LET name(e) == LET p == Find(e, "=", 1) IN SubSeq(e, 1, p - 1)
        as(e) == CASE LO.map = "id" -> name(e)
                   [] LO.map = "table" -> MapName("table", "", name(e))
                   [] LO.map = "prefix" -> IF Prefix(LO.prefix, name(e)) /\ Len(name(e)) > Len(LO.prefix)
                                           THEN Lower(SubSeq(name(e), Len(LO.prefix) + 1, Len(name(e)))) ELSE ""
        es == SelectSeq(LO.entries, LAMBDA e : as(e) # "")
    IN /\ LR.r = "ok" /\ Len(LR.x) = Len(es)
       /\ \A i \in 1..Len(es) : /\ LR.x[i].k = as(es[i])
                                /\ Len(LR.x[i].v) = 1
                                /\ name(es[i]) \o "=" \o LR.x[i].v[1] = es[i]

(* ---- the history of a map ------------------------------------------------------------------------ *)
(* the operations that made map mm what it is after operation i: its own, and *)
(* those of the map it is a copy of                                           *)
MapOps == {"store", "put", "erase", "clear", "dump"}
MapAt(i) == Cardinality({j \in 1..i : SC.ops[j].op \in {"vm", "vcopy"}})
RECURSIVE HistoryC(_, _)
HistoryC(mm, i) ==
  IF i = 0 THEN {} ELSE
  LET op == SC.ops[i] IN
  CASE op.op = "vcopy" /\ MapAt(i) = mm -> HistoryC(op.m, i - 1)
    [] op.op = "vassign" /\ op.m = mm -> HistoryC(op.f, i - 1)
    [] op.op \in MapOps /\ op.m = mm -> {i} \cup HistoryC(mm, i - 1)
    [] OTHER -> HistoryC(mm, i - 1)
History(mm, i) == IF \E j \in 1..i : SC.ops[j].op \in {"vcopy", "vassign"} THEN HistoryC(mm, i)
                  ELSE {j \in 1..i : SC.ops[j].op \in MapOps /\ SC.ops[j].m = mm}
Stores(mm) == LET H == History(mm, J)
                  C == {j \in H : SC.ops[j].op = "clear"}
              IN {j \in H : SC.ops[j].op = "store" /\ out[j].r # "skip" /\ \A c \in C : c < j}
GoodStores(mm) == {j \in Stores(mm) : out[j].r = "ok"}
PutKeys(mm) == {SC.ops[j].k : j \in {i \in History(mm, J) : SC.ops[i].op \in {"put", "erase"}}}
(* the options a source gives a value to (an option that is not declared stops the store) *)
Known(p, key) == key # "" /\ FindOpt(descs[p.d].opts, key, FALSE, FALSE, FALSE).r = "found"
Given(p) == {p.opts[i].k : i \in {j \in 1..Len(p.opts) : ~p.opts[j].un /\ Known(p, p.opts[j].k)}}
SrcOf(j) == parsed[SC.ops[j].p]
EntryAt(j, key) == LET S == {i \in 1..Len(out[j].x) : out[j].x[i].k = key}
                   IN IF S = {} THEN <<>> ELSE <<out[j].x[MinOf(S)]>>
OptionAt(j, key) == LET os == descs[SrcOf(j).d].opts
                        f == FindOpt(os, key, FALSE, FALSE, FALSE) IN os[f.i]

(* ---- C11: the first source wins ---------------------------------------------------------------------- *)
C11Inv ==
  (Idle /\ LO.op \in {"store", "dump", "vassign"} /\ LR.r # "skip") =>
    LET mm == LO.m IN
    \A key \in DOMAIN vms[mm].val \ PutKeys(mm) :
      LET S == {j \in GoodStores(mm) : key \in Given(SrcOf(j)) /\ ~OptionAt(j, key).o.comp}
      IN S # {} => /\ EntryAt(MinOf(S), key) = <<Show(key, vms[mm].val[key])>>
                   /\ ~vms[mm].val[key].d
C11Clear == JustDid("clear") => vms[LO.m].val = EmptyFn /\ vms[LO.m].req = EmptyFn /\ vms[LO.m].fin = {}

(* ---- C12: repeated and composing options --------------------------------------------------------------- *)
IsList(m) == ~Untyped(m) /\ ShapeOf(m.o.t) = "list"
Occurrences(p, key) == SelectSeq(p.opts, LAMBDA o : o.k = key /\ ~o.un)
Values(m, p, key) == MapSeq(Concat(MapSeq(Occurrences(p, key), LAMBDA o : o.v)),
                            LAMBDA s : Elem(ElemOf(m.o.t), s).s)
NoBare(p, key) == \A i \in 1..Len(p.opts) : p.opts[i].k = key => p.opts[i].v # <<>>
C12Inv ==
  (JustDid("store") /\ LR.r = "ok") =>
    LET mm == LO.m p == parsed[LO.p] earlier == Stores(mm) \ {J} IN
    \A key \in Given(p) \ PutKeys(mm) :
      LET m == OptionAt(J, key)
          now == vms[mm].val[key].v.v
          before == {j \in earlier : key \in Given(SrcOf(j))}
          \* the value before this store, if the option can still change
          open == \A j \in before : out[j].r = "ok" /\ OptionAt(j, key).o.comp
          prev == IF before = {} THEN <<>> ELSE EntryAt(MaxOf(before), key)[1].v
      IN /\ (IsList(m) /\ NoBare(p, key) /\ open) => now = prev \o Values(m, p, key)
         /\ (~IsList(m) /\ NoBare(p, key) /\ open) =>
              before = {} /\ Len(Occurrences(p, key)) = 1 /\ Len(Occurrences(p, key)[1].v) <= 1

(* ---- C13: defaults and implicit values -------------------------------------------------------------------- *)
C13Inv ==
  (JustDid("store") /\ LR.r = "ok") =>
    LET mm == LO.m IN
    \A i \in 1..Len(descs[parsed[LO.p].d].opts) :
      LET m == descs[parsed[LO.p].d].opts[i]
          key == Key(m, "")
          e == vms[mm].val[key]
          everGiven == \E j \in Stores(mm) : key \in Given(SrcOf(j))
          declaredDefaults == UNION {{<<TypeTag(o.o.t), o.o.def>> : o \in {x \in Range(descs[SrcOf(j).d].opts) :
                                  Key(x, "") = key /\ x.o.hasdef}} : j \in GoodStores(mm)}
      IN (key # "" /\ key \notin PutKeys(mm)) =>
         /\ m.o.hasdef => key \in DOMAIN vms[mm].val
         /\ (m.o.hasdef /\ ~everGiven) => e.d /\ <<e.v.t, e.v.v>> \in declaredDefaults
         /\ (key \in DOMAIN vms[mm].val /\ everGiven /\ \E j \in GoodStores(mm) : key \in Given(SrcOf(j))) => ~e.d
         /\ (key \in DOMAIN vms[mm].val /\ ~everGiven) => e.d
         /\ (~everGiven /\ declaredDefaults = {}) => key \notin DOMAIN vms[mm].val
         \* implicit values: one bare occurrence, or one with a value
         /\ (m.o.hasimp /\ Stores(mm) = {J} /\ Len(Occurrences(parsed[LO.p], key)) = 1) =>
              LET o == Occurrences(parsed[LO.p], key)[1] IN
              IF o.v = <<>> THEN e.v.v = m.o.imp /\ ~e.d
              ELSE e.v.v = MapSeq(o.v, LAMBDA s : Elem(ElemOf(m.o.t), s).s) /\ ~e.d

(* ---- C14: required options ----------------------------------------------------------------------------------- *)
RequiredKeys(mm) ==
  UNION {{Key(o, "") : o \in {x \in Range(descs[SrcOf(j).d].opts) : x.o.req}} : j \in GoodStores(mm)} \ {""}
Calls(x) == SelectSeq(x, LAMBDA e : Ch(e.id, 1) # ">")
C14Inv ==
  JustDid("notify") =>
    LET mm == LO.m
        missing == {key \in RequiredKeys(mm) : key \notin DOMAIN vms[mm].val \/ vms[mm].val[key].v = NoVal}
        spelled == {DisplayName(o, SrcOf(j).pre) : <<j, o>> \in
                     {<<i, o>> \in GoodStores(mm) \X UNION {Range(descs[SrcOf(h).d].opts) : h \in GoodStores(mm)} :
                        o \in Range(descs[SrcOf(i).d].opts) /\ o.o.req /\ Key(o, "") = StrMin(missing)}}
    IN /\ (LR.r = "err" /\ LR.e = "required") <=> missing # {}
       /\ missing # {} =>
            /\ Calls(LR.x) = <<>>
            /\ SC.w => \E s \in spelled : /\ \A t \in spelled : Len(t) <= Len(s)
                                          /\ LR.w = "the option '" \o s \o "' is required but missing"

(* ---- C15: notification ------------------------------------------------------------------------------------------ *)
C15Inv ==
  (JustDid("notify") /\ ~(LR.r = "err" /\ LR.e = "required")) =>
    LET vm == vms[LO.m]
        wants(key) == vm.val[key].sem # <<>> /\ ~Untyped(vm.val[key].sem[1])
                      /\ (vm.val[key].sem[1].o.notif \/ vm.val[key].sem[1].o.nthrow)
        keys == {key \in DOMAIN vm.val : wants(key)}
        calls == Calls(LR.x)
        opt(key) == vm.val[key].sem[1].o
    IN /\ \A i \in 1..Len(calls) : \E key \in keys : opt(key).id = calls[i].id /\ vm.val[key].v.v = calls[i].v
       /\ LR.r = "ok" => /\ Len(calls) = Cardinality(keys)
                         /\ \A key \in keys : ~opt(key).nthrow
       /\ LR.r = "err" => LR.e = "notifier" /\ calls # <<>>
       \* name order
       /\ \A i, j \in 1..Len(calls) : i < j =>
            \E a, b \in keys : /\ a # b /\ StrLess(a, b) /\ opt(a).id = calls[i].id /\ opt(b).id = calls[j].id
       /\ LR.r = "ok" => \A key \in DOMAIN vm.val :
            (vm.val[key].sem # <<>> /\ ~Untyped(vm.val[key].sem[1]) /\ opt(key).sto) =>
               \E i \in 1..Len(LR.x) : LR.x[i].id = ">" \o opt(key).id

(* ---- C16: chained lookup ------------------------------------------------------------------------------------------- *)
C16Inv == JustDid("get") => LR.x = <<Show(LO.name, ChainMeaning(vms, LO.m, LO.name))>>

(* ---- C17: conversion ------------------------------------------------------------------------------------------------- *)
Accepts(e, s) ==       \* the texts an element type stands for
  CASE e \in {"string", "wstring"} -> TRUE
    [] e \in {"int", "level", "own"} -> LET d == IF s # "" /\ Ch(s, 1) \in {"+", "-"} THEN From(s, 2) ELSE s
                        z == StripZeros(d)
                    IN /\ d # "" /\ \A i \in 1..Len(d) : Ch(d, i) \in {"0","1","2","3","4","5","6","7","8","9"}
                       /\ Len(z) <= 10
                       /\ Len(z) = 10 => ~StrLess(IF Ch(s, 1) = "-" THEN "2147483648" ELSE "2147483647", z)
    [] e = "bool" -> \E w \in {"on", "off", "yes", "no", "1", "0", "true", "false", ""} : SameName(w, s, TRUE)
    [] e = "char" -> Len(s) = 1
    [] e = "wchart" -> Cardinality({i \in 1..Len(s) : ~Cont(Code(Ch(s, i)))}) = 1
    [] e = "tag" -> Ch(s \o " ", 1) = "@"
C17Inv ==
  /\ Idle => \A mm \in 1..Len(vms) : \A key \in DOMAIN vms[mm].val :
       LET e == vms[mm].val[key] IN
       (e.sem # <<>> /\ e.v # NoVal) => e.v.t = IF Untyped(e.sem[1]) THEN "string" ELSE TypeTag(e.sem[1].o.t)
  /\ (JustDid("store") /\ Stores(LO.m) = {J}) =>
       LET p == parsed[LO.p]
           bad == {i \in 1..Len(p.opts) : ~p.opts[i].un /\ Known(p, p.opts[i].k) /\
                     LET m == OptionAt(J, p.opts[i].k) IN
                     ~Untyped(m) /\ \E s \in Range(p.opts[i].v) : ~Accepts(ElemOf(m.o.t), s)}
       IN /\ bad # {} => LR.r = "err"
          /\ (LR.r = "err" /\ LR.e \in {"optvalue", "boolvalue"}) => bad # {}
  /\ JustDid("as") => (LR.r = "ok" <=> ChainMeaning(vms, LO.m, LO.name).v.t = LO.t)

(* ---- C18: messages ------------------------------------------------------------------------------------------------------ *)
C18Made == JustDid("err") =>
  LET e == Made(LO) IN
  /\ MessageComplete(e)
  /\ LR.x[1] = What(e)
  /\ HasContext(e) => LR.x[2] = CanonicalName(e) /\ (e.opt = "" => LR.x[2] = e.tok)
C18Inv == C18Made /\ (ph \in {"cmd", "cfg", "store", "notify"} /\ cur.pc = "fail") => MessageComplete(cur.err)

(* ---- C19: help ---------------------------------------------------------------------------------------------------------- *)
HelpLines(m, col, ll) == Split(Description(m.o.help, col, ll).s, "\n")
C19Text == (JustDid("help") /\ LR.r = "ok") => NothingLost(descs[LO.d], LR.x[1])
C19Layout ==
  (JustDid("help") /\ LR.r = "ok") =>
    LET d == descs[LO.d] IN
    \A col \in {IF Fld(LO, "col", 0) = 0 THEN ColumnWidth(d) ELSE LO.col} :
    \A i \in 1..Len(d.opts) :
    \A ls \in {HelpLines(d.opts[i], col, d.ll)} :
    \A j \in 1..Len(ls) :
            /\ Len(ls[j]) <= (IF j = 1 THEN d.ll - 1 - col ELSE d.ll - 1)       \* fits the line
            /\ j > 1 => Prefix(Spaces(col), ls[j])                              \* stays in its column
C19Refuse ==
  (JustDid("help") /\ LR.r = "err") =>
    \E i \in 1..Len(Opts(LO.d)) : \E p \in Range(Split(Opts(LO.d)[i].o.help, "\n")) :
       \E a, b \in 1..Len(p) : a < b /\ Ch(p, a) = "\t" /\ Ch(p, b) = "\t"
C19Inv == C19Text /\ C19Layout /\ C19Refuse

(* ---- C20: wide input ------------------------------------------------------------------------------------------------------- *)
C20Conv ==
  JustDid("conv") =>
    LET en == Fld(LO, "enc", "utf8") mn == Meant(en, LO.dir, LO.s) IN
    (en = "local" /\ LO.dir = "in" /\ Unfinished(LO.s)) \/       \* known finding F15
    /\ LR.r = "ok" <=> mn.ok
    /\ mn.ok => /\ LR.x = mn.out
                \* and back again
                /\ (LO.dir = "out" \/ en # "utf8") =>
                     Meant(en, IF LO.dir = "in" THEN "out" ELSE "in", LR.x) = [ok |-> TRUE, out |-> LO.s]
C20Pair ==      \* the same command line or file, wide and narrow
  (Idle /\ LO.op \in {"cmd", "cfg"}) =>
    \A i \in 1..(J - 1) : LET o == SC.ops[i] IN
      (o.op = LO.op /\ o.d = LO.d /\ o.wide # LO.wide
       /\ IF LO.op = "cmd" THEN [o EXCEPT !.wide = LO.wide, !.api = LO.api] = LO
          ELSE [o EXCEPT !.wide = LO.wide] = LO) =>
         \/ out[i] = LR
         \/ \E y \in {out[i], LR} : y.r = "err" /\ y.e = "logic"     \* known finding F14
(* storing the two into fresh maps, where every text has a local form: the same *)
C20Stored ==
  (JustDid("store") /\ Fld(LO, "loc", "") = "utf8" /\ Stores(LO.m) = {J}) =>
    \A i \in 1..(J - 1) : LET o == SC.ops[i] IN
      (o.op = "store" /\ Fld(o, "loc", "") = "utf8" /\ o.m # LO.m /\ Stores(o.m) = {i} /\ out[i].r # "skip" /\ LR.r # "skip"
       /\ parsed[o.p].d = parsed[LO.p].d /\ parsed[o.p].opts = parsed[LO.p].opts /\ parsed[o.p].pre = parsed[LO.p].pre
       /\ \A p \in Range(parsed[LO.p].opts) : \A s \in Range(p.v) : StrictUtf8(Bytes(s))) => out[i] = LR
C20Inv == C20Conv /\ C20Pair /\ C20Stored

(* ---- C21, C22: splitting ------------------------------------------------------------------------------------------------------ *)
(* Unix, from the characters: each has a role that depends on what precedes it *)
UnixRole(s, i, p, sep, q, e) ==     \* [role, inside quotes after it], p: the one before
  LET c == Ch(s, i) IN
  IF p.role = "escape" THEN [role |-> IF c = "n" THEN "newline" ELSE
                               IF Has(sep \o q \o e, c) THEN "text" ELSE "bad", in |-> p.in]
  ELSE IF Has(e, c) THEN [role |-> IF i = Len(s) THEN "bad" ELSE "escape", in |-> p.in]
  ELSE IF Has(sep, c) THEN [role |-> IF p.in THEN "text" ELSE "sep", in |-> p.in]
  ELSE IF Has(q, c) THEN [role |-> "quote", in |-> ~p.in]
  ELSE [role |-> "text", in |-> p.in]
RECURSIVE UnixRolesFrom(_, _, _, _, _, _, _)
UnixRolesFrom(s, i, p, sep, q, e, acc) ==
  IF i > Len(s) THEN acc ELSE
  LET x == TLCEval(UnixRole(s, i, p, sep, q, e)) IN
  UnixRolesFrom(s, i + 1, x, sep, q, e, TLCEval(Append(acc, x.role)))
UnixRoles(s, sep, q, e) == UnixRolesFrom(s, 1, [role |-> "start", in |-> FALSE], sep, q, e, <<>>)
RECURSIVE UnixPieces(_, _, _, _, _)
UnixPieces(s, roles, i, piece, acc) ==
  IF i > Len(s) THEN Append(acc, piece) ELSE
  CASE roles[i] = "text" -> UnixPieces(s, roles, i + 1, TLCEval(piece \o Ch(s, i)), acc)
    [] roles[i] = "newline" -> UnixPieces(s, roles, i + 1, TLCEval(piece \o "\n"), acc)
    [] roles[i] = "sep" -> UnixPieces(s, roles, i + 1, "", TLCEval(Append(acc, piece)))
    [] OTHER -> UnixPieces(s, roles, i + 1, piece, acc)
UnixMeaning(s, roles) == SelectSeq(UnixPieces(s, roles, 1, "", <<>>), LAMBDA x : x # "")   \* non-empty maximal pieces
C21Inv ==
  (JustDid("split") /\ LO.kind = "unix") =>
    LET r == UnixRoles(LO.s, LO.sep, LO.q, LO.esc) IN
    IF "bad" \in Range(r) THEN LR.r = "err" /\ LR.e = "escape"
    ELSE LR.r = "ok" /\ LR.x = UnixMeaning(LO.s, r)
(* Windows: quoting the arguments the standard way and splitting gives them back *)
WinQuoteOne(a) ==
  LET R[i \in 0..Len(a)] ==
        IF i = 0 THEN "" ELSE
        IF Ch(a, i) = "\"" THEN R[i - 1] \o Repeat("\\", TrailRun(a, i - 1)) \o "\\\"" ELSE R[i - 1] \o Ch(a, i)
  IN "\"" \o R[Len(a)] \o Repeat("\\", TrailRun(a, Len(a))) \o "\""
WinQuote(as) == Join(MapSeq(as, WinQuoteOne), " ")
C22Inv ==
  (JustDid("split") /\ LO.kind = "win") =>
    /\ LR.r = "ok"
    /\ SplitWin(WinQuote(LR.x)) = LR.x
    /\ (~Has(LO.s, "\"")) => LR.x = SelectSeq(WinBlankPieces(LO.s), LAMBDA x : x # "")

(* ---- C23: groups ---------------------------------------------------------------------------------------------------------------- *)
DescAt(i) == Cardinality({j \in 1..i : SC.ops[j].op \in {"desc", "dcopy"}})
RECURSIVE Contents(_, _)
Contents(d, i) ==       \* the options description d has after operation i, one by one
  IF i = 0 THEN <<>> ELSE
  LET op == SC.ops[i] before == Contents(d, i - 1) IN
  CASE op.op = "desc" /\ DescAt(i) = d -> op.opts
    [] op.op = "dcopy" /\ DescAt(i) = d -> Contents(op.d, i - 1)
    [] op.op = "add" /\ op.d = d -> Append(before, op.o)
    [] op.op = "grp" /\ op.d = d -> before \o Contents(op.g, i - 1)
    [] OTHER -> before
C23Contents == (Idle /\ LO.op \in {"desc", "add", "grp", "dcopy"}) =>
  \A d \in 1..Len(descs) : MapSeq(descs[d].opts, LAMBDA m : m.o) = Contents(d, J)
C23List == JustDid("list") => LR.x = MapSeq(Contents(LO.d, J), LAMBDA o : o.id)
SameOpts(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : [a[i].o EXCEPT !.id = ""] = [b[i].o EXCEPT !.id = ""]
C23Same ==      \* the same question to a tree and to the flat description
  (Idle /\ LO.op \in {"cmd", "cfg", "find"}) =>
    \A i \in 1..(J - 1) : LET o == SC.ops[i] IN
      (o.op = LO.op /\ o.d # LO.d /\ [o EXCEPT !.d = LO.d] = LO /\ SameOpts(Opts(o.d), Opts(LO.d))
       /\ \A j \in i..J : SC.ops[j].op \notin {"add", "grp"}) =>
         IF LO.op = "find" /\ LR.r = "ok" /\ LR.x # <<>>
         THEN out[i].r = "ok" /\ Tail(out[i].x) = Tail(LR.x) ELSE out[i] = LR
C23Inv == C23Contents /\ C23List /\ C23Same

(* ---- C24: no history ---------------------------------------------------------------------------------------------------------------- *)
C24Again ==
  (Idle /\ LO.op \in {"cmd", "cfg", "env", "find", "help", "list", "split", "conv"}) =>
    \A i \in 1..(J - 1) :
      (SC.ops[i] = LO /\ \A j \in i..J : SC.ops[j].op \notin {"add", "grp"}) => out[i] = LR
Parses == {"cmd", "cfg", "env", "make"}
ParseAt(p) == CHOOSE j \in 1..J : /\ SC.ops[j].op \in Parses
                                  /\ Cardinality({i \in 1..j : SC.ops[i].op \in Parses}) = p
C24Show == JustDid("show") => IF out[ParseAt(LO.p)].r = "ok" THEN LR = [out[ParseAt(LO.p)] EXCEPT !.kd = parsed[LO.p].pre] ELSE LR.r = "skip"
C24Others ==     \* storing changes no other map: a map is what its own last operation left
  (JustDid("dump") \/ JustDid("vcopy")) =>
    LET S == {j \in History(LO.m, J - 1) : out[j].r # "skip"}
    IN S # {} /\ SC.ops[MaxOf(S)].op \in {"store", "dump"} => out[MaxOf(S)].x = LR.x
C24Inv == C24Again /\ C24Show /\ C24Others

(* ---- all of them, by name ------------------------------------------------------------------------------------------------------ *)
Holds(p) ==
  CASE p = "C01" -> C01Inv
    [] p = "C02" -> C02Inv
    [] p = "C03" -> C03Inv
    [] p = "C04" -> C04Inv
    [] p = "C05" -> C05Inv
    [] p = "C06" -> C06Inv
    [] p = "C07" -> C07Inv
    [] p = "C08" -> C08Inv
    [] p = "C09" -> C09Inv
    [] p = "C10" -> C10Inv
    [] p = "C11" -> C11Inv /\ C11Clear
    [] p = "C12" -> C12Inv
    [] p = "C13" -> C13Inv
    [] p = "C14" -> C14Inv
    [] p = "C15" -> C15Inv
    [] p = "C16" -> C16Inv
    [] p = "C17" -> C17Inv
    [] p = "C18" -> C18Inv
    [] p = "C19" -> C19Inv
    [] p = "C20" -> C20Inv
    [] p = "C21" -> C21Inv
    [] p = "C22" -> C22Inv
    [] p = "C23" -> C23Inv
    [] p = "C24" -> C24Inv
=============================================================================
