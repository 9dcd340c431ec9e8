------------------------------- MODULE PoCmd -------------------------------
(* The command line parser as a state machine.                               *)
(*                                                                           *)
(* Tokens are offered, one parser after the other, to a list of token        *)
(* parsers (user style parser, user token parser, long, disguised, dash      *)
(* short, slash short, terminator).  A parser consumes tokens from the front *)
(* and yields options; every yielded option is finished (looked up, renamed  *)
(* to its key, completed with following tokens).  A token no parser consumes *)
(* is positional.  Afterwards options that may take more values gather the   *)
(* positional tokens that follow them, positional options are numbered and   *)
(* named, and the case flag is set.                                          *)
(*                                                                           *)
(* The machine state is the record cs; each operator below named Cmd...      *)
(* is one transition (guarded by cs.pc).                                     *)
EXTENDS PoDesc, PoErr

StyleFlags == {"long", "short", "dash", "slash", "ladj", "lnext", "sadj", "snext",
               "sticky", "guess", "lci", "sci", "disg"}
UnixStyle == {"short", "sadj", "snext", "long", "ladj", "lnext", "sticky", "guess", "dash"}

(* style 0 stands for the default *)
EffStyle(style) == IF style = <<>> THEN UnixStyle ELSE Range(style)

StyleError(st) ==
  LET pre == "boost::program_options misconfiguration: choose one or other of "
      m(a, ta, b, tb, what) == pre \o "'command_line_style::" \o a \o "' (" \o ta \o ") or "
                      \o "'command_line_style::" \o b \o "' (" \o tb \o ") for " \o what \o " options."
  IN IF ("long" \in st \/ "disg" \in st) /\ "ladj" \notin st /\ "lnext" \notin st
     THEN m("long_allow_next", "whitespace separated arguments",
            "long_allow_adjacent", "'=' separated arguments", "long")
     ELSE IF "short" \in st /\ "sadj" \notin st /\ "snext" \notin st
     THEN m("short_allow_next", "whitespace separated arguments",
            "short_allow_adjacent", "'=' separated arguments", "short")
     ELSE IF "short" \in st /\ "dash" \notin st /\ "slash" \notin st
     THEN m("allow_slash_for_short", "slashes", "allow_dash_for_short", "dashes", "short")
     ELSE ""

(* how options are spelled in messages about this command line *)
PrefixStyle(st) ==
  IF "long" \in st THEN "long" ELSE IF "disg" \in st THEN "disguise"
  ELSE IF "short" \in st /\ "dash" \in st THEN "dash"
  ELSE IF "short" \in st /\ "slash" \in st THEN "slash" ELSE ""

(* ---- the context of one run -------------------------------------------- *)
(* cx: [opts, st, pre, unreg, haspos, names, trail, extra, sx]               *)
PosNames(pos) == Concat(MapSeq(pos, LAMBDA p : IF p[2] = -1 THEN <<>> ELSE [i \in 1..p[2] |-> p[1]]))
PosTrail(pos) == LET S == {i \in 1..Len(pos) : pos[i][2] = -1}
                 IN IF S = {} THEN "" ELSE pos[MinOf(S)][1]
Context(opts, op) ==
  LET st == EffStyle(op.style) IN
  [opts |-> opts, st |-> st, pre |-> PrefixStyle(st), unreg |-> op.unreg, haspos |-> op.haspos,
   names |-> PosNames(op.pos), trail |-> PosTrail(op.pos), extra |-> op.extra, sx |-> op.sx]
Guess(cx) == "guess" \in cx.st
Lci(cx) == "lci" \in cx.st
Sci(cx) == "sci" \in cx.st
Lookup(cx, name) == FindOpt(cx.opts, name, Guess(cx), Lci(cx), Sci(cx))

Opt(k, v, t) == [k |-> k, pos |-> -1, v |-> v, t |-> t, un |-> FALSE, ci |-> FALSE]
PosOpt(tok) == Opt("", <<tok>>, <<tok>>)

(* ---- token parsers: [err, next, rest] ----------------------------------- *)
Yield(next, rest) == [err |-> NoErr, next |-> next, rest |-> rest]
Fail(err, rest) == [err |-> err, next |-> <<>>, rest |-> rest]
Opt1(s) == IF s = "" THEN <<>> ELSE <<s>>

ParseLong(cx, args) ==
  LET tok == args[1]
      p == Find(tok, "=", 1)
      name == IF p = 0 THEN From(tok, 3) ELSE SubSeq(tok, 3, p - 1)
      adj == IF p = 0 THEN "" ELSE From(tok, p + 1)
  IN IF ~(Len(tok) >= 3 /\ Prefix("--", tok)) THEN Yield(<<>>, args)
     ELSE IF p # 0 /\ adj = ""
     THEN Fail(NamedErr("cmdsyntax", "empty_adjacent_parameter", name, name, cx.pre), args)
     ELSE Yield(<<Opt(name, Opt1(adj), <<tok>>)>>, Tail(args))

ParseDisguised(cx, args) ==
  LET tok == args[1]
      p == Find(tok, "=", 1)
      name == IF p = 0 THEN From(tok, 2) ELSE SubSeq(tok, 2, p - 1)
      f == Lookup(cx, name)
      as == "--" \o From(tok, 2)
      res == ParseLong(cx, <<as>> \o Tail(args))
  IN IF ~(Len(tok) >= 2 /\ \/ (Ch(tok, 1) = "-" /\ Ch(tok, 2) # "-")
                           \/ ("slash" \in cx.st /\ Ch(tok, 1) = "/"))
     THEN Yield(<<>>, args)
     ELSE IF f.r = "amb" THEN Fail(AddContext(AmbErr(f.alts), tok, tok, cx.pre), args)
     ELSE IF f.r = "none" THEN Yield(<<>>, args)
     ELSE IF res.err # NoErr THEN Fail(AddContext(res.err, as, as, cx.pre), args)
     ELSE Yield(MapSeq(res.next, LAMBDA o : [o EXCEPT !.t = <<tok>>]), res.rest)

RECURSIVE ShortGroup(_, _, _, _, _)
ShortGroup(cx, tok, name, adj, acc) ==
  LET f == FindOpt(cx.opts, name, FALSE, FALSE, Sci(cx)) IN
  IF f.r = "amb" THEN [err |-> AddContext(AmbErr(f.alts), name, name, cx.pre), next |-> <<>>]
  ELSE IF f.r = "found" /\ "sticky" \in cx.st /\ MaxTok(cx.opts[f.i]) = 0 /\ adj # ""
  THEN ShortGroup(cx, tok, "-" \o Ch(adj, 1), From(adj, 2), Append(acc, Opt(name, <<>>, <<>>)))
  ELSE [err |-> NoErr, next |-> Append(acc, Opt(name, Opt1(adj), <<tok>>))]
ParseShort(cx, args) ==
  LET tok == args[1]
      res == ShortGroup(cx, tok, Upto(tok, 2), From(tok, 3), <<>>)
  IN IF ~(Len(tok) >= 2 /\ Ch(tok, 1) = "-" /\ Ch(tok, 2) # "-") THEN Yield(<<>>, args)
     ELSE IF res.err # NoErr THEN Fail(res.err, args)
     ELSE Yield(res.next, Tail(args))

ParseSlash(cx, args) ==
  LET tok == args[1] IN
  IF ~(Len(tok) >= 2 /\ Ch(tok, 1) = "/") THEN Yield(<<>>, args)
  ELSE Yield(<<Opt("-" \o Ch(tok, 2), Opt1(From(tok, 3)), <<tok>>)>>, Tail(args))

ParseTerminator(cx, args) ==
  IF args[1] # "--" THEN Yield(<<>>, args)
  ELSE Yield(MapSeq(Tail(args), LAMBDA a : [PosOpt(a) EXCEPT !.pos = M]), <<>>)

(* user token parsers: a family used by the conformance scenarios *)
BareWords == {"foo", "bar", "zz"}      \* words that stand for options
ExtraParser(kind, tok) ==
  CASE kind = "at" -> IF Prefix("@", tok) THEN <<"file", From(tok, 2)>> ELSE <<"", "">>
    [] kind = "no" -> IF Prefix("--no-", tok) THEN <<From(tok, 6), "0">> ELSE <<"", "">>
    [] kind = "colon" -> LET p == Find(tok, ":", 1) IN
                         IF p > 1 THEN <<Upto(tok, p - 1), From(tok, p + 1)>> ELSE <<"", "">>
    [] kind = "bad" -> IF Prefix("!", tok) THEN <<"undeclared", From(tok, 2)>> ELSE <<"", "">>
    [] kind = "sh" -> IF Prefix("+", tok) /\ Len(tok) > 1
                      THEN <<"-" \o Ch(tok, 2), From(tok, 3)>> ELSE <<"", "">>
    [] kind = "bare" -> IF tok \in BareWords THEN <<tok, "">> ELSE <<"", "">>
ParseExtra(cx, args) ==
  LET r == ExtraParser(cx.extra, args[1]) IN
  IF r[1] = "" THEN Yield(<<>>, args)
  ELSE Yield(<<Opt(r[1], Opt1(r[2]), <<args[1]>>)>>, Tail(args))

(* user style parsers *)
StyleParser(kind, args) ==
  LET tok == args[1] IN
  CASE kind = "at2" ->
         IF ~Prefix("@", tok) THEN Yield(<<>>, args)
         ELSE IF Len(args) = 1 THEN Yield(<<Opt("file", <<>>, <<tok>>)>>, <<>>)
         ELSE Yield(<<Opt("file", <<args[2]>>, <<tok, args[2]>>)>>, SubSeq(args, 3, Len(args)))
    [] kind = "plus" ->
         IF ~(Prefix("+", tok) /\ Len(tok) > 1) THEN Yield(<<>>, args)
         ELSE Yield(TLCEval([i \in 1..(Len(tok) - 1) |->
                       Opt("-" \o Ch(tok, i + 1), <<>>, IF i = Len(tok) - 1 THEN <<tok>> ELSE <<>>)]),
                    Tail(args))
    [] kind = "pair" ->
         LET p == Find(tok, ":", 1) IN
         IF p <= 1 THEN Yield(<<>>, args)
         ELSE Yield(<<Opt(Upto(tok, p - 1), Opt1(From(tok, p + 1)), <<tok>>)>>, Tail(args))
    [] kind = "stop" ->
         IF tok # "%%" THEN Yield(<<>>, args)
         ELSE Yield(MapSeq(Tail(args), LAMBDA a : [PosOpt(a) EXCEPT !.pos = M]), <<>>)
    [] kind = "drop" ->
         IF tok # "-drop" THEN Yield(<<>>, args) ELSE Yield(<<>>, Tail(args))
    [] kind = "two" ->
         IF ~Prefix("^", tok) THEN Yield(<<>>, args)
         ELSE Yield(<<Opt("foo", Opt1(From(tok, 2)), <<>>), Opt("bar", Opt1(From(tok, 2)), <<tok>>)>>,
                    Tail(args))
    [] kind = "bare" ->
         IF tok \notin BareWords THEN Yield(<<>>, args) ELSE Yield(<<Opt(tok, <<>>, <<tok>>)>>, Tail(args))
    \* abbreviations for other tokens: they are put back for the others to parse
    [] kind = "grow" ->
         CASE tok = "%x" -> Yield(<<>>, <<"--foo", "v">> \o Tail(args))
           [] tok = "%y" -> Yield(<<>>, <<"--bar">> \o Tail(args))
           [] tok = "%z" -> Yield(<<>>, <<"%x", "w">> \o Tail(args))
           [] OTHER -> Yield(<<>>, args)

Parsers(cx) ==
     (IF cx.sx # "" THEN <<"sx">> ELSE <<>>)
  \o (IF cx.extra # "" THEN <<"extra">> ELSE <<>>)
  \o (IF "long" \in cx.st THEN <<"long">> ELSE <<>>)
  \o (IF "disg" \in cx.st THEN <<"disguised">> ELSE <<>>)
  \o (IF "short" \in cx.st /\ "dash" \in cx.st THEN <<"dash">> ELSE <<>>)
  \o (IF "short" \in cx.st /\ "slash" \in cx.st THEN <<"slash">> ELSE <<>>)
  \o <<"terminator">>
ApplyParser(p, cx, args) ==
  CASE p = "sx" -> StyleParser(cx.sx, args)
    [] p = "extra" -> ParseExtra(cx, args)
    [] p = "long" -> ParseLong(cx, args)
    [] p = "disguised" -> ParseDisguised(cx, args)
    [] p = "dash" -> ParseShort(cx, args)
    [] p = "slash" -> ParseSlash(cx, args)
    [] p = "terminator" -> ParseTerminator(cx, args)

(* Is this token, on its own, an option in some active syntax? *)
RECURSIVE LookFrom(_, _, _, _)
LookFrom(cx, ps, i, args) ==
  IF i > Len(ps) \/ args = <<>> THEN [err |-> NoErr, any |-> FALSE]
  ELSE LET r == ApplyParser(ps[i], cx, args) IN
       IF r.err # NoErr THEN [err |-> r.err, any |-> FALSE]
       ELSE IF r.next # <<>> THEN [err |-> NoErr, any |-> TRUE]
       ELSE LookFrom(cx, ps, i + 1, r.rest)
LooksLikeOption(cx, tok) == LookFrom(cx, Parsers(cx), 1, <<tok>>)

(* ---- the machine -------------------------------------------------------- *)
CmdInit(args) ==
  [pc |-> "scan", args |-> args, pi |-> 1, size |-> Len(args), next |-> <<>>, ni |-> 1, need |-> 0,
   tokx |-> "", opts |-> <<>>, gi |-> 1, grp |-> <<>>, err |-> NoErr]
CmdFailed(cs, e) == [cs EXCEPT !.pc = "fail", !.err = e]

(* offer the remaining tokens to parser number pi *)
CmdOffer(cx, cs) ==
  LET r == ApplyParser(Parsers(cx)[cs.pi], cx, cs.args) IN
  IF r.err # NoErr THEN CmdFailed(cs, r.err)
  ELSE [cs EXCEPT !.pc = IF r.next = <<>> THEN "offered" ELSE "finish",
                  !.size = Len(cs.args), !.args = r.rest, !.next = r.next, !.ni = 1]
(* all options of this parser are done: restart at the first parser if       *)
(* tokens were consumed, else try the next parser                            *)
CmdOffered(cx, cs) ==
  LET more == [cs EXCEPT !.opts = @ \o cs.next, !.next = <<>>] IN
  IF Len(cs.args) # cs.size THEN [more EXCEPT !.pc = "scan", !.pi = 1]
  ELSE IF cs.pi < Len(Parsers(cx)) THEN [more EXCEPT !.pc = "scan", !.pi = @ + 1]
  ELSE [more EXCEPT !.pc = "positional"]
(* nobody wants the first token *)
CmdPositional(cs) ==
  [cs EXCEPT !.pc = "scan", !.pi = 1, !.opts = Append(@, PosOpt(cs.args[1])), !.args = Tail(@)]

FinTok(cs) == LET o == cs.next[cs.ni] IN IF o.t = <<>> THEN o.k ELSE o.t[1]
(* only the last option a parser yields may take following tokens *)
Others(cs) == IF cs.ni = Len(cs.next) THEN cs.args ELSE <<>>
NextOption(cs) == IF cs.ni = Len(cs.next) THEN [cs EXCEPT !.pc = "offered"]
                  ELSE [cs EXCEPT !.pc = "finish", !.ni = @ + 1]
CmdFinish(cx, cs) ==
  LET o == cs.next[cs.ni]
      tok == FinTok(cs)
      f == Lookup(cx, o.k)
      m == cx.opts[f.i]
      key == Key(m, o.k)
      min == MinTok(m)
      max == MaxTok(m)
  IN IF o.k = "" THEN NextOption(cs)
     ELSE IF f.r = "amb" THEN CmdFailed(cs, AddContext(AmbErr(f.alts), o.k, tok, cx.pre))
     ELSE IF f.r = "none" THEN
          IF cx.unreg THEN NextOption([cs EXCEPT !.next[cs.ni].un = TRUE])
          ELSE CmdFailed(cs, AddContext(Err("unknown", ""), o.k, tok, cx.pre))
     ELSE IF Len(o.v) + Len(Others(cs)) < min
          THEN CmdFailed(cs, NamedErr("cmdsyntax", "missing_parameter", key, tok, cx.pre))
     ELSE IF o.v # <<>> /\ max = 0
          THEN CmdFailed(cs, NamedErr("cmdsyntax", "extra_parameter", key, tok, cx.pre))
     ELSE [cs EXCEPT !.pc = "attach", !.next[cs.ni].k = key, !.tokx = tok,
                     !.need = Max2(0, min - Len(o.v))]
CmdAttach(cx, cs) ==
  LET o == cs.next[cs.ni]
      tok == cs.args[1]
      look == LooksLikeOption(cx, tok)
      f == Lookup(cx, tok)
  IN IF cs.need = 0 \/ Others(cs) = <<>> THEN NextOption(cs)
     ELSE IF look.err # NoErr THEN CmdFailed(cs, AddContext(look.err, o.k, cs.tokx, cx.pre))
     ELSE IF look.any /\ f.r = "amb" THEN CmdFailed(cs, AddContext(AmbErr(f.alts), o.k, tok, cx.pre))
     ELSE IF look.any /\ f.r = "found"
          THEN CmdFailed(cs, NamedErr("cmdsyntax", "missing_parameter", o.k, tok, cx.pre))
     ELSE [cs EXCEPT !.next[cs.ni].v = Append(@, tok), !.next[cs.ni].t = Append(@, tok),
                     !.args = Tail(@), !.need = @ - 1,
                     !.tokx = IF look.any THEN tok ELSE @]
CmdScanned(cs) == [cs EXCEPT !.pc = "gather"]

(* an option that may take more values gathers the positional tokens after it *)
RECURSIVE GatherEnd(_, _, _)
GatherEnd(opts, j, left) ==
  IF left = 0 \/ j > Len(opts) THEN j
  ELSE IF opts[j].k # "" \/ opts[j].pos = M THEN j
  ELSE GatherEnd(opts, j + 1, left - 1)
CmdGather(cx, cs) ==
  LET o == cs.opts[cs.gi]
      f == Lookup(cx, o.k)
      m == cx.opts[f.i]
      max == MaxTok(m)
      can == MinTok(m) < max /\ Len(o.v) < max
      j == IF can THEN GatherEnd(cs.opts, cs.gi + 1, max - Len(o.v)) ELSE cs.gi + 1
      taken == SubSeq(cs.opts, cs.gi + 1, j - 1)
      tok == IF o.t = <<>> THEN o.k ELSE o.t[1]
  IN IF o.k = "" \/ f.r = "none" THEN [cs EXCEPT !.grp = Append(@, o), !.gi = @ + 1]
     ELSE IF f.r = "amb" THEN CmdFailed(cs, AddContext(AmbErr(f.alts), o.k, tok, cx.pre))
     ELSE [cs EXCEPT !.gi = j,
             !.grp = Append(@, [o EXCEPT !.v = @ \o MapSeq(taken, LAMBDA q : q.v[1]),
                                         !.t = @ \o MapSeq(taken, LAMBDA q : q.t[1])])]

NumberFrom(opts) == TLCEval([i \in 1..Len(opts) |->
   IF opts[i].k = ""
   THEN [opts[i] EXCEPT !.pos = Cardinality({j \in 1..(i - 1) : opts[j].k = ""})] ELSE opts[i]])
CmdNumber(cs) == [cs EXCEPT !.pc = "name", !.opts = NumberFrom(cs.grp), !.grp = <<>>, !.gi = 1]

MaxPositional(cx) == IF cx.trail = "" THEN Len(cx.names) ELSE M
NameFor(cx, n) == IF n < Len(cx.names) THEN cx.names[n + 1] ELSE cx.trail
CmdName(cx, cs) ==
  LET n == Cardinality({j \in 1..Len(cs.opts) : cs.opts[j].pos # -1}) IN
  IF ~cx.haspos THEN [cs EXCEPT !.pc = "flag"]
  ELSE IF n > MaxPositional(cx) THEN CmdFailed(cs, ErrMsg("toomany", ""))
  ELSE [cs EXCEPT !.pc = "flag", !.opts = MapSeq(cs.opts, LAMBDA o :
          IF o.pos = -1 THEN o ELSE [o EXCEPT !.k = NameFor(cx, o.pos)])]

LongKey(k) == Len(k) > 2 \/ (Len(k) > 1 /\ Ch(k, 1) # "-")
CmdFlag(cx, cs) ==
  [cs EXCEPT !.pc = "done", !.opts = MapSeq(cs.opts, LAMBDA o :
      [o EXCEPT !.ci = IF LongKey(o.k) THEN Lci(cx) ELSE Sci(cx)])]

CmdDone(cs) == cs.pc \in {"done", "fail"}
(* one transition, whichever is enabled *)
CmdStep(cx, cs) ==
  CASE cs.pc = "scan" /\ cs.args # <<>> -> CmdOffer(cx, cs)
    [] cs.pc = "scan" /\ cs.args = <<>> -> CmdScanned(cs)
    [] cs.pc = "offered" -> CmdOffered(cx, cs)
    [] cs.pc = "positional" -> CmdPositional(cs)
    [] cs.pc = "finish" -> CmdFinish(cx, cs)
    [] cs.pc = "attach" -> CmdAttach(cx, cs)
    [] cs.pc = "gather" /\ cs.gi <= Len(cs.opts) -> CmdGather(cx, cs)
    [] cs.pc = "gather" /\ cs.gi > Len(cs.opts) -> CmdNumber(cs)
    [] cs.pc = "name" -> CmdName(cx, cs)
    [] cs.pc = "flag" -> CmdFlag(cx, cs)
RECURSIVE CmdRun(_, _)
CmdRun(cx, cs) == IF CmdDone(cs) THEN cs ELSE CmdRun(cx, CmdStep(cx, cs))

(* options handed back by collect_unrecognized *)
Collect(opts, positional) ==
  Concat(MapSeq(SelectSeq(opts, LAMBDA o : o.un \/ (positional /\ o.pos # -1)), LAMBDA o : o.t))
=============================================================================
