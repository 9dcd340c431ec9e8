------------------------------- MODULE PoErr -------------------------------
(* Errors: what is reported, and the text the user sees.                     *)
EXTENDS PoStr

NoErr == [cls |-> "", kd |-> "", opt |-> "", tok |-> "", pre |-> "", alts |-> <<>>,
          val |-> "", hasval |-> FALSE, line |-> "", msg |-> "", subs |-> <<>>, dfl |-> <<>>]
Err(cls, kd) == [NoErr EXCEPT !.cls = cls, !.kd = kd]
ErrMsg(cls, msg) == [NoErr EXCEPT !.cls = cls, !.msg = msg]
NamedErr(cls, kd, opt, tok, pre) ==
  [NoErr EXCEPT !.cls = cls, !.kd = kd, !.opt = opt, !.tok = tok, !.pre = pre]
ValErr(cls, kd, val) == [NoErr EXCEPT !.cls = cls, !.kd = kd, !.val = val, !.hasval = TRUE]
AmbErr(alts) == [NoErr EXCEPT !.cls = "ambiguous", !.alts = alts]

(* Errors that can carry the option concerned. *)
HasContext(e) == e.cls \in {"unknown", "ambiguous", "cmdsyntax", "cfgsyntax", "syntax", "validation", "custom",
                            "optvalue", "boolvalue", "multivalues", "multioccur", "required"}
(* Unknown and ambiguous options have no option name, only a token. *)
AddContext(e, opt, tok, pre) ==
  IF ~HasContext(e) THEN e
  ELSE IF e.cls \in {"unknown", "ambiguous"} THEN [e EXCEPT !.tok = tok, !.pre = pre]
  ELSE [e EXCEPT !.opt = opt, !.tok = tok, !.pre = pre]

StripPrefixes(s) ==
  LET S == {i \in 1..Len(s) : Ch(s, i) \notin {"-", "/"}}
  IN IF S = {} THEN s ELSE From(s, MinOf(S))

PreText(p) == CASE p = "long" -> "--" [] p = "disguise" -> "-" [] p = "dash" -> "-"
                [] p = "slash" -> "/" [] OTHER -> ""

CanonicalName(e) ==
  LET tok == StripPrefixes(e.tok) IN
  IF e.opt = "" THEN e.tok
  ELSE IF e.pre \in {"long", "disguise"} THEN PreText(e.pre) \o StripPrefixes(e.opt)
  ELSE IF e.pre # "" /\ tok # "" THEN PreText(e.pre) \o Ch(tok, 1)
  ELSE StripPrefixes(e.opt)

SyntaxTemplate(kd) ==
  CASE kd = "empty_adjacent_parameter" ->
         "the argument for option '%canonical_option%' should follow immediately after the equal sign"
    [] kd = "missing_parameter" -> "the required argument for option '%canonical_option%' is missing"
    [] kd = "extra_parameter" -> "option '%canonical_option%' does not take any arguments"
    [] kd = "unrecognized_line" -> "the options configuration file contains an invalid line '%invalid_line%'"
    [] kd = "long_not_allowed" -> "the unabbreviated option '%canonical_option%' is not valid"
    [] kd = "long_adjacent_not_allowed" -> "the unabbreviated option '%canonical_option%' does not take any arguments"
    [] kd = "short_adjacent_not_allowed" -> "the abbreviated option '%canonical_option%' does not take any arguments"
InvalidBool == "the argument ('%value%') for option '%canonical_option%' is invalid. Valid choices are 'on|off', 'yes|no', '1|0' and 'true|false'"
InvalidValue == "the argument ('%value%') for option '%canonical_option%' is invalid"
ValidationTemplate(kd) ==
  CASE kd = "multiple_values_not_allowed" -> "option '%canonical_option%' only takes a single argument"
    [] kd = "at_least_one_value_required" -> "option '%canonical_option%' requires at least one argument"
    [] kd = "invalid_bool_value" -> InvalidBool
    [] kd = "invalid_option_value" -> InvalidValue
    [] kd = "invalid_option" -> "option '%canonical_option%' is not valid"
Template(e) ==
  CASE e.cls = "unknown" -> "unrecognised option '%canonical_option%'"
    [] e.cls = "ambiguous" -> "option '%canonical_option%' is ambiguous"
    [] e.cls \in {"cmdsyntax", "cfgsyntax", "syntax"} -> SyntaxTemplate(e.kd)
    [] e.cls = "boolvalue" -> InvalidBool
    [] e.cls = "optvalue" -> InvalidValue
    [] e.cls = "validation" -> ValidationTemplate(e.kd)
    [] e.cls = "custom" -> e.msg
    [] e.cls = "multivalues" -> "option '%canonical_option%' only takes a single argument"
    [] e.cls = "multioccur" -> "option '%canonical_option%' cannot be specified more than once"
    [] e.cls = "required" -> "the option '%canonical_option%' is required but missing"

Alternatives(e) ==
  LET vs == SortedSeq(Range(e.alts))
      q(a) == "'%prefix%" \o a \o "'"
      n == Len(vs)
  IN " and matches "
     \o (IF n > 1 THEN Join(MapSeq(SubSeq(vs, 1, n - 1), q), ", ") \o ", and " ELSE "")
     \o (IF Len(e.alts) > 1 /\ n = 1 THEN "different versions of " ELSE "")
     \o q(vs[n])

RECURSIVE ReplaceAll(_, _, _, _)
ReplaceAll(s, f, t, i) ==
  LET p == FindStr(s, f, i) IN
  IF p = 0 THEN s ELSE ReplaceAll(Upto(s, p - 1) \o t \o From(s, p + Len(f)), f, t, p + Len(t))

(* One left-to-right pass: inserted text is never looked at again. *)
RECURSIVE SubstFrom(_, _, _)
SubstFrom(s, map, i) ==
  LET p == Find(s, "%", i)
      q == IF p = 0 THEN 0 ELSE Find(s, "%", p + 1)
      name == SubSeq(s, p + 1, q - 1)
  IN IF p = 0 \/ q = 0 THEN From(s, i)
     ELSE IF name \in DOMAIN map
     THEN SubSeq(s, i, p - 1) \o map[name] \o SubstFrom(s, map, q + 1)
     ELSE SubSeq(s, i, q - 1) \o SubstFrom(s, map, q)

ValueText(e) ==
  LET is == IdxFrom(1, Len(e.subs), LAMBDA i : e.subs[i][1] = "value")
  IN IF is # <<>> THEN e.subs[is[Len(is)]][2] ELSE e.val

(* texts set by the program; the last one counts, the computed ones prevail    *)
RECURSIVE WithSubs(_, _)
WithSubs(map, subs) ==
  IF subs = <<>> THEN map
  ELSE LET s == Head(subs) IN
       WithSubs(IF s[1] \in {"canonical_option", "prefix"} THEN map ELSE (s[1] :> s[2]) @@ map, Tail(subs))

(* What stands for a placeholder, and the words around it, when there is       *)
(* nothing to put there; the program may replace and extend these.             *)
RECURSIVE Defaults(_)
Defaults(dfl) ==
  IF dfl = <<>>
  THEN [canonical_option |-> <<"option '%canonical_option%'", "option">>, value |-> <<"argument ('%value%')", "argument">>,
        prefix |-> <<"%prefix%", "">>]
  ELSE LET d == dfl[Len(dfl)] IN (d[1] :> <<d[2], d[3]>>) @@ Defaults(SubSeq(dfl, 1, Len(dfl) - 1))
RECURSIVE WithDefaults(_, _, _, _)
WithDefaults(s, map, dfl, names) ==
  IF names = <<>> THEN s
  ELSE LET nm == Head(names)
           missing == IF nm \in DOMAIN map THEN map[nm] = "" ELSE TRUE
       IN WithDefaults(IF missing THEN ReplaceAll(s, dfl[nm][1], dfl[nm][2], 1) ELSE s, map, dfl, Tail(names))

What(e) ==
  IF e.cls = "toomany" THEN "too many positional options have been specified on the command line"
  ELSE IF e.cls = "readfile" /\ e.msg = "" THEN "can not read options configuration file '" \o e.tok \o "'"
  ELSE IF ~HasContext(e) THEN e.msg
  ELSE
  LET t0 == IF e.cls = "ambiguous" /\ e.pre \notin {"dash", "slash"}
            THEN Template(e) \o Alternatives(e) ELSE Template(e)
      canon == CanonicalName(e)
      base == [canonical_option |-> canon, prefix |-> PreText(e.pre), option |-> e.opt,
               original_token |-> e.tok]
      m1 == IF e.hasval THEN base @@ [value |-> e.val] ELSE base
      m2 == IF e.cls = "cfgsyntax" THEN m1 @@ [invalid_line |-> e.line] ELSE m1
      map == WithSubs(m2, e.subs)
  IN SubstFrom(WithDefaults(t0, map, Defaults(e.dfl), SortedSeq(DOMAIN Defaults(e.dfl))), map, 1)

(* ---- errors the program makes itself -------------------------------------- *)
RECURSIVE AddContexts(_, _)
AddContexts(e, ctx) == IF ctx = <<>> THEN e
                       ELSE AddContexts(AddContext(e, ctx[1][1], ctx[1][2], ctx[1][3]), Tail(ctx))
Made(op) ==
  LET c == op.cls
      e0 == CASE c = "unknown" -> [Err(c, "") EXCEPT !.tok = op.tok]
              [] c = "ambiguous" -> AmbErr(op.alts)
              [] c \in {"multivalues", "multioccur"} -> Err(c, "")
              [] c = "required" -> [Err(c, "") EXCEPT !.tok = op.tok]
              [] c \in {"cmdsyntax", "syntax", "validation"} -> NamedErr(c, op.kd, op.opt, op.tok, op.pre)
              [] c = "cfgsyntax" -> [Err(c, op.kd) EXCEPT !.line = op.line]
              [] c \in {"boolvalue", "optvalue"} ->
                   ValErr(c, "", IF c = "optvalue" /\ op.wide /\ \E i \in 1..Len(op.val) : Code(Ch(op.val, i)) > 127
                                 THEN "<unrepresentable unicode string>" ELSE op.val)
              [] c = "custom" -> [NamedErr(c, "", op.opt, op.tok, op.pre) EXCEPT !.msg = op.msg]
              [] c = "readfile" -> [Err(c, "") EXCEPT !.tok = op.tok]
              [] OTHER -> ErrMsg(c, op.msg)
      e1 == [AddContexts(e0, op.ctx) EXCEPT !.subs = op.subs, !.dfl = op.dfl]
      last(name) == IdxFrom(1, Len(op.subs), LAMBDA i : op.subs[i][1] = name)
      set(name, before) == IF last(name) = <<>> THEN before ELSE op.subs[last(name)[Len(last(name))]][2]
  IN IF HasContext(e0) THEN [e1 EXCEPT !.opt = set("option", @), !.tok = set("original_token", @), !.line = set("invalid_line", @)] ELSE e0
TokensNamed(e) == IF e.cls = "cfgsyntax" THEN e.line ELSE IF e.cls \in {"cmdsyntax", "syntax"} THEN CanonicalName(e) ELSE ""

(* ---- what a caller can rely on (property C18) --------------------------- *)
Contains(s, p) == p = "" \/ FindStr(s, p, 1) # 0
NamesOption(e) == HasContext(e) => Contains(What(e), CanonicalName(e)) \/ e.cls = "custom" \/ e.kd = "unrecognized_line"
NamesValue(e) == e.hasval => Contains(What(e), e.val)
NamesAlternatives(e) ==
  (e.cls = "ambiguous" /\ e.pre \notin {"dash", "slash"}) =>
     \A a \in Range(e.alts) : ~Has(a, "%") => Contains(What(e), "'" \o PreText(e.pre) \o a \o "'")
UserTextClean(e) == ~Has(e.tok \o e.opt \o ValueText(e) \o e.line \o Join(e.alts, ""), "%")
NoPlaceholderLeft(e) == (HasContext(e) /\ e.cls \notin {"custom", "syntax", "cmdsyntax"} /\ UserTextClean(e)) => ~Has(What(e), "%")
MessageComplete(e) == e.dfl = <<>> => NamesOption(e) /\ NamesValue(e) /\ NamesAlternatives(e) /\ NoPlaceholderLeft(e)
=============================================================================
