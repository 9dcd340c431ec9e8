------------------------------- MODULE PoVal -------------------------------
(* Values: conversion of the tokens of one occurrence into the value of an   *)
(* option.  A value is [t, v]: a type tag and its printable parts; the empty *)
(* value has tag "".                                                         *)
EXTENDS PoDesc, PoErr, PoUtf

NoVal == [t |-> "", v |-> <<>>]
Val(t, v) == [t |-> t, v |-> v]
VOk(x) == [err |-> NoErr, val |-> x]
VErr(e, x) == [err |-> e, val |-> x]

(* ---- single tokens ------------------------------------------------------- *)
RECURSIVE StripZeros(_)
StripZeros(d) == IF Len(d) > 1 /\ Ch(d, 1) = "0" THEN StripZeros(From(d, 2)) ELSE d
AllDigits(d) == d # "" /\ \A i \in 1..Len(d) : IsDigit(Ch(d, i))
DecLess(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ StrLess(a, b))  \* no leading zeros
(* [ok, s]: a decimal integer within 32 bits, in canonical form *)
IntOf(s) ==
  LET neg == Len(s) > 0 /\ Ch(s, 1) = "-"
      sgn == Len(s) > 0 /\ Ch(s, 1) \in {"-", "+"}
      d == IF sgn THEN From(s, 2) ELSE s
      z == StripZeros(d)
      lim == IF neg THEN "2147483648" ELSE "2147483647"
  IN IF ~AllDigits(d) \/ DecLess(lim, z) THEN [ok |-> FALSE, s |-> ""]
     ELSE [ok |-> TRUE, s |-> IF neg /\ z # "0" THEN "-" \o z ELSE z]
TrueWords == {"", "on", "yes", "1", "true"}
FalseWords == {"off", "no", "0", "false"}

BadLex == ErrMsg("badlex", "")
(* Convert one token to element type e: [ok, err, s]                          *)
Elem(e, s) ==
  CASE e = "string" -> [ok |-> TRUE, err |-> NoErr, s |-> s]
    [] e = "wstring" -> [ok |-> TRUE, err |-> NoErr, s |-> s]
    [] e = "int" -> LET r == IntOf(s) IN
          IF r.ok THEN [ok |-> TRUE, err |-> NoErr, s |-> r.s]
          ELSE [ok |-> FALSE, err |-> ValErr("optvalue", "invalid_option_value", s), s |-> ""]
    \* user types: one that is read from a stream; one whose validator lets the
    \* failures of a conversion out
    [] e = "level" -> LET r == IntOf(s) IN
          IF r.ok THEN [ok |-> TRUE, err |-> NoErr, s |-> r.s]
          ELSE [ok |-> FALSE, err |-> ValErr("optvalue", "invalid_option_value", s), s |-> ""]
    [] e = "own" -> LET r == IntOf(s) IN
          IF r.ok THEN [ok |-> TRUE, err |-> NoErr, s |-> r.s] ELSE [ok |-> FALSE, err |-> BadLex, s |-> ""]
    [] e = "bool" -> LET l == Lower(s) IN
          IF l \in TrueWords THEN [ok |-> TRUE, err |-> NoErr, s |-> "1"]
          ELSE IF l \in FalseWords THEN [ok |-> TRUE, err |-> NoErr, s |-> "0"]
          ELSE [ok |-> FALSE, err |-> ValErr("boolvalue", "invalid_bool_value", l), s |-> ""]
    [] e = "wchart" -> IF Len(s) > 0 /\ Len(Decode(Bytes(s)).out) = 1 THEN [ok |-> TRUE, err |-> NoErr, s |-> s]
          ELSE [ok |-> FALSE, err |-> ValErr("optvalue", "invalid_option_value", s), s |-> ""]
    [] e = "char" -> IF Len(s) = 1 THEN [ok |-> TRUE, err |-> NoErr, s |-> s]
          ELSE [ok |-> FALSE, err |-> ValErr("optvalue", "invalid_option_value", s), s |-> ""]
    \* a user type with its own validator: "@..." only, the rest is the value
    [] e = "tag" -> IF Prefix("@", s) THEN [ok |-> TRUE, err |-> NoErr, s |-> From(s, 2)]
          ELSE [ok |-> FALSE, err |-> ValErr("optvalue", "invalid_option_value", s), s |-> ""]

(* element type and shape of each declared type *)
ElemOf(t) == CASE t \in {"string", "vstring", "ostring", "stdostring", "two", "upto3", "upto3z", "wnarrow", "vwnarrow"} -> "string"
               [] t \in {"int", "vint", "oint", "stdoint", "wint", "vwint", "owint"} -> "int"
               [] t \in {"bool", "switch", "vbool", "wbool"} -> "bool"
               [] t \in {"tag", "vtag", "otag"} -> "tag" [] t \in {"level", "vlevel", "wlevel"} -> "level"
               [] t \in {"own", "vown", "oown"} -> "own"
               [] t \in {"wstring", "vwstring", "stdowstring"} -> "wstring"
               [] t = "char" -> "char"
               [] t = "wchart" -> "wchart"
ShapeOf(t) == CASE t \in {"vstring", "vint", "vbool", "vtag", "vwstring", "two", "upto3", "upto3z", "vwnarrow", "vwint", "vlevel", "vown"} -> "list"
                [] t \in {"ostring", "stdostring", "oint", "stdoint", "owint", "stdowstring", "otag", "oown"} -> "optional"
                [] OTHER -> "single"
(* options that are given their tokens as wide text *)
TakesWide(t) == t \in {"wlevel", "wstring", "vwstring", "stdowstring", "wnarrow", "vwnarrow", "wint", "vwint", "owint", "wbool", "wchart"}
(* only flags may have no token *)
EmptyAllowed(t) == ElemOf(t) = "bool"
(* Strings of a narrow option given wide input go through the local (ASCII,   *)
(* in the "C" locale) encoding; wide options given narrow input likewise.     *)
IsAscii(s) == \A i \in 1..Len(s) : Code(Ch(s, i)) < 128
(* With a UTF-8 locale in force (loc = "utf8") every text that is UTF-8 in the *)
(* strict sense has a form on both sides.                                      *)
Local(loc, s) == IF loc = "utf8" THEN StrictUtf8(Bytes(s)) ELSE IsAscii(s)
Encodable(m, toks, utf8, loc) ==
  IF ~Untyped(m) /\ TakesWide(m.o.t)
  THEN utf8 \/ \A i \in 1..Len(toks) : Local(loc, toks[i])
  ELSE ~utf8 \/ \A i \in 1..Len(toks) : Local(loc, toks[i])

TypeTag(t) == CASE t \in {"switch", "wbool"} -> "bool" [] t \in {"two", "upto3", "upto3z", "vwnarrow"} -> "vstring"
                [] t = "wnarrow" -> "string" [] t = "wint" -> "int" [] t = "vwint" -> "vint" [] t = "owint" -> "oint"
                [] t = "wlevel" -> "level" [] t = "oown" -> "stdoown"
                [] OTHER -> t
(* One token as a value of the type: wide text becomes a narrow string in the  *)
(* local encoding only, also in messages.                                      *)
Piece(t, s, loc) ==
  LET r == Elem(ElemOf(t), s) IN
  IF ~TakesWide(t) \/ Local(loc, s) THEN r
  ELSE IF t \in {"wnarrow", "vwnarrow"}
       THEN [ok |-> FALSE, err |-> ErrMsg("logic", "character conversion failed"), s |-> ""]
  ELSE IF r.ok THEN r ELSE [r EXCEPT !.err.val = "<unrepresentable unicode string>"]
Single(m, toks, loc) ==
  IF Len(toks) > 1 THEN VErr(Err("validation", "multiple_values_not_allowed"), NoVal)
  ELSE IF toks = <<>> /\ ~EmptyAllowed(m.o.t)
       THEN VErr(Err("validation", "at_least_one_value_required"), NoVal)
  ELSE LET r == Piece(m.o.t, IF toks = <<>> THEN "" ELSE toks[1], loc) IN
       IF r.ok THEN VOk(Val(TypeTag(m.o.t), <<r.s>>)) ELSE VErr(r.err, NoVal)

RECURSIVE ListRec(_, _, _, _, _)
ListRec(m, toks, i, acc, loc) ==
  IF i > Len(toks) THEN VOk(Val(TypeTag(m.o.t), acc))
  ELSE LET r == Piece(m.o.t, toks[i], loc) IN
       IF r.ok THEN ListRec(m, toks, i + 1, Append(acc, r.s), loc)
       \* a failed conversion of an element is an invalid value
       ELSE VErr(IF r.err = BadLex THEN ValErr("optvalue", "invalid_option_value", toks[i]) ELSE r.err, Val(TypeTag(m.o.t), acc))

(* The value after an occurrence with these tokens, from the value before.    *)
Parse(m, before, toks, utf8, loc) ==
  IF ~Encodable(m, toks, utf8, loc) THEN VErr(ErrMsg("logic", "character conversion failed"), before)
  ELSE IF Untyped(m) THEN
       IF before # NoVal THEN VErr(Err("multioccur", ""), before)
       ELSE IF Len(toks) > 1 THEN VErr(Err("multivalues", ""), before)
       ELSE VOk(Val("string", <<IF toks = <<>> THEN "" ELSE toks[1]>>))
  ELSE IF toks = <<>> /\ m.o.hasimp THEN VOk(Val(TypeTag(m.o.t), m.o.imp))
  ELSE IF ShapeOf(m.o.t) = "list" THEN
       LET r == ListRec(m, toks, 1, before.v, loc) IN r
  ELSE IF before # NoVal THEN VErr(Err("multioccur", ""), before)
  ELSE LET r == Single(m, toks, loc) IN IF r.err = NoErr THEN r ELSE VErr(r.err, before)
=============================================================================
