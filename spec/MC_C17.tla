-------------------------------- MODULE MC_C17 -------------------------------
(* Conversion: every text of a few characters, and the boundaries, to every    *)
(* type; several tokens to the types that take them.                           *)
EXTENDS MCBase
Types == <<"own", "level", "vown", "otag", "oown", "int", "bool", "string", "char", "tag", "vint", "oint", "stdoint", "switch", "untyped1", "ostring", "vbool">>
Descs == << [i \in 1..Len(Types) |-> Decl("o" \o Types[i], "v" \o Types[i], Types[i])] >>
Multis == <<"vown", "vlevel", "own", "otag", "vint", "vstring", "vbool", "vtag", "string", "int", "bool", "char">>
Descs2 == << [i \in 1..Len(Multis) |-> Multi(Decl("o" \o Multis[i], "v" \o Multis[i], Multis[i]))] >>
WTypes == <<"wlevel", "wint", "wbool", "wnarrow", "vwint", "vwnarrow", "wchart", "owint", "stdowstring", "wstring", "vwstring", "int", "string", "bool", "char">>
Descs3 == << [i \in 1..Len(WTypes) |-> Multi(Decl("o" \o WTypes[i], "v" \o WTypes[i], WTypes[i]))] >>
Texts == Strs(<<"0", "1", "-", "+", "t", "@", " ", "9">>, 2 + Deep) \o
   <<"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967296", "+2147483647", "00000000000000000001", "99999999999999999999",
     "9999999999", "true", "TRUE", "tRuE", "false", "FALSE", "on", "ON", "off", "oFF", "yes", "no", "No", "y", "n", "truee", "tru", "2", "o", "1e3", "0x10",
     "1.0", "1,0", "--1", "1-", "\t1", "1\t", "@a b", "a@", "%", "''", "  ", "nO ", "of", "10", "01", "+0", "-0">>
Pairs == <<"", "1", "0", "@x", "on", "x", "-7">>
U1 == Chr(195) \o Chr(169)                     \* U+E9
U2 == Chr(228) \o Chr(184) \o Chr(173)         \* U+4E2D
WTexts == Texts \o <<U1, U2, "1" \o U1, U1 \o "@", "on" \o U2, "a" \o U1>>
(* parse results of the program: no value, one, two, for every type *)
AllTypes == <<"int", "bool", "string", "char", "tag", "vint", "oint", "stdoint", "switch", "untyped0", "untyped1", "ostring", "vbool", "stdostring", "two", "upto3",
              "wint", "wbool", "wnarrow", "vwint", "vwnarrow", "wchart", "owint", "stdowstring", "wstring", "vwstring", "own", "vown", "oown", "otag", "level", "vlevel", "wlevel">>
Descs5 == << [i \in 1..Len(AllTypes) |-> Decl("o" \o AllTypes[i], "v" \o AllTypes[i], AllTypes[i])] >>
Size(h) == CASE Len(h) = 0 -> 5 [] Len(h) = 1 -> (CASE h[1] = 1 -> Len(Texts) [] h[1] = 3 -> Len(WTexts) [] h[1] = 5 -> 1 [] OTHER -> Len(Pairs))
             [] Len(h) \in {2, 3} /\ h[1] \in {2, 4} -> Len(Pairs) 
             [] h[1] = 5 /\ Len(h) \in 2..4 -> Len(Pairs) + 1 [] OTHER -> 0
TagOf(t) == CASE t \in {"untyped0", "untyped1"} -> "string" [] OTHER -> TypeTag(t)
One(t, i, args) == <<CmdOp(1, <<>>, args), VmOp(0), StoreOp(i, i), AsOp(i, "v" \o t, TagOf(t)), AsOp(i, "v" \o t, "string")>>
Build(h) ==
  IF h[1] = 1 THEN
     LET text == Texts[h[2]] IN
     Plain(<<DescOp(Descs[1])>> \o Concat([i \in 1..Len(Types) |->
        One(Types[i], i, IF Types[i] = "switch" THEN <<"--vswitch">> ELSE IF text = "" THEN <<"--v" \o Types[i], text>> ELSE <<"--v" \o Types[i] \o "=" \o text>>)])
        \o <<CfgOp(1, "vint=" \o text \o "\n", FALSE), VmOp(0), StoreOp(Len(Types) + 1, Len(Types) + 1)>>)
  ELSE IF h[1] = 3 THEN
     LET text == WTexts[h[2]]
         W(i) == One(WTypes[i], i, IF text = "" THEN <<"--v" \o WTypes[i], text>> ELSE <<"--v" \o WTypes[i] \o "=" \o text>>)
         Wide(ops, w) == [ops EXCEPT ![1] = [@ EXCEPT !.wide = w]]
     IN Worded(<<DescOp(Descs3[1])>> \o Concat([i \in 1..Len(WTypes) |-> Wide(W(i), TRUE)])
               \o (IF IsAscii(text) THEN <<CmdOp(1, <<>>, <<"--vwint=" \o text>>), VmOp(0), StoreOp(Len(WTypes) + 1, Len(WTypes) + 1),
                                           CmdOp(1, <<>>, <<"--vwbool", text>>), VmOp(0), StoreOp(Len(WTypes) + 2, Len(WTypes) + 2)>>
                   ELSE <<>>))
  ELSE IF h[1] = 4 THEN
     LET ts == <<Pairs[h[2]], Pairs[h[3]]>> \o (IF h[4] = 1 THEN <<U1>> ELSE <<Pairs[h[4]]>>)
         Wide(ops, w) == [ops EXCEPT ![1] = [@ EXCEPT !.wide = w]]
     IN Worded(<<DescOp(Descs3[1])>> \o Concat([i \in 1..Len(WTypes) |-> Wide(One(WTypes[i], i, <<"--v" \o WTypes[i]>> \o ts), TRUE)]))
  ELSE IF h[1] = 5 THEN
     LET Vals(i) == IF h[i] > Len(Pairs) THEN <<>> ELSE <<Pairs[h[i]]>>
         vs == Vals(3) \o Vals(4) IN
     Worded(<<DescOp(Descs5[h[2]])>> \o Concat([i \in 1..Len(AllTypes) |->
        LET t == AllTypes[i] IN
        <<MakeOp(1, "long", <<Made1("v" \o t, vs)>>
             \o (IF Len(h) = 5 THEN <<Made1("v" \o t, Vals(5))>> ELSE <<>>)), VmOp(0), StoreOp(i, i), AsOp(i, "v" \o t, TagOf(t))>>]))
  ELSE LET ts == <<Pairs[h[2]], Pairs[h[3]]>> \o (IF h[4] = 1 THEN <<>> ELSE <<Pairs[h[4]]>>) IN
     Plain(<<DescOp(Descs2[1])>> \o Concat([i \in 1..Len(Multis) |-> One(Multis[i], i, <<"--v" \o Multis[i]>> \o ts)]))
Next == MCNextOf(Size, Build)
=============================================================================
