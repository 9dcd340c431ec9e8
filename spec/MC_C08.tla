-------------------------------- MODULE MC_C08 -------------------------------
(* Config files: every text of a few characters, and of a few lines.           *)
EXTENDS MCBase
Descs == << <<Decl("a", "a", "string"), Decl("s", "s.a", "vstring"), Decl("w", "w*", "string")>> >>
Alpha == <<"a", "=", "#", "[", "]", " ", "\n", ".">>
LineTab == <<"a=1", "[s]", "a=x\\#y", "[s.]", " a = x y ", "a=b=c # d", "#a=1", "", "  ", "[ ]", "s.a=2", "a=", "w1=\t7\r", "[t]# x", "[a=b]", "[s]a=1", "unk=1", "=1", "a", "[s", "[]", "a=1 [s]">>
NL == IF Deep = 1 THEN 22 ELSE 17
LC == 4 + Deep
Size(h) == IF Len(h) = 0 THEN 2 ELSE IF h[1] = 1 THEN SizeHS(h, <<2>>, Len(Alpha), LC) ELSE SizeHS(h, <<2>>, NL, 3)
Text(h) == IF h[1] = 1 THEN Join(Picked(h, 1, Alpha), "") ELSE Join(Picked(h, 1, SubSeq(LineTab, 1, NL)), "\n")
Build(h) ==
  LET t == Text(h) c == CfgOp(1, t, TRUE) IN
  Plain(<<DescRef(Descs, 1), c, [c EXCEPT !.wide = TRUE]>> \o
        (IF h[1] = 1 THEN <<>> ELSE <<[c EXCEPT !.unreg = FALSE], CfgOp(1, t \o "\n", TRUE)>>)
        \o (IF h[1] = 2 /\ Len(h) <= 3 THEN <<[c EXCEPT !.file = "ok"], [c EXCEPT !.file = "ok", !.wide = TRUE]>> ELSE <<>>))
Next == MCNextOf(Size, Build)
ASSUME PrintT("D " \o ToJson(Descs))
=============================================================================
