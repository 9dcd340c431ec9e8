-------------------------------- MODULE MC_C01 -------------------------------
(* Name resolution: every pair (thorough: triple) of declarations, every input *)
(* name up to three letters, every way to match.                               *)
EXTENDS MCBase
Decls == <<"a", "ab", "aB", "Ab", "a*", "ab*", "*", ",a", ",A", "a,b", "b,a", "ab,ba,b", "abb", "A,a", "b*,a", "*,a", "-ab,b", "ab,,b">>
Letters3 == Strs(<<"a", "b", "A">>, 3)
Names == Letters3 \o <<"B", "aB", "-a", "-A", "-b", "*", "a*", "b*">>
Few == <<2, 3, 5, 8, 9, 10, 12>>      \* the third declaration (thorough)
NOpts == 2 + Deep
Size(h) == CASE Len(h) = 0 -> Len(Names) [] Len(h) \in {1, 2} -> Len(Decls)
             [] Len(h) = 3 /\ Deep = 1 -> Len(Few) [] OTHER -> 0
Build(h) ==
  LET name == Names[h[1]]
      ds == <<Decls[h[2]], Decls[h[3]]>> \o (IF Deep = 1 THEN <<Decls[Few[h[4]]]>> ELSE <<>>)
      os == TLCEval([i \in 1..NOpts |-> Decl("o" \o <<"1", "2", "3">>[i], ds[i], "untyped0")])
      F(ap, li, si) == FindOp(1, name, ap, li, si, TRUE)
      tok == "--" \o name
      \* the name as the key of a parse result: resolved once more, in full only
      Stored == <<MakeOp(1, "long", <<Made1(name, <<"v">>)>>), VmOp(0), StoreOp(1, 1)>>
  IN Worded(<<DescOp(os), F(FALSE, FALSE, FALSE), F(TRUE, FALSE, FALSE), F(FALSE, TRUE, FALSE), F(TRUE, TRUE, FALSE),
             F(FALSE, FALSE, TRUE), F(TRUE, TRUE, TRUE), FindOp(1, name, TRUE, FALSE, FALSE, FALSE), MatchOp(1, name, FALSE, FALSE, FALSE), MatchOp(1, name, TRUE, TRUE, TRUE)>>
           \o Stored \o IF name = "" \/ Deep = 1 THEN <<>> ELSE
              IF Ch(name, 1) = "-" THEN <<CmdOp(1, Unix, <<name>>), CmdOp(1, Unix \o <<"sci">>, <<name>>),
                                          CmdOp(1, Unix \o <<"disg">>, <<name>>)>>
              ELSE <<CmdOp(1, Unix, <<tok>>), CmdOp(1, NoGuess, <<tok>>), CmdOp(1, Unix \o <<"lci">>, <<tok>>)>>)
Next == MCNextOf(Size, Build)
=============================================================================
