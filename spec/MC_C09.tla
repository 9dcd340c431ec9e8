-------------------------------- MODULE MC_C09 -------------------------------
(* Admission to config files: every two (thorough: three) declarations, every  *)
(* assignment.                                                                 *)
EXTENDS MCBase
Decls == <<"a", "ab", "a*", "ab*", "*", "b*", "a.b", "a.*", ",a", "ab,b", "b,ab,a", "abc*", "A", "a.b*", "sub.b*", "b.*", "a!*", "a b*">>
Names == <<"a", "ab", "abc", "b", "ba", "a.b", "a.bc", "a.", "A", "*", "a*", "c", "sub.b", "b.c", "a!x", "a bc">>
Junk == <<"", "\na", "\n[x", "\n]", "\n=", "\nzz=1">>
Size(h) == CASE Len(h) \in {0, 1} -> Len(Decls) [] Len(h) = 2 -> Len(Names)
             [] Len(h) = 3 /\ Deep = 1 -> Len(Decls) [] OTHER -> 0
Build(h) ==
  LET ds == <<Decls[h[1]], Decls[h[2]]>> \o (IF Deep = 1 THEN <<Decls[h[4]]>> ELSE <<>>)
      os == TLCEval([i \in 1..Len(ds) |-> Decl("o" \o <<"1", "2", "3">>[i], ds[i], "string")])
      t == Names[h[3]] \o "=1"
      dot == Find(t, ".", 1)
      viaSection == IF dot > 1 /\ Ch(t, dot + 1) # "=" THEN <<CfgOp(1, "[" \o Upto(t, dot - 1) \o "]\n" \o From(t, dot + 1), FALSE)>> ELSE <<>>
  IN Worded(<<DescOp(os)>> \o viaSection \o
           <<CfgOp(1, t, FALSE), CfgOp(1, t, TRUE), CfgOp(1, t \o Junk[1 + ((h[1] + h[2] + h[3]) % Len(Junk))], FALSE),
             [CfgOp(1, t, FALSE) EXCEPT !.file = <<"missing", "dir", "ok">>[1 + (h[3] % 3)]]>>)
Next == MCNextOf(Size, Build)
=============================================================================
