-------------------------------- MODULE MC_C19 -------------------------------
(* Help: every short text made of words, blanks, line breaks and tabs, in      *)
(* narrow and wider columns; and every small arrangement of groups.            *)
EXTENDS MCBase
Pieces == <<"a", "bb", "cccc", " ", "  ", "\n", "\t", "dddddd">>
Widths == << <<11, 6>>, <<15, 8>>, <<22, 11>> >>
WithHelp(o, s) == [o EXCEPT !.help = s]
NameTab == <<"n", "name,n", ",s", "averyveryveryverylongname,v", "alt,ernative">>
TypeTab == <<"untyped0", "string", "switch">>
Size(h) == IF Len(h) = 0 THEN 3
           ELSE IF h[1] = 1 THEN SizeHS(h, <<3>>, Len(Pieces), 4 + Deep)
           ELSE IF h[1] = 2 THEN (CASE Len(h) \in {1, 2} -> Len(NameTab) [] Len(h) = 3 -> 3 [] Len(h) = 4 -> 3 [] Len(h) = 5 -> 7 [] OTHER -> 0)
           ELSE SizeHS(h, <<3, 2>>, 4, 6 + Deep)
D(cap, w, os) == [DescOp(os) EXCEPT !.cap = cap, !.ll = w[1], !.ml = w[2]]
O(nm, t, hp) == WithHelp(Decl("i" \o nm, nm, t), hp)
Build(h) ==
  IF h[1] = 1 THEN
    LET s == Join(Picked(h, 1, Pieces), "") IN
    Plain(<<D("", Widths[1], <<O("n", "untyped0", s)>>), D("C", Widths[2], <<O("n", "untyped0", s)>>), D("", Widths[3], <<O("nn,n", "string", s)>>),
            HelpOp(1), HelpOp(2), HelpOp(3), HelpAt(3, 8), HelpAt(3, 17), HelpAt(3, 18), HelpAt(3, 19), HelpAt(2, 3)>>)
  ELSE IF h[1] = 2 THEN
    LET w == << <<80, 40>>, <<40, 20>>, <<80, 60>> >>[h[4]]
        t == TypeTab[h[5]]
        a == <<O(NameTab[h[2]], t, "some words of help")>>
        b == <<O(NameTab[h[3]] \o "2", "string", "more help for the second one that goes on and on and on\n\nnew line")>>
        g1 == <<<<GrpOp(1, 2)>>, <<GrpOp(1, 2), GrpOp(2, 3)>>, <<GrpOp(2, 3), GrpOp(1, 2)>>, <<GrpOp(1, 3), AddOp(1, O("late", "string", "late one")), GrpOp(1, 2)>>,
                <<GrpOp(3, 2), GrpOp(1, 3)>>, <<GrpOp(2, 3), GrpOp(1, 2), GrpOp(1, 3)>>, <<GrpOp(3, 1), GrpOp(2, 3), GrpOp(2, 1)>>>>[h[6]]
    IN Plain(<<D("One", w, a), D("Two", w, b), D("", w, <<O("third", "untyped0", ""), O("x4", "vstring", "\tt")>>)>> \o g1 \o <<HelpOp(1), HelpOp(2), HelpOp(3), ListOp(1)>>)
  ELSE
    LET s == Join(Picked(h, 2, <<"a", " ", "\n", "\t">>), "") w == <<<<11, 6>>, <<13, 7>>>>[h[2]] IN
    Plain(<<D("", w, <<O("n", "untyped0", s)>>), HelpOp(1)>>)
Next == MCNextOf(Size, Build)
=============================================================================
