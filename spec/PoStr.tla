------------------------------- MODULE PoStr -------------------------------
(* Byte strings.  A C++ std::string is a TLA+ string whose characters are    *)
(* the code points 1..255 (bytes as Latin-1); TLC evaluates Len, \o and      *)
(* SubSeq on strings natively.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

M == 1000000            \* stands for UINT_MAX / INT_MAX (unbounded, "forever")

Range(s) == {s[i] : i \in 1..Len(s)}
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

Ch(s, i) == SubSeq(s, i, i)
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
Upto(s, n) == IF n <= 0 THEN "" ELSE SubSeq(s, 1, Min2(n, Len(s)))
Prefix(p, s) == Len(p) <= Len(s) /\ Upto(s, Len(p)) = p
LastCh(s) == IF s = "" THEN "" ELSE Ch(s, Len(s))

(* position of the first character equal to c at or after i; 0 if none *)
Find(s, c, i) ==
  LET S == {j \in i..Len(s) : Ch(s, j) = c} IN IF S = {} THEN 0 ELSE MinOf(S)
Has(s, c) == Find(s, c, 1) # 0

(* position of the first occurrence of the string p at or after i; 0 if none *)
FindStr(s, p, i) ==
  LET S == {j \in i..(Len(s) - Len(p) + 1) : SubSeq(s, j, j + Len(p) - 1) = p}
  IN IF S = {} THEN 0 ELSE MinOf(S)

(* character codes: ByteChars[i+1] is the character of byte i *)
ByteChars == JsonDeserialize("chars.json")
CodeOf == [c \in {ByteChars[i] : i \in 2..256} |->
             CHOOSE i \in 1..255 : ByteChars[i + 1] = c]
Code(c) == CodeOf[c]
Chr(n) == ByteChars[n + 1]

Bytes(s) == TLCEval([i \in 1..Len(s) |-> Code(Ch(s, i))])

IsUpper(c) == Code(c) >= 65 /\ Code(c) <= 90
IsDigit(c) == Code(c) >= 48 /\ Code(c) <= 57
LowerOf == [c \in DOMAIN CodeOf |-> IF CodeOf[c] >= 65 /\ CodeOf[c] <= 90
                                    THEN ByteChars[CodeOf[c] + 33] ELSE c]
RECURSIVE LowerRec(_, _)
LowerRec(s, i) == IF i > Len(s) THEN "" ELSE LowerOf[Ch(s, i)] \o LowerRec(s, i + 1)
Lower(s) == LowerRec(s, 1)

(* std::string::operator< : bytewise, unsigned *)
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF Ch(a, i) = Ch(b, i) THEN LessFrom(a, b, i + 1)
  ELSE Code(Ch(a, i)) < Code(Ch(b, i))
StrLess(a, b) == LessFrom(a, b, 1)
StrMin(S) == CHOOSE x \in S : \A y \in S : x = y \/ StrLess(x, y)

RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>>
                ELSE LET m == StrMin(S) IN <<m>> \o SortedSeq(S \ {m})

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE
                 IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)

SelSeq(s, P(_)) == SelectSeq(s, P)
(* sequences are built eagerly (TLCEval): they become part of states *)
MapSeq(s, F(_)) == TLCEval([i \in 1..Len(s) |-> F(s[i])])
(* indices i in 1..n (ascending) that satisfy P *)
IdxFrom(i, n, P(_)) == SelectSeq([j \in 1..(n - i + 1) |-> j + i - 1], P)

(* split at every separator character; "" has one empty piece *)
Split(s, c) ==
  LET ps == <<0>> \o SelectSeq([j \in 1..Len(s) |-> j], LAMBDA j : Ch(s, j) = c) \o <<Len(s) + 1>>
  IN TLCEval([i \in 1..(Len(ps) - 1) |-> IF ps[i] + 1 > ps[i + 1] - 1 THEN "" ELSE SubSeq(s, ps[i] + 1, ps[i + 1] - 1)])
(* std::getline until eof: like Split, but a final empty piece is dropped *)
GetLines(s, c) ==
  LET p == Split(s, c) IN IF p[Len(p)] = "" THEN SubSeq(p, 1, Len(p) - 1) ELSE p

TrimSet == {" ", "\t", "\r", "\n"}
Trim(s) ==
  LET S == {i \in 1..Len(s) : Ch(s, i) \notin TrimSet}
  IN IF S = {} THEN "" ELSE SubSeq(s, MinOf(S), MaxOf(S))

RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN "" ELSE IF n >= 10 THEN "          " \o Spaces(n - 10) ELSE " " \o Spaces(n - 1)
=============================================================================
