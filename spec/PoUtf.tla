-------------------------------- MODULE PoUtf ------------------------------
(* UTF-8 <-> wide conversion; bytes and code points are integers.            *)
EXTENDS Integers, Sequences

(* ---- what the conversion means ------------------------------------------- *)
Lead(b) == IF b < 128 THEN 0 ELSE IF b < 192 THEN -1 ELSE IF b < 224 THEN 1 ELSE IF b < 240 THEN 2
           ELSE IF b < 248 THEN 3 ELSE IF b < 252 THEN 4 ELSE IF b < 254 THEN 5 ELSE -1
ContOut(c) == IF c < 128 THEN 0 ELSE IF c < 2048 THEN 1 ELSE IF c < 65536 THEN 2
              ELSE IF c < 2097152 THEN 3 ELSE IF c < 67108864 THEN 4 ELSE 5
Modifier(n) == CASE n = 0 -> 0 [] n = 1 -> 192 [] n = 2 -> 224 [] n = 3 -> 240 [] n = 4 -> 248 [] n = 5 -> 252
Cont(b) == b >= 128 /\ b < 192
Pow64(n) == CASE n = 0 -> 1 [] n = 1 -> 64 [] n = 2 -> 4096 [] n = 3 -> 262144 [] n = 4 -> 16777216 [] n = 5 -> 1073741824

RECURSIVE DecCont(_, _, _, _)
DecCont(s, i, n, acc) == IF n = 0 THEN acc ELSE DecCont(s, i + 1, n - 1, acc * 64 + (s[i] - 128))
(* the character at i: [st: "ok"/"bad"/"short", c, n] (n bytes long)           *)
DecAt(s, i) ==
  LET n == Lead(s[i])
      have == Len(s) - i
      bad == \E j \in 1..n : j <= have /\ ~Cont(s[i + j])
  IN IF n < 0 THEN [st |-> "bad", c |-> 0, n |-> 0]
     ELSE IF bad THEN [st |-> "bad", c |-> 0, n |-> 0]
     ELSE IF have < n THEN [st |-> "short", c |-> 0, n |-> 0]
     ELSE [st |-> "ok", c |-> DecCont(s, i + 1, n, s[i] - Modifier(n)), n |-> n + 1]

(* what a local UTF-8 encoding admits: no surrogates, nothing beyond 10FFFF, no *)
(* character in a longer form than needed                                       *)
StrictPoint(c) == c < 55296 \/ (c > 57343 /\ c < 1114112)
RECURSIVE StrictFrom(_, _)
StrictFrom(s, i) ==
  i > Len(s) \/ LET d == DecAt(s, i) IN
                d.st = "ok" /\ StrictPoint(d.c) /\ d.n = ContOut(d.c) + 1 /\ StrictFrom(s, i + d.n)

RECURSIVE DecodeFrom(_, _, _)
DecodeFrom(s, i, acc) ==
  IF i > Len(s) THEN [ok |-> TRUE, out |-> acc]
  ELSE LET d == DecAt(s, i) IN
       IF d.st # "ok" THEN [ok |-> FALSE, out |-> <<>>] ELSE DecodeFrom(s, i + d.n, Append(acc, d.c))
Decode(s) == DecodeFrom(s, 1, <<>>)
StrictUtf8(s) == StrictFrom(s, 1)
(* the local conversion of the C library swallows an unfinished character at   *)
(* the end, unless it would have to start a piece with it (known finding F15)   *)
Unfinished(s) == \E i \in 1..Len(s) : DecAt(s, i).st = "short"

EncodeOne(c) == LET n == ContOut(c) IN
  [i \in 1..(n + 1) |-> IF i = 1 THEN Modifier(n) + (c \div Pow64(n))
                        ELSE 128 + ((c \div Pow64(n + 1 - i)) % 64)]
RECURSIVE Encode(_)
Encode(s) == IF s = <<>> THEN <<>> ELSE EncodeOne(Head(s)) \o Encode(Tail(s))

(* ---- other encodings: a facet of the caller, or the local one ------------------ *)
(* "latin1": one byte each; "local": the strict kind of UTF-8; "c": ASCII           *)
MeaningIn(enc, s) ==
  CASE enc = "utf8" -> Decode(s)
    [] enc = "latin1" -> [ok |-> TRUE, out |-> s]
    [] enc = "local" -> IF StrictUtf8(s) THEN Decode(s) ELSE [ok |-> FALSE, out |-> <<>>]
    [] enc = "c" -> IF \A i \in 1..Len(s) : s[i] < 128 THEN [ok |-> TRUE, out |-> s] ELSE [ok |-> FALSE, out |-> <<>>]
MeaningOut(enc, s) ==
  CASE enc = "utf8" -> [ok |-> TRUE, out |-> Encode(s)]
    [] enc = "latin1" -> IF \A i \in 1..Len(s) : s[i] < 256 THEN [ok |-> TRUE, out |-> s] ELSE [ok |-> FALSE, out |-> <<>>]
    [] enc = "local" -> IF \A i \in 1..Len(s) : StrictPoint(s[i]) THEN [ok |-> TRUE, out |-> Encode(s)] ELSE [ok |-> FALSE, out |-> <<>>]
    [] enc = "c" -> IF \A i \in 1..Len(s) : s[i] < 128 THEN [ok |-> TRUE, out |-> s] ELSE [ok |-> FALSE, out |-> <<>>]
Meant(enc, dir, s) == IF dir = "in" THEN MeaningIn(enc, s) ELSE MeaningOut(enc, s)

(* ---- how the library does it: pieces that fit a buffer of Buf units --------- *)
(* [pc, i: next input position, out]                                             *)
ConvInit == [pc |-> "piece", i |-> 1, out |-> <<>>]
(* the character at i: as DecAt *)
InAt(enc, s, i) ==
  LET d == DecAt(s, i) one == [st |-> "ok", c |-> s[i], n |-> 1] none == [st |-> "bad", c |-> 0, n |-> 0] IN
  CASE enc = "utf8" -> d
    [] enc = "latin1" -> one
    [] enc = "c" -> IF s[i] < 128 THEN one ELSE none
    [] enc = "local" -> IF s[i] \in {192, 193} THEN none ELSE IF d.st # "ok" THEN d ELSE IF StrictPoint(d.c) /\ d.n = ContOut(d.c) + 1 THEN d ELSE none
OutAt(enc, c) ==      \* <<>>: cannot be expressed
  CASE enc = "utf8" -> EncodeOne(c)
    [] enc = "latin1" -> IF c < 256 THEN <<c>> ELSE <<>>
    [] enc = "c" -> IF c < 128 THEN <<c>> ELSE <<>>
    [] enc = "local" -> IF StrictPoint(c) THEN EncodeOne(c) ELSE <<>>
RECURSIVE InPiece(_, _, _, _, _)
InPiece(enc, s, i, room, acc) ==      \* decode until the buffer is full or input ends
  IF i > Len(s) \/ room = 0 THEN [st |-> "ok", i |-> i, out |-> acc]
  ELSE LET d == InAt(enc, s, i) IN
       IF d.st = "bad" THEN [st |-> "bad", i |-> i, out |-> acc]
       ELSE IF d.st = "short" THEN [st |-> "ok", i |-> IF enc = "local" THEN Len(s) + 1 ELSE i, out |-> acc]   \* F15
       ELSE InPiece(enc, s, i + d.n, room - 1, Append(acc, d.c))
RECURSIVE OutPiece(_, _, _, _, _)
OutPiece(enc, s, i, room, acc) ==     \* a character that does not fit waits for the next piece
  IF i > Len(s) \/ room = 0 THEN [st |-> "ok", i |-> i, out |-> acc]
  ELSE LET e == OutAt(enc, s[i]) IN
       IF e = <<>> THEN [st |-> "bad", i |-> i, out |-> acc]
       ELSE IF Len(e) > room THEN [st |-> "ok", i |-> i, out |-> acc]
       ELSE OutPiece(enc, s, i + 1, room - Len(e), acc \o e)
ConvStep(enc, dir, Buf, s, c) ==
  LET p == IF dir = "in" THEN InPiece(enc, s, c.i, Buf, <<>>) ELSE OutPiece(enc, s, c.i, Buf, <<>>) IN
  IF c.i > Len(s) THEN [c EXCEPT !.pc = "done"]
  ELSE IF p.st = "bad" \/ p.out = <<>> THEN [c EXCEPT !.pc = "fail"]
  ELSE [c EXCEPT !.i = p.i, !.out = @ \o p.out]
=============================================================================
