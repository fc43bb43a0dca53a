-------------------------------- MODULE Base --------------------------------
(* Values shared by all modules.                                            *)
(*                                                                          *)
(* Options are sequences of length 0 or 1.  Unbounded text stays a string.  *)
(* TLC integers are 32 bit, so 64-bit numbers are triples of base-10^9      *)
(* limbs <<hi, mid, lo>>.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == <<>>
Some(x) == <<x>>
IsSome(o) == Len(o) = 1
Get(o) == o[1]

(* ------------------------------ numbers -------------------------------- *)
Base9 == 1000000000
AddL(a, b) ==
  LET lo == a[3] + b[3]
      c0 == lo \div Base9
      mi == a[2] + b[2] + c0
      c1 == mi \div Base9
  IN <<a[1] + b[1] + c1, mi % Base9, lo % Base9>>
LessL(a, b) == \/ a[1] < b[1]
               \/ a[1] = b[1] /\ a[2] < b[2]
               \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
LeqL(a, b) == a = b \/ LessL(a, b)
U64Max == <<18, 446744073, 709551615>>
OneL == <<0, 0, 1>>
\* block time (ns) plus a number of seconds; None if it exceeds 64 bits
PlusSeconds(now, secs) ==
  IF secs[1] > 0 THEN None
  ELSE LET t == AddL(now, <<secs[2], secs[3], 0>>)
       IN IF LeqL(t, U64Max) THEN Some(t) ELSE None
Pad9(n) ==
  LET s == ToString(n)
  IN SubSeq("000000000", 1, 9 - Len(s)) \o s
DecL(a) == IF a[1] > 0 THEN ToString(a[1]) \o Pad9(a[2]) \o Pad9(a[3])
           ELSE IF a[2] > 0 THEN ToString(a[2]) \o Pad9(a[3])
           ELSE ToString(a[3])

(* ------------------------------- text ---------------------------------- *)
CharAt(s, i) == SubSeq(s, i, i)
Digits == {"0","1","2","3","4","5","6","7","8","9"}
Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
\* the letters beyond ASCII that the histories use, by the bytes they take
Letters2 == {"é", "ß", "Ж"}
Letters3 == {"中"}
Others3 == {"✓"}
Alphanumeric(s) == \A i \in 1..Len(s) : CharAt(s, i) \in Digits \cup Letters \cup Letters2 \cup Letters3
CountIn(s, cs) == Cardinality({i \in 1..Len(s) : CharAt(s, i) \in cs})
ByteLen(s) == Len(s) + CountIn(s, Letters2) + 2 * CountIn(s, Letters3 \cup Others3)
AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : CharAt(s, i) \in Digits
DigitVal(c) == CHOOSE n \in 0..9 : ToString(n) = c
\* small decimal numerals
RECURSIVE NatOf(_)
NatOf(s) == IF Len(s) = 0 THEN 0
            ELSE 10 * NatOf(SubSeq(s, 1, Len(s) - 1)) + DigitVal(CharAt(s, Len(s)))
\* a <= b for numerals of equal length
RECURSIVE NumLeq(_, _)
NumLeq(a, b) ==
  IF Len(a) = 0 THEN TRUE
  ELSE LET x == DigitVal(CharAt(a, 1)) y == DigitVal(CharAt(b, 1))
       IN \/ x < y
          \/ x = y /\ NumLeq(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
U128Max == "340282366920938463463374607431768211455"
\* a token amount: decimal numeral below 2^128
IsAmount(s) == AllDigits(s) /\ (Len(s) < 39 \/ (Len(s) = 39 /\ NumLeq(s, U128Max)))
\* position of the (only) "." or 0
Dot(s) == LET D == {i \in 1..Len(s) : CharAt(s, i) = "."} IN
          IF Cardinality(D) = 1 THEN CHOOSE i \in D : TRUE ELSE IF D = {} THEN 0 ELSE -1
\* a fixed point number with at most 18 decimals
IsDecimal(s) ==
  LET d == Dot(s) IN
  CASE d = 0  -> AllDigits(s) /\ Len(s) <= 20
    [] d = -1 -> FALSE
    [] OTHER  -> /\ AllDigits(SubSeq(s, 1, d - 1)) /\ d <= 21
                 /\ AllDigits(SubSeq(s, d + 1, Len(s))) /\ Len(s) - d <= 18

Map(f(_), q) == [i \in 1..Len(q) |-> f(q[i])]
Filter(q, T(_)) == SelectSeq(q, T)
Range(q) == {q[i] : i \in 1..Len(q)}
=============================================================================
