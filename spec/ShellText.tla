------------------------------ MODULE ShellText ------------------------------
(***************************************************************************)
(* Characters, text, numbers and source positions.                         *)
(*                                                                         *)
(* A character is a TLA+ string of length one, or, outside printable ASCII *)
(* (plus tab and newline), a symbol "<U+HEX>".  Text is a TLA+ string      *)
(* built by concatenation.  TLC integers have 32 bits, so numbers that can *)
(* exceed them are handled as sequences of decimal digits.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

(* Non-ASCII symbols the specification knows, with UTF-8 length and class  *)
(* ("a" alphabetic, "w" whitespace, "o" other).                            *)
UniTable == [ x \in {"<U+D>","<U+B>","<U+C>","<U+0>","<U+7F>","<U+85>","<U+A0>",
                     "<U+E9>","<U+301>","<U+660>","<U+200B>","<U+2028>","<U+3000>",
                     "<U+4E2D>","<U+FF11>","<U+1F600>","<U+10400>","<U+FEFF>", "<U+1>", "<U+AA>",
                     "<U+1D7D8>", "<U+2160>", "<U+2003>", "<U+20AC>"} |->
  CASE x \in {"<U+D>","<U+B>","<U+C>"}        -> [n |-> 1, c |-> "w"]
    [] x \in {"<U+0>","<U+7F>","<U+1>"}       -> [n |-> 1, c |-> "o"]
    [] x \in {"<U+85>","<U+A0>"}              -> [n |-> 2, c |-> "w"]
    [] x \in {"<U+E9>","<U+AA>"}              -> [n |-> 2, c |-> "a"]
    [] x \in {"<U+301>","<U+660>"}            -> [n |-> 2, c |-> "o"]
    [] x \in {"<U+2028>","<U+3000>","<U+2003>"} -> [n |-> 3, c |-> "w"]
    [] x \in {"<U+200B>","<U+20AC>","<U+FF11>","<U+FEFF>"} -> [n |-> 3, c |-> "o"]
    [] x \in {"<U+4E2D>","<U+2160>"}          -> [n |-> 3, c |-> "a"]
    [] x \in {"<U+1F600>","<U+1D7D8>"}        -> [n |-> 4, c |-> "o"]
    [] x = "<U+10400>"                        -> [n |-> 4, c |-> "a"] ]

DigitChars == {"0","1","2","3","4","5","6","7","8","9"}
Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s",
            "t","u","v","w","x","y","z","A","B","C","D","E","F","G","H","I","J","K","L",
            "M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}

IsSym(c)       == Len(c) > 1
CharBytes(c)   == IF IsSym(c) THEN UniTable[c].n ELSE 1
IsWsChar(c)    == IF IsSym(c) THEN UniTable[c].c = "w" ELSE c \in {" ", "\t", "\n"}
IsNameStart(c) == IF IsSym(c) THEN UniTable[c].c = "a" ELSE c = "_" \/ c \in Letters
IsNameChar(c)  == c \in DigitChars \/ IsNameStart(c)

(* The characters of a text that contains no symbols.                      *)
Chars(s) == [ i \in 1..Len(s) |-> SubSeq(s, i, i) ]

RECURSIVE CatFrom(_, _, _)
CatFrom(cs, i, j) == IF i > j THEN "" ELSE cs[i] \o CatFrom(cs, i + 1, j)
Cat(cs) == CatFrom(cs, 1, Len(cs))

RECURSIVE BytesFrom(_, _, _)
BytesFrom(cs, i, j) == IF i > j THEN 0 ELSE CharBytes(cs[i]) + BytesFrom(cs, i + 1, j)

(***************************************************************************)
(* Source positions <<byte, line, column>>; offsets start at 0, lines and  *)
(* columns at 1; a column counts bytes since the last newline token.       *)
(***************************************************************************)
Pos0 == <<0, 1, 1>>

(***************************************************************************)
(* Decimal arithmetic on digit sequences (most significant first, no       *)
(* leading zeros, <<>> is zero) and text of numbers.                       *)
(***************************************************************************)
DigitVal == [ c \in DigitChars \cup {"a","b","c","d","e","f","A","B","C","D","E","F"} |->
  CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
    [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
    [] c \in {"a","A"} -> 10 [] c \in {"b","B"} -> 11 [] c \in {"c","C"} -> 12
    [] c \in {"d","D"} -> 13 [] c \in {"e","E"} -> 14 [] c \in {"f","F"} -> 15 ]
DigitStr == <<"0","1","2","3","4","5","6","7","8","9">>

RECURSIVE MulAdd(_, _, _)
MulAdd(ds, base, carry) ==      \* ds * base + carry
  IF ds = <<>> THEN IF carry = 0 THEN <<>>
                    ELSE Append(MulAdd(<<>>, base, carry \div 10), carry % 10)
  ELSE LET v == ds[Len(ds)] * base + carry
       IN Append(MulAdd(SubSeq(ds, 1, Len(ds) - 1), base, v \div 10), v % 10)

RECURSIVE ToDecFrom(_, _, _, _)
ToDecFrom(s, i, base, acc) ==
  IF i > Len(s) THEN acc
  ELSE ToDecFrom(s, i + 1, base,
         LET r == MulAdd(acc, base, DigitVal[SubSeq(s, i, i)])
         IN IF r # <<>> /\ r[1] = 0 THEN <<>> ELSE r)

RECURSIVE DecStrFrom(_, _)
DecStrFrom(ds, i) == IF i > Len(ds) THEN "" ELSE DigitStr[ds[i] + 1] \o DecStrFrom(ds, i + 1)
DecStr(ds) == IF ds = <<>> THEN "0" ELSE DecStrFrom(ds, 1)

RECURSIVE DecLeqFrom(_, _, _)
DecLeqFrom(a, b, i) == \/ i > Len(a)
                       \/ a[i] < b[i]
                       \/ a[i] = b[i] /\ DecLeqFrom(a, b, i + 1)
DecLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ DecLeqFrom(a, b, 1))

MaxU16 == <<6,5,5,3,5>>
MaxU32 == <<4,2,9,4,9,6,7,2,9,5>>
MaxI64 == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>

AllIn(s, set) == \A i \in 1..Len(s) : SubSeq(s, i, i) \in set
OctDigits == {"0","1","2","3","4","5","6","7"}
HexDigits == DOMAIN DigitVal
AllDigits(s) == AllIn(s, DigitChars)

(* Number s in the base, at most max: <<decimal text>>, otherwise <<>>.    *)
ParseNum(s, digits, base, max) ==
  IF Len(s) = 0 \/ ~AllIn(s, digits) THEN <<>>
  ELSE LET v == ToDecFrom(s, 1, base, <<>>)
       IN IF DecLeq(v, max) THEN <<DecStr(v)>> ELSE <<>>

From(s, i) == SubSeq(s, i, Len(s))
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

(* The characters of a token's text, symbols included.                     *)
RECURSIVE Explode(_, _)
Explode(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF i + 3 <= Len(s) /\ SubSeq(s, i, i + 2) = "<U+"
       THEN LET j == CHOOSE j \in i..Len(s) : SubSeq(s, j, j) = ">" /\ \A m \in i..(j-1) : SubSeq(s, m, m) # ">"
            IN <<SubSeq(s, i, j)>> \o Explode(s, j + 1)
       ELSE <<SubSeq(s, i, i)>> \o Explode(s, i + 1)

Bytes(s) == LET cs == Explode(s, 1) IN BytesFrom(cs, 1, Len(cs))

RECURSIVE CountNl(_, _)
CountNl(s, i) == IF i > Len(s) THEN 0
                 ELSE (IF SubSeq(s, i, i) = "\n" THEN 1 ELSE 0) + CountNl(s, i + 1)

(* Index of the last newline at or before i, or 0.                         *)
RECURSIVE LastNl(_, _)
LastNl(s, i) == IF i = 0 \/ SubSeq(s, i, i) = "\n" THEN i ELSE LastNl(s, i - 1)

RECURSIVE LeadTabs(_, _)
LeadTabs(s, i) == IF i <= Len(s) /\ SubSeq(s, i, i) = "\t" THEN 1 + LeadTabs(s, i + 1) ELSE 0
=============================================================================
