------------------------------- MODULE Display -------------------------------
(***************************************************************************)
(* Displayed forms of errors, tokens and parameters.  The wording is free; *)
(* what has to be in it, and what has to read back, is not.                *)
(***************************************************************************)
EXTENDS ShellParser

NumText(n) == ToString(n)
(* Text x occurs in s (number: not as part of a longer number).            *)
HasAt(s, x, i) == SubSeq(s, i, i + Len(x) - 1) = x
Has(s, x) == \E i \in 1..(Len(s) - Len(x) + 1) : HasAt(s, x, i)
IsDigitAt(s, i) == i >= 1 /\ i <= Len(s) /\ SubSeq(s, i, i) \in DigitChars
HasNum(s, x) == \E i \in 1..(Len(s) - Len(x) + 1) :
                  HasAt(s, x, i) /\ ~IsDigitAt(s, i - 1) /\ ~IsDigitAt(s, i + Len(x))
HasPos(s, p) == HasNum(s, NumText(p[2]) \o ":" \o NumText(p[3]))

ErrShown(e, d) ==
  CASE e[1] = "BadFd"      -> HasPos(d, e[2]) /\ HasPos(d, e[3])
    [] e[1] = "BadIdent"   -> Has(d, e[2]) /\ HasPos(d, e[3])
    [] e[1] = "BadSubst"   -> Has(d, e[2][2]) /\ HasPos(d, e[3])
    [] e[1] = "Unmatched"  -> Has(d, e[2][2]) /\ HasPos(d, e[3])
    [] e[1] = "Unexpected" -> Has(d, IF e[2][1] = "Newline" THEN "\\n" ELSE e[2][2]) /\ HasPos(d, e[3])
                              /\ (e[2][1] = "Newline" => ~Has(d, "\n"))
    [] e[1] = "Incomplete" -> /\ Has(d, e[2]) /\ HasPos(d, e[3])
                              /\ Has(d, e[4]) /\ HasPos(d, e[5])
    [] e[1] = "EOF"        -> Len(d) > 0
    [] e[1] = "Custom"     -> d = "custom error " \o NumText(e[2])
(* Only a custom error has a cause: the builder's error.                   *)
CauseShown(e, c) == c = IF e[1] = "Custom" THEN "custom error " \o NumText(e[2]) ELSE ""

(* Text d denotes parameter p and nothing else.                            *)
ReadsAs(d, p) ==
  LET r == ParameterRaw(Start(Lex(d), 0))
  IN r.ok /\ r.v = <<"param", p>> /\ ~Have(r.st)

(* What a token says of itself: displayed text, text, bytes, emptiness,    *)
(* whether it delimits words.                                              *)
TokFacts(t) == <<t[2], t[2], t[2], Bytes(t[2]), t[2] = "", t[1] \in WordDelims>>
NumFacts(i) == <<i, IF i <= 9 THEN << <<i, i, "$" \o NumText(i)>> >> ELSE <<>> >>

RECURSIVE Advance(_, _, _)
Advance(p, ts, i) ==
  IF i > Len(ts) THEN <<>>
  ELSE LET q == AfterTok(p, ts[i][1], ts[i][2], Bytes(ts[i][2])) IN <<q>> \o Advance(q, ts, i + 1)
=============================================================================
