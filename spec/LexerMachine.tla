---------------------------- MODULE LexerMachine -----------------------------
(***************************************************************************)
(* The lexer as a machine that reads its characters one at a time, with    *)
(* one character of lookahead and one pending token.  A machine state m is *)
(*   i   characters taken      rd  characters read from the source         *)
(*   pk  what was recognised but not yet yielded: <<>>, <<"tok", k, s>>,   *)
(*       <<"esc", tokens>> (a backslash and what follows it) or            *)
(*       <<"lit", c>> (a character of a word)                              *)
(***************************************************************************)
EXTENDS ShellLexer

LmStart == [i |-> 0, rd |-> 0, pk |-> <<>>]
Look(cs, m) == [m EXCEPT !.rd = IF m.i < Len(cs) /\ m.rd = m.i THEN m.i + 1 ELSE @]
Ahead(cs, m) == IF m.i < Len(cs) THEN cs[m.i + 1] ELSE ""
Take(m) == [m EXCEPT !.i = @ + 1, !.rd = IF m.rd > m.i THEN @ ELSE m.i + 1]

RECURSIVE TakeWs(_, _, _)
TakeWs(cs, m0, s) ==
  LET m == Look(cs, m0)
      c == Ahead(cs, m)
  IN IF c # "" /\ IsWsChar(c) /\ c # "\n" THEN TakeWs(cs, Take(m), s \o c) ELSE [m |-> m, s |-> s]

(* An operator that starts with the taken text s.                          *)
RECURSIVE TakeOp(_, _, _)
TakeOp(cs, m, s) ==
  LET more == \E x \in Ops : Len(x) > Len(s) /\ StartsWith(x, s) /\ SubSeq(s, 1, 1) \in OpStart
      m1 == IF more THEN Look(cs, m) ELSE m
      c == Ahead(cs, m1)
  IN IF more /\ c # "" /\ Len(c) = 1 /\ (s \o c) \in Ops THEN TakeOp(cs, Take(m1), s \o c)
     ELSE [m |-> m1, s |-> s]

(* A single character on its own, after a backslash.                       *)
Alone(c) == IF c \in Ops THEN <<"tok", OpKind[c], c>>
            ELSE IF IsWsChar(c) THEN <<"tok", "Whitespace", c>>
            ELSE IF IsNameStart(c) THEN <<"tok", "Name", c>> ELSE <<"tok", "Literal", c>>

(* [m, x]: the next recognised item (<<>> at the end).                     *)
LmItem(cs, m) ==
  IF m.pk # <<>> THEN [m |-> [m EXCEPT !.pk = <<>>], x |-> m.pk]
  ELSE IF m.i = Len(cs) THEN [m |-> m, x |-> <<>>]
  ELSE LET c == cs[m.i + 1]
           m1 == Take(m)
       IN IF c = "\\" THEN IF m1.i = Len(cs) THEN [m |-> m1, x |-> <<"esc", <<>> >>]
                           ELSE [m |-> Take(m1), x |-> <<"esc", Alone(cs[m1.i + 1])>>]
          ELSE IF c \in Ops THEN LET o == TakeOp(cs, m1, c) IN [m |-> o.m, x |-> <<"tok", OpKind[o.s], o.s>>]
          ELSE IF IsWsChar(c) THEN LET w == TakeWs(cs, m1, c) IN [m |-> w.m, x |-> <<"tok", "Whitespace", w.s>>]
          ELSE [m |-> m1, x |-> <<"lit", c>>]

RECURSIVE LmWord(_, _, _, _)
LmWord(cs, m, name, s) ==
  LET r == LmItem(cs, m)
      done(p) == [m |-> [r.m EXCEPT !.pk = p], x |-> <<"tok", IF name THEN "Name" ELSE "Literal", s>>]
  IN IF r.x = <<>> THEN done(<<>>)
     ELSE IF r.x[1] # "lit" THEN done(r.x)
     ELSE IF name /\ ~IsNameChar(r.x[2]) THEN done(r.x)
     ELSE LmWord(cs, r.m, name, s \o r.x[2])

(* One call of next: [m, x] with x = <<"tok", k, s>> or <<"none">>.        *)
LmNext(cs, m) ==
  LET r == LmItem(cs, m)
  IN IF r.x = <<>> THEN [m |-> r.m, x |-> <<"none">>]
     ELSE IF r.x[1] = "tok" THEN r
     ELSE IF r.x[1] = "esc" THEN [m |-> [r.m EXCEPT !.pk = r.x[2]], x |-> <<"tok", "Backslash", "\\">>]
     ELSE LmWord(cs, r.m, IsNameStart(r.x[2]), r.x[2])

(* The size hint when the source knows its length.                         *)
LmHint(cs, m) ==
  LET pend == IF m.pk = <<>> THEN 0 ELSE IF m.pk[1] = "esc" /\ m.pk[2] # <<>> THEN 2 ELSE 1
  IN <<pend, Len(cs) - m.i + pend>>
=============================================================================
