------------------------------- MODULE MCGrammar -------------------------------
(***************************************************************************)
(* Derivations of the grammar (module Grammar).  When one is complete, the *)
(* parser (module ShellParser) has to do with its text what the grammar    *)
(* says; what it did is written out, to be replayed in the implementation. *)
(***************************************************************************)
EXTENDS Grammar, Session, Json, CSV, IOUtils

CONSTANTS Budgets,     \* of a derivation
          Features,    \* whose productions are used
          Sure,        \* of these many in a hundred choices, the first one
          Cuts,        \* also cut the text off, or go on with a wrong token
          Mode         \* "parse", or "default" for the trees of the DefaultBuilder

VARIABLES g, out

Init == /\ g \in {Norm([First(n, c) EXCEPT !.form = <<H("start")>>]) : n \in Budgets, c \in IF Cuts THEN BOOLEAN ELSE {FALSE}}
        /\ out = <<>>

(* Choices: all of them, or, in a simulation, one or two at random.        *)
Usables(ps) == {i \in 1..Len(ps) : Usable(g, ps[i], Features)}
Picks(ps) == LET us == Usables(ps)
             IN IF Sure = 0 \/ us = {} THEN us
                ELSE IF 1 \in us /\ RandomElement(1..100) <= Sure THEN {1}
                ELSE {RandomElement(us), RandomElement(us)}
AtHole == g.form # <<>> /\ Head(g.form)[1] = "h"
AtCut == g.form # <<>> /\ Head(g.form)[1] \in {"c", "e"}

Derive == /\ AtHole
          /\ LET ps == Prods(Head(g.form))
             IN \E i \in Picks(ps) :
                  /\ g' = Expand(g, ps[i])
                  /\ g'.mode # "bad"
          /\ UNCHANGED out
GoOn     == /\ AtCut /\ g' = Pass(g) /\ g'.mode # "bad" /\ UNCHANGED out
CutOff == /\ AtCut /\ (Sure = 0 \/ RandomElement(1..100) <= 15)
          /\ g' = Cut(g) /\ UNCHANGED out

GoWrong == /\ AtCut /\ CanGoWrong(g) /\ (Sure = 0 \/ RandomElement(1..100) <= 15)
           /\ g' = Wrong(g) /\ UNCHANGED out

(* What the parser does with the text.                                     *)
Lx == Lex(Explode(g.txt, 1))
Whole == g.form = <<>> /\ out = <<>> /\ g.up = <<>>
RECURSIVE RunAll(_, _, _, _)
RunAll(lx, st, i, acc) ==
  IF i > Len(g.xs) THEN acc
  ELSE LET s == Step(st, "open", g.xs[i].op)
       IN IF s.ret[1] = "err" THEN Append(acc, Observed(lx, g.xs[i].op, s, FALSE))
          ELSE RunAll(lx, s.st, i + 1, Append(acc, Observed(lx, g.xs[i].op, s, FALSE)))
Parse == LET lx == Lx IN RunAll(lx, Start(lx, 0), 1, <<StartSeen(Start(lx, 0))>>)
Report(o) ==
  CSVWrite("%1$s", <<
    IF Mode = "default" THEN ToJson([mode |-> "default", cs |-> Explode(g.txt, 1), exp |-> DefaultTrees(Start(Lx, 0), <<>>)])
    ELSE ToJson([cs |-> Explode(g.txt, 1), calls |-> [i \in 1..Len(g.xs) |-> g.xs[i].op], exp |-> o])>>, IOEnv.OUT)
Finish == Whole /\ out' = Parse /\ Report(out') /\ UNCHANGED g
Next == Derive \/ GoOn \/ CutOff \/ GoWrong \/ Finish
Spec == Init /\ [][Next]_<<g, out>>

(* Words are compared in canonical form.                                   *)
RECURSIVE Canon(_)
CanonO(o) == IF o = <<>> THEN o ELSE <<Canon(o[1])>>
CanonS(s) ==
  IF s[1] # "sub" THEN s
  ELSE CASE s[2][1] \in {"def", "asg", "err", "alt"} -> <<"sub", <<s[2][1], s[2][2], s[2][3], CanonO(s[2][4])>> >>
         [] s[2][1] \in {"rss", "rls", "rsp", "rlp"} -> <<"sub", <<s[2][1], s[2][2], CanonO(s[2][3])>> >>
         [] OTHER -> s
CanonP(p) == CASE p[1] = "S" -> <<"S", CanonS(p[2])>>
               [] p[1] = "D" -> <<"D", Map(p[2], CanonS)>>
               [] p[1] = "Q" -> p
Canon(w) == LET c == Compress(w) IN IF c[1] = "s" THEN <<"s", CanonP(c[2])>> ELSE <<"c", Map(c[2], CanonP)>>
CanonEv(ev) == Map(ev, LAMBDA e : IF e[1] = "word" THEN <<"word", Canon(e[2])>> ELSE e)

Agree == out # <<>> =>
  /\ Len(out) = Len(g.xs) + 1
  /\ \A i \in 1..Len(g.xs) : /\ out[i+1].ret = g.xs[i].ret
                             /\ CanonEv(out[i+1].ev) = CanonEv(g.xs[i].ev)
=============================================================================
