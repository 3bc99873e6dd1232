-------------------------------- MODULE Events --------------------------------
(***************************************************************************)
(* What a builder call mentions: the earlier calls whose values it is      *)
(* given, and the comments and blank lines, both in source order.          *)
(***************************************************************************)
EXTENDS ShellParser, SequencesExt, FiniteSets

Each(s, F(_)) == FlattenSeq([i \in 1..Len(s) |-> F(s[i])])
OptEach(o, F(_)) == IF o = <<>> THEN <<>> ELSE F(o[1])

(* The groups of commands in a word.                                       *)
RECURSIVE WordGroups(_)
SimpleGroups(s) ==
  CASE s[1] = "cmd" -> <<s[2]>>
    [] s[1] = "sub" ->
         LET x == s[2]
         IN CASE x[1] = "cmd" -> <<x[2]>>
              [] x[1] \in {"def", "asg", "err", "alt"} -> OptEach(x[4], WordGroups)
              [] x[1] \in {"rss", "rls", "rsp", "rlp"} -> OptEach(x[3], WordGroups)
              [] OTHER -> <<>>
    [] OTHER -> <<>>
PieceGroups(p) ==
  CASE p[1] = "S" -> SimpleGroups(p[2])
    [] p[1] = "D" -> Each(p[2], SimpleGroups)
    [] p[1] = "Q" -> <<>>
WordGroups(w) == Each(Pieces(w), PieceGroups)

(* Children and comments, interleaved: <<"i", id>> and <<"n", newline>>.   *)
I(x) == << <<"i", x>> >>
N(x) == << <<"n", x>> >>
Is(s) == Each(s, I)
Ns(s) == Each(s, N)
Cg(g) == Is(g[2]) \o Ns(g[3])

Mentions(e) ==
  CASE e[1] = "word"     -> Each(WordGroups(e[2]), Cg)
    [] e[1] = "redirect" -> I(e[4])
    [] e[1] = "simple"   -> Each(e[2], LAMBDA v : IF v[1] = "v" THEN Is(v[3]) ELSE I(v[2]))
                            \o Each(e[3], LAMBDA a : I(a[2]))
    [] e[1] = "pipeline" -> Each(e[3], LAMBDA c : I(c[2]) \o Ns(c[1]))
    [] e[1] = "andor"    -> I(e[2]) \o Each(e[3], LAMBDA c : Ns(c[1]) \o I(c[3]))
    [] e[1] = "complete" -> Ns(e[2]) \o I(e[3]) \o Ns(e[5])
    [] e[1] \in {"brace", "subshell"} -> Cg(e[2]) \o Is(e[3])
    [] e[1] = "loop"     -> Cg(e[3]) \o Cg(e[4]) \o Is(e[5])
    [] e[1] = "if"       -> Each(e[2], LAMBDA c : Cg(c[1]) \o Cg(c[2])) \o OptEach(e[3], Cg) \o Is(e[4])
    [] e[1] = "for"      -> Ns(e[3]) \o OptEach(e[4], LAMBDA w : Ns(w[1]) \o Is(w[2]) \o Ns(w[3]))
                            \o Ns(e[5]) \o Cg(e[6]) \o Is(e[7])
    [] e[1] = "case"     -> I(e[2]) \o Ns(e[3]) \o Ns(e[4])
                            \o Each(e[5], LAMBDA a : Ns(a[1]) \o Is(a[2]) \o Ns(a[3]) \o Cg(a[4]) \o Ns(a[5]))
                            \o Ns(e[6]) \o Is(e[7])
    [] e[1] = "pipeable" -> I(e[2])
    [] e[1] = "fn"       -> Ns(e[3]) \o I(e[4])
    [] e[1] = "comments" -> Ns(e[2])

Kids(e) == LET m == SelectSeq(Mentions(e), LAMBDA x : x[1] = "i") IN [i \in 1..Len(m) |-> m[i][2]]
Newlines(e) == LET m == SelectSeq(Mentions(e), LAMBDA x : x[1] = "n") IN [i \in 1..Len(m) |-> m[i][2]]

(* The comments and blank lines of the tree that hangs on call i, as the   *)
(* source has them.                                                        *)
RECURSIVE InOrder(_, _)
InOrder(log, i) == Each(Mentions(log[i]), LAMBDA x : IF x[1] = "n" THEN <<x[2]>> ELSE InOrder(log, x[2]))

(* Every value is used once, by a later call, children in source order;    *)
(* the values in roots are returned to the caller instead.                 *)
WellFormed(log, roots) ==
  LET kids == [i \in 1..Len(log) |-> Kids(log[i])]
      all == FlattenSeq(kids) \o roots
      used == {all[i] : i \in 1..Len(all)}
  IN /\ \A i \in 1..Len(log) : \A j \in 1..Len(kids[i]) :
          kids[i][j] < i /\ (j > 1 => kids[i][j-1] < kids[i][j])
     /\ Len(all) = Cardinality(used)
     /\ used = {i \in 1..Len(log) : log[i][1] # "comments"}
=============================================================================
