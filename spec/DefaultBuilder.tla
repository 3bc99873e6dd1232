---------------------------- MODULE DefaultBuilder ----------------------------
(***************************************************************************)
(* The tree the default builders make of the builder calls in log: the     *)
(* image of the value that call number i returned.                         *)
(***************************************************************************)
EXTENDS ShellParser

(* Adjacent pieces that are merged.                                        *)
CanMergeS(a, b) == a[1] = "lit" /\ b[1] = "lit"
MergeS(a, b) == Lit(a[2] \o b[2])
RECURSIVE MergeSimples(_, _)
MergeSimples(ws, acc) ==
  IF ws = <<>> THEN acc
  ELSE LET n == Len(acc)
       IN MergeSimples(Tail(ws), IF n > 0 /\ CanMergeS(acc[n], ws[1])
                                 THEN [acc EXCEPT ![n] = MergeS(@, ws[1])]
                                 ELSE Append(acc, ws[1]))
CanMerge(a, b) == a[1] = b[1] /\ (a[1] # "S" \/ CanMergeS(a[2], b[2]))
Merge(a, b) == CASE a[1] = "S" -> <<"S", MergeS(a[2], b[2])>>
                 [] a[1] = "Q" -> <<"Q", a[2] \o b[2]>>
                 [] a[1] = "D" -> <<"D", a[2] \o b[2]>>
RECURSIVE MergePieces(_, _)
MergePieces(ws, acc) ==
  IF ws = <<>> THEN acc
  ELSE LET n == Len(acc)
       IN MergePieces(Tail(ws), IF n > 0 /\ CanMerge(acc[n], ws[1])
                                THEN [acc EXCEPT ![n] = Merge(@, ws[1])]
                                ELSE Append(acc, ws[1]))
Quoted(p) == IF p[1] = "D" THEN <<"D", MergeSimples(p[2], <<>>)>> ELSE p
(* A word in canonical form.                                               *)
Compress(w) ==
  LET ps == MergePieces(Pieces(w), <<>>)
      qs == [i \in 1..Len(ps) |-> Quoted(ps[i])]
  IN IF Len(qs) = 1 THEN <<"s", qs[1]>> ELSE <<"c", qs>>

Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
Opt(o, F(_)) == IF o = <<>> THEN <<>> ELSE <<F(o[1])>>

RECURSIVE Img(_, _), WordImg(_, _), SimpleImg(_, _)
Cmds(log, g) == Map(g[2], LAMBDA i : Img(log, i))     \* comments are dropped
Ids(log, s) == Map(s, LAMBDA i : Img(log, i))
Tagged(log, e) == IF e[1] = "v" THEN <<"v", e[2], Opt(e[3], LAMBDA i : Img(log, i))>>
                  ELSE <<e[1], Img(log, e[2])>>
Pairs(log, cs) == Map(cs, LAMBDA c : <<Cmds(log, c[1]), Cmds(log, c[2])>>)

SimpleImg(log, s) ==
  LET W(o) == Opt(o, LAMBDA w : WordImg(log, w))
  IN CASE s[1] = "cmd" -> <<"sub", <<"cmd", Cmds(log, s[2])>> >>
       [] s[1] = "sub" ->
            LET x == s[2]
            IN <<"sub", CASE x[1] = "cmd" -> <<"cmd", Cmds(log, x[2])>>
                          [] x[1] \in {"def", "asg", "err", "alt"} -> <<x[1], x[2], x[3], W(x[4])>>
                          [] x[1] \in {"rss", "rls", "rsp", "rlp"} -> <<x[1], x[2], W(x[3])>>
                          [] OTHER -> x>>
       [] OTHER -> s
PieceImg(log, p) ==
  CASE p[1] = "S" -> <<"S", SimpleImg(log, p[2])>>
    [] p[1] = "D" -> <<"D", Map(p[2], LAMBDA s : SimpleImg(log, s))>>
    [] p[1] = "Q" -> p
WordImg(log, w) ==
  LET c == Compress(w)
  IN IF c[1] = "s" THEN <<"s", PieceImg(log, c[2])>> ELSE <<"c", Map(c[2], LAMBDA p : PieceImg(log, p))>>

Img(log, i) ==
  LET e == log[i]
  IN CASE e[1] = "word" -> WordImg(log, e[2])
       [] e[1] = "redirect" -> <<"redirect", e[2], e[3], Img(log, e[4])>>
       [] e[1] = "simple" -> <<"simple", Map(e[2], LAMBDA x : Tagged(log, x)), Map(e[3], LAMBDA x : Tagged(log, x))>>
       [] e[1] = "pipeline" ->
            IF ~e[2] /\ Len(e[3]) = 1 THEN <<"single", Img(log, e[3][1][2])>>
            ELSE <<"pipe", e[2], Map(e[3], LAMBDA c : Img(log, c[2]))>>
       [] e[1] = "andor" -> <<Img(log, e[2]), Map(e[3], LAMBDA c : <<c[2], Img(log, c[3])>>)>>
       [] e[1] = "complete" -> <<IF e[4] = "amp" THEN "job" ELSE "list", Img(log, e[3])>>
       [] e[1] \in {"brace", "subshell"} -> <<e[1], Cmds(log, e[2]), Ids(log, e[3])>>
       [] e[1] = "loop" -> <<"loop", e[2], Cmds(log, e[3]), Cmds(log, e[4]), Ids(log, e[5])>>
       [] e[1] = "if" -> <<"if", Pairs(log, e[2]), Opt(e[3], LAMBDA g : Cmds(log, g)), Ids(log, e[4])>>
       [] e[1] = "for" -> <<"for", e[2], Opt(e[4], LAMBDA w : Ids(log, w[2])), Cmds(log, e[6]), Ids(log, e[7])>>
       [] e[1] = "case" -> <<"case", Img(log, e[2]),
                             Map(e[5], LAMBDA a : <<Ids(log, a[2]), Cmds(log, a[4])>>), Ids(log, e[7])>>
       [] e[1] = "pipeable" -> Img(log, e[2])
       [] e[1] = "fn" -> <<"fn", e[2], Img(log, e[4])>>

(* What iterating over a parser with the default builder yields.           *)
RECURSIVE DefaultTrees(_, _)
DefaultTrees(s, acc) ==
  LET r == CompleteCommand(s)
  IN IF ~r.ok THEN Append(acc, <<"err", r.v>>)
     ELSE IF r.v = <<>> THEN acc
     ELSE DefaultTrees(r.st, Append(acc, <<"ok", Img(r.st.log, r.v[1])>>))

(* A word's image is in canonical form.                                    *)
RECURSIVE Canonical(_)
CanonicalS(s) ==
  IF s[1] # "sub" THEN TRUE
  ELSE CASE s[2][1] \in {"def", "asg", "err", "alt"} -> s[2][4] = <<>> \/ Canonical(s[2][4][1])
         [] s[2][1] \in {"rss", "rls", "rsp", "rlp"} -> s[2][3] = <<>> \/ Canonical(s[2][3][1])
         [] OTHER -> TRUE
CanonicalP(p) ==
  CASE p[1] = "S" -> CanonicalS(p[2])
    [] p[1] = "D" -> /\ \A i \in 1..Len(p[2]) : CanonicalS(p[2][i])
                     /\ \A i \in 2..Len(p[2]) : ~CanMergeS(p[2][i-1], p[2][i])
    [] p[1] = "Q" -> TRUE
Canonical(w) ==
  /\ w[1] = "c" => Len(w[2]) # 1
  /\ \A i \in 1..Len(Pieces(w)) : CanonicalP(Pieces(w)[i])
  /\ \A i \in 2..Len(Pieces(w)) : ~CanMerge(Pieces(w)[i-1], Pieces(w)[i])
=============================================================================
