---------------------------------- MODULE MC ----------------------------------
(***************************************************************************)
(* All behaviours of the parser on all sources of a frame (module Frames): *)
(* the source is built piece by piece, then a program of public calls runs *)
(* on it, and where the frame says so the run is repeated with a builder   *)
(* that fails at its k-th call, for every k.  The properties are invariants*)
(* and each finished behaviour is written out, to be replayed in the       *)
(* implementation.                                                         *)
(*                                                                         *)
(*   f, n    the frame, and the number of pieces chosen so far             *)
(*   src     the source: characters, or <<kind, text>> tokens              *)
(*   pc      "build", "run", "over"                                        *)
(*   lx      the source's tokens      prog, k   the program, the next call *)
(*   st, ph  the parser, its phase    out       what the calls did         *)
(*   base    of a failing run: the run that did not fail                   *)
(***************************************************************************)
EXTENDS Frames, DefaultBuilder, Json, CSV, IOUtils

CONSTANTS Names, More, Mode

VARIABLES f, n, src, pc, lx, prog, k, st, ph, out, base
vars == <<f, n, src, pc, lx, prog, k, st, ph, out, base>>

F == Frame[f]
None == [ts |-> <<>>, i |-> 1, e |-> Pos0, log |-> <<>>, fail |-> 0]
NoLex == [ts |-> <<>>, e |-> Pos0]

Init == /\ f \in Names /\ n = 0 /\ src = F.pre /\ pc = "build" /\ lx = NoLex
        /\ prog = <<>> /\ k = 1 /\ st = None /\ ph = "open" /\ out = <<>> /\ base = <<>>

Build == /\ pc = "build" /\ n < F.max + More
         /\ \E i \in 1..Len(F.a) : src' = src \o F.a[i]
         /\ n' = n + 1
         /\ UNCHANGED <<f, pc, lx, prog, k, st, ph, out, base>>

Lexed(s) == IF F.toks THEN PlaceToks([i \in 1..Len(s) |-> <<s[i][1], s[i][2], Bytes(s[i][2])>>]) ELSE Lex(s)

Run == /\ pc = "build"
       /\ \E i \in 1..Len(F.suf), j \in 1..Len(F.progs) :
            /\ src' = src \o F.suf[i]
            /\ prog' = F.progs[j]
       /\ lx' = Lexed(src')
       /\ st' = Start(lx', 0)
       /\ pc' = "run" /\ k' = 1 /\ ph' = "open" /\ base' = <<>>
       /\ out' = <<StartSeen(st')>>
       /\ UNCHANGED <<f, n>>

Entry(op, s) == Observed(lx, op, s, F.toks)

(* The calls of the program are repeated where it says "*".                *)
Iterating == \E i \in 1..(k - 1) : prog[i] = <<"into_iter">>
OpOf == IF Iterating THEN <<"next">>
        ELSE IF prog[k] = <<"*">> THEN <<"complete_command">> ELSE prog[k]
Done(p) == p = <<"ok", <<>> >> \/ p[1] = "err"
Overs(o) == Cardinality({i \in 1..Len(o) : o[i].op = <<"next">> /\ Done(o[i].ret)})

Report(o) ==
  Mode # "no" => CSVWrite("%1$s", <<
    IF Mode = "default" THEN ToJson([mode |-> "default", cs |-> src, exp |-> DefaultTrees(Start(lx, 0), <<>>)])
                                 ELSE IF F.toks THEN ToJson([toks |-> src, calls |-> prog, fail |-> st.fail, exp |-> o])
                                 ELSE ToJson([cs |-> src, calls |-> prog, fail |-> st.fail, exp |-> o])>>, IOEnv.OUT)

Call1 ==
  /\ pc = "run" /\ k <= Len(prog) /\ prog[k] # <<"into_iter">>
  /\ LET s == Step(st, ph, OpOf)
         o == Append(out, Entry(OpOf, s))
         again == /\ prog[k] = <<"*">>
                  /\ IF Iterating THEN Overs(o) < 3 ELSE ~Done(s.ret)
         fin == (~again /\ k = Len(prog)) \/ (s.ph = "failed")
     IN /\ st' = s.st /\ ph' = s.ph /\ out' = o
        /\ k' = IF again THEN k ELSE k + 1
        /\ pc' = IF fin THEN "over" ELSE "run"
        /\ fin => Report(o)
  /\ UNCHANGED <<f, n, src, lx, prog, base>>
IntoIter == /\ pc = "run" /\ k <= Len(prog) /\ prog[k] = <<"into_iter">>
            /\ k' = k + 1
            /\ UNCHANGED <<f, n, src, pc, lx, prog, st, ph, out, base>>

(* The same session once more, with a builder that fails.                  *)
Fail == /\ pc = "over" /\ F.fails /\ st.fail = 0
        /\ \E m \in 1..Len(st.log) : st' = Start(lx, m)
        /\ base' = out /\ out' = <<out[1]>>
        /\ pc' = "run" /\ k' = 1 /\ ph' = "open"
        /\ UNCHANGED <<f, n, src, lx, prog>>

Next == Build \/ Run \/ Call1 \/ IntoIter \/ Fail
Spec == Init /\ [][Next]_vars

(* --- the properties ---------------------------------------------------------*)
Over == pc = "over"
Free == st.fail = 0
Entries == 2..Len(out)
IsErr(e) == e.ret[1] = "err"
Commands(o) == {i \in 2..Len(o) : o[i].op[1] \in {"complete_command", "next"} /\ ~Done(o[i].ret)}

(* C03: a command uses up at least a token.                                *)
Progress == /\ \A i \in Entries : out[i].u >= out[i-1].u
            /\ \A i \in Commands(out) : out[i].u > out[i-1].u
            /\ Cardinality(Commands(out)) <= Len(lx.ts)

(* C04: an iterator that is over stays so; until then it is a series of    *)
(* calls.                                                                  *)
RECURSIVE Calls(_, _)
Calls(s, m) == IF m = 0 THEN <<>>
               ELSE LET r == Step(s, "open", <<"complete_command">>)
                    IN <<r>> \o Calls(r.st, m - 1)
Nexts == {i \in Entries : out[i].op = <<"next">>}
Fused == \A i, j \in Nexts : i < j /\ Done(out[i].ret)
            => out[j].ret = <<"ok", <<>> >> /\ out[j].ev = <<>> /\ out[j].u = out[i].u
IterIsCalls ==
  Over /\ Nexts # {} /\ prog[1] = <<"into_iter">> =>
    LET live == {i \in Nexts : \A j \in Nexts : j < i => ~Done(out[j].ret)}
        c == Calls(Start(lx, st.fail), Cardinality(live))
    IN \A i \in live : out[i].ret = c[i - 1].ret /\ out[i].ev = c[i - 1].ev

(* C05: reported positions are true ones, and designate the right text.    *)
CharPos(i) ==      \* the position after i characters, counted from scratch
  LET nls == {j \in 1..i : src[j] = "\n"}
      last == IF nls = {} THEN 0 ELSE CHOOSE j \in nls : \A m \in nls : m <= j
  IN <<BytesFrom(src, 1, i), 1 + Cardinality(nls), 1 + BytesFrom(src, last + 1, i)>>
TruePos == {CharPos(i) : i \in 0..Len(src)}
TextAt(p, s) == LET i == CHOOSE i \in 0..Len(src) : CharPos(i) = p
                IN StartsWith(CatFrom(src, i + 1, Len(src)), s)
ErrPos(e) == CASE e[1] = "BadFd" -> {e[2], e[3]}
               [] e[1] = "Incomplete" -> {e[3], e[5]}
               [] e[1] \in {"EOF", "Custom"} -> {}
               [] OTHER -> {e[3]}
Positions ==
  Over /\ ~F.toks =>
    LET all == TruePos
    IN \A i \in 1..Len(out) :
         /\ out[i].pos = <<>> \/ out[i].pos \in all
         /\ IsErr(out[i]) =>
              LET e == out[i].ret[2]
              IN /\ ErrPos(e) \subseteq all
                 /\ e[1] \in {"BadSubst", "Unmatched", "Unexpected"} => TextAt(e[3], e[2][2])
                 /\ e[1] = "BadIdent" => TextAt(e[3], e[2])
                 /\ e[1] = "Incomplete" => TextAt(e[3], e[2])

(* C07: the builder's calls form trees, whose roots the user has.          *)
Roots == Each(SubSeq(out, 2, Len(out)), LAMBDA e :
           IF IsErr(e) THEN <<>>
           ELSE IF e.op[1] \in {"complete_command", "next"} THEN e.ret[2] ELSE <<>>)
OnlyCommands == \A i \in Entries : out[i].op[1] \in {"complete_command", "next"}
Good == \A i \in Entries : ~IsErr(out[i])
Trees == Over /\ OnlyCommands /\ Good => WellFormed(st.log, Roots)

(* C08: in a source without quotes, every comment and every newline is     *)
(* handed over once, in source order.                                      *)
RECURSIVE Scan(_, _)
Scan(i, fresh) ==        \* fresh: a word may start here
  IF i > Len(lx.ts) THEN <<>>
  ELSE LET t == lx.ts[i]
       IN IF t.k = "Newline" THEN << <<"n">> >> \o Scan(i + 1, TRUE)
          ELSE IF t.k = "Pound" /\ fresh
          THEN LET j == FindKind(lx.ts, i, "Newline")
                   e == IF j = 0 THEN Len(lx.ts) ELSE j - 1
               IN << <<"c", TextOf(lx.ts, i, e)>> >> \o Scan(IF j = 0 THEN e + 1 ELSE j + 1, TRUE)
          ELSE IF t.k = "Backslash" /\ i < Len(lx.ts)
          THEN Scan(i + 2, lx.ts[i+1].k = "Newline")
          ELSE Scan(i + 1, t.k \in WordDelims)
Lone == Each(st.log, LAMBDA e : IF e[1] = "comments" THEN e[2] ELSE <<>>)
Comments == Over /\ F.plain /\ OnlyCommands /\ Good =>
              Each(Roots, LAMBDA i : InOrder(st.log, i)) \o Lone = Scan(1, TRUE)

(* C09: a failing run is the free one up to the failing call.              *)
Log(o) == Each(SubSeq(o, 2, Len(o)), LAMBDA e : e.ev)
Abort ==
  Over /\ ~Free =>
    /\ Log(out) = SubSeq(Log(base), 1, st.fail)
    /\ \E i \in Entries :
         /\ out[i].ret = <<"err", <<"Custom", st.fail>> >>
         /\ \A j \in 2..(i - 1) : out[j] = base[j]
         /\ \A j \in (i + 1)..Len(out) : out[j].ret = <<"ok", <<>> >> /\ out[j].ev = <<>>
NoCustom == Over /\ Free => \A i \in Entries : IsErr(out[i]) => out[i].ret[2][1] # "Custom"

(* C17: a substitution's content is parsed as if it stood on its own.      *)
WordGroup(e) == e[2][2][2][2]
Inner == SubSeq(src, 3, Len(src) - 1)
SubstAlone ==
  Over /\ Free /\ Good /\ Len(out) = 3 /\ SubSeq(src, 1, 2) = <<"$", "(">> /\ src[3] # "(" /\ src[Len(src)] = ")"
  /\ lx.ts[Len(lx.ts)].k = "ParenClose" =>
    LET a == Calls(Start(Lex(Inner), 0), Len(src))
        end == {i \in 1..Len(a) : ~a[i].ret[1] = "ok" \/ a[i].ret[2] = <<>>}
        i == CHOOSE i \in end : \A j \in end : i <= j
        alone == SelectSeq(a[i].st.log, LAMBDA e : e[1] # "comments")
        quoted == Calls(Start(Lex(<<"`">> \o Inner \o <<"`">>), 0), 1)[1]
    IN /\ a[i].ret[1] = "ok" =>
            /\ SubSeq(st.log, 1, Len(alone)) = alone
            /\ Len(st.log) = Len(alone) + 5
       /\ a[i].ret[1] = "ok" /\ (\A j \in 1..Len(Inner) : Inner[j] \notin {"`", "\\"}) =>
            /\ quoted.ret[1] = "ok" /\ Len(quoted.st.log) = Len(st.log)
            /\ SubSeq(quoted.st.log, 1, Len(alone)) = alone
            /\ LET g == <<"cmd", WordGroup(quoted.st.log[Len(alone) + 1])>>
               IN st.log[Len(alone) + 1] = <<"word", <<"s", <<"S", <<"sub", g>> >> >> >>

(* C19: words come out in canonical form.                                  *)
CanonicalWords ==
  Over => \A i \in 1..Len(st.log) : st.log[i][1] = "word" => Canonical(WordImg(st.log, st.log[i][2]))

(* C21: a command that a newline ended is the same one when the source     *)
(* ends after what has been used.                                          *)
PrefixEnough ==
  Over /\ Free /\ OnlyCommands /\ Commands(out) # {} =>
    LET i == CHOOSE i \in Commands(out) : \A j \in Commands(out) : j <= i
        r == Calls(Start([ts |-> SubSeq(lx.ts, 1, out[i].u),
                          e |-> IF out[i].u < Len(lx.ts) THEN lx.ts[out[i].u + 1].p ELSE lx.e], 0), i - 1)
    IN out[i].tp >= 0 =>
         \A j \in 2..i : r[j - 1].ret = out[j].ret /\ r[j - 1].ev = out[j].ev

(* C06: what follows the token at which a parse fails does not matter, nor *)
(* does what would come after the point where it fails (but a              *)
(* here-document's body may be what follows).                              *)
Failed == Over /\ IsErr(out[Len(out)])
Longer == << <<"\n">>, <<" ", "z">>, <<"\n", "z", "\n">> >>
ErrStable ==
  Failed /\ Free /\ ~F.toks /\ OnlyCommands /\ (\A i \in 1..Len(lx.ts) : lx.ts[i].k \notin {"DLess", "DLessDash"}) =>
    LET e == out[Len(out)]
    IN e.ret[2][1] \in {"Unexpected", "BadIdent"} /\ e.u + 1 < Len(lx.ts) =>
         \A i \in 1..Len(Longer) :
           LET r == Calls(Start(Lex(src \o Longer[i]), 0), Len(out) - 1)
           IN r[Len(out) - 1].ret = e.ret /\ r[Len(out) - 1].ev = e.ev

(* C22: looking ahead changes nothing that a following call returns.       *)
Peeks == { <<"peek_reserved_word", <<"if", "}", "foo">> >>, <<"peek_reserved_word", <<>> >>,
           <<"peek_reserved_token", << <<"CurlyOpen", "{">>, <<"Name", "a">> >> >>,
           <<"skip_whitespace">> }
Heads == { <<"complete_command">>, <<"word">>, <<"redirect">>, <<"linebreak">>, <<"pipeline">>, <<"maybe_function">> }
PeekTransparent ==
  pc = "run" /\ ph = "open" /\ k = 1 /\ Free =>
    \A p \in Peeks :
      LET s == Step(st, "open", p)
      IN s.ph = "open" =>
         \A q \in Heads :
           LET a == Step(st, "open", q)
               b == Step(s.st, "open", q)
           IN a.ret = b.ret /\ a.ev = b.ev /\ (a.ph = "open" => a.st = b.st)
===============================================================================
