-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validates what was recorded from the real code.                         *)
(*                                                                         *)
(* A session on the parser is a history of calls: each recorded call must  *)
(* be the step of the specification's machine (module Session).  The       *)
(* machine's own state is carried along, so that one deviation does not    *)
(* hide the following ones.  Other recordings (the lexer's tokens, the     *)
(* default builders' trees, displayed forms) are compared at once.  Every  *)
(* deviation is written out, with what the specification demands.          *)
(***************************************************************************)
EXTENDS Session, DefaultBuilder, Display, FiniteSets, Json, CSV, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
OutFile == IOEnv.OUT

VARIABLES h, l, st, ph, bad
vars == <<h, l, st, ph, bad>>

None == [ts |-> <<>>, i |-> 1, e |-> Pos0, log |-> <<>>, fail |-> 0]
Init == h \in 1..Len(Sessions) /\ l = 0 /\ st = None /\ ph = "open" /\ bad = 0

FailAt(x) == IF "fail" \in DOMAIN x THEN x.fail ELSE 0
Mode(x) == IF "mode" \in DOMAIN x THEN x.mode ELSE "parse"
Same(a, b) == ToJson(a) = ToJson(b)
Report(r) == IF CSVWrite("%1$s", <<ToJson(r)>>, OutFile) THEN 1 ELSE 1

(* The positions of the blanks around the next token, and its own.         *)
RECURSIVE BlankFrom(_, _)
BlankFrom(ts, i) == IF i > 1 /\ ts[i-1].k = "Whitespace" THEN BlankFrom(ts, i - 1)
                    ELSE IF i > 2 /\ ts[i-1].k = "Newline" /\ ts[i-2].k = "Backslash" THEN BlankFrom(ts, i - 2)
                    ELSE i
Around(s) == LET a == BlankFrom(s.ts, s.i)
                 b == SkipWs(s).i
             IN [j \in 1..(b - a + 1) |-> IF a + j - 1 <= Len(s.ts) THEN s.ts[a + j - 1].p ELSE s.e]

(* --- calls on the parser ---------------------------------------------------*)
ErrText(ret) == ret[1] # "err" \/ Len(ret) < 4 \/ (ErrShown(ret[2], ret[3]) /\ CauseShown(ret[2], ret[4]))
Check(x, n, e, s) ==
  LET lexed == Source(x)
      ret == IF Len(e.ret) > 2 THEN SubSeq(e.ret, 1, 2) ELSE e.ret
      okEv == Same(e.ev, s.ev)
      okRet == Same(ret, s.ret)
      okPos == e.pos = <<>> \/ Same(e.pos, Pos(s.st))
      prompt == "toks" \in DOMAIN x \/ Prompt(lexed, e.op, s, e.tp, e.cp)
      shown == ErrText(e.ret)
  IN IF okEv /\ okRet /\ okPos /\ prompt /\ shown THEN 0
     ELSE Report([h |-> h, l |-> n, what |-> "call", ev |-> s.ev, ret |-> s.ret, pos |-> Pos(s.st),
                  near |-> Around(s.st), prompt |-> prompt, shown |-> shown])
(* After an error, what a call does is open, but it does return, and calls *)
(* that go on until there are no more commands come to an end.             *)
After1 ==
  LET x == Sessions[h]
      ends == Len(x.out) <= Len(Source(x).ts) + Len(x.calls) + 4
      e == x.out[l + 1]
  IN /\ Mode(x) = "parse" /\ l < Len(x.out) /\ ph = "failed"
     /\ bad' = bad + (IF e.ret[1] # "panic" /\ ends THEN 0
                      ELSE Report([h |-> h, l |-> l + 1, what |-> "after", ends |-> ends]))
     /\ l' = l + 1
     /\ UNCHANGED <<h, st, ph>>
Call1 ==
  LET x == Sessions[h]
  IN /\ Mode(x) = "parse" /\ l < Len(x.out) /\ ph # "failed"
     /\ LET e == x.out[l + 1]
            s == Step(IF l = 0 THEN Start(Source(x), FailAt(x)) ELSE st, ph, e.op)
        IN /\ st' = s.st
           /\ ph' = s.ph
           /\ bad' = bad + Check(x, l + 1, e, s)
           /\ l' = l + 1
           /\ h' = h

(* --- the lexer ----------------------------------------------------------------*)
(* Each entry is <<hint before, result, characters taken>>.                 *)
LexBad(x) ==
  LET ts == Lex(x.cs).ts
      n == Len(ts)
      entry(i) == x.lex[i]
      want(i) == IF i <= n THEN <<"tok", ts[i].k, ts[i].s, ts[i].s, ts[i].n>> ELSE <<"none">>
      left(i) == IF i <= n THEN n - i + 1 ELSE 0
      tokOk == Len(x.lex) = n + 3 /\ \A i \in 1..Len(x.lex) : Same(entry(i)[2], want(i))
      panic == \E i \in 1..Len(x.lex) : entry(i)[2][1] = "panic"
      (* against the tokens that really came *)
      came(i) == Cardinality({j \in i..Len(x.lex) : entry(j)[2][1] = "tok"})
      hintOk == \A i \in 1..Len(x.lex) : LET hi == entry(i)[1] IN hi[1] <= came(i) /\ (hi[2] # <<>> => came(i) <= hi[2][1])
      promptOk == \A i \in 1..Len(x.lex) :
                    (i <= n /\ entry(i)[2][1] = "tok" /\ entry(i)[2][2] = "Newline" /\ ts[i].k = "Newline")
                       => entry(i)[3] <= ts[i].c
  IN IF tokOk /\ hintOk /\ promptOk THEN <<>>
     ELSE <<[h |-> h, l |-> 0, what |-> "lex", tokens |-> tokOk, hint |-> hintOk, prompt |-> promptOk,
             panic |-> panic, want |-> [i \in 1..(n + 1) |-> want(i)]]>>

(* --- the default builders --------------------------------------------------------*)
DefaultBad(x) ==
  LET want == DefaultTrees(Start(Lex(x.cs), 0), <<>>)
      empty == [i \in 1..Len(want) |-> IF want[i][1] = "ok" THEN <<"ok">> ELSE want[i]]
      astOk == Same(x.ast, want)
      emptyOk == Same(x.empty, empty)
      sameOk == x.differ = <<>>
  IN IF astOk /\ emptyOk /\ sameOk THEN <<>>
     ELSE <<[h |-> h, l |-> 0, what |-> "default", ast |-> astOk, same |-> sameOk, empty |-> emptyOk, want |-> want]>>

(* --- the rest ----------------------------------------------------------------------*)
MiscWant(x) ==
  CASE x.kind = "param" -> <<"param", x.p>>
    [] x.kind = "tok"   -> [i \in 1..Len(x.toks) |-> TokFacts(x.toks[i])]
    [] x.kind = "num"   -> [i \in 1..256 |-> NumFacts(i - 1)]
    [] x.kind = "adv"   -> <<Pos0, Pos0>> \o Advance(x.p, x.toks, 1)
    [] x.kind = "bword" -> WordImg(<<>>, x.w)
    [] x.kind = "err"   -> x.e
MiscOk(x) ==
  CASE x.kind = "param" -> /\ ReadsAs(x.disp, x.p) /\ \A i \in 1..Len(x.alts) : ReadsAs(x.alts[i], x.p)
                           /\ Len(x.out) = 3
                           /\ Same(x.out[2].ev, << <<"word", <<"s", <<"S", <<"param", x.p>> >> >> >> >>)
                           /\ Same(x.out[3].ev, <<>>) /\ Same(x.out[3].ret, <<"ok", <<>> >>)
    [] x.kind \in {"tok", "num", "adv"} -> Same(x.res, MiscWant(x))
    [] x.kind = "bword" -> Same(x.ast, MiscWant(x)) /\ x.differ = <<>>
    [] x.kind = "err"   -> ErrShown(x.e, x.disp) /\ ErrShown(x.e, x.alt) /\ CauseShown(x.e, x.cause)
MiscBad(x) == IF "panic" \notin DOMAIN x /\ MiscOk(x) THEN <<>>
              ELSE <<[h |-> h, l |-> 0, what |-> "misc", kind |-> x.kind, want |-> MiscWant(x)]>>

OneBad(x) == CASE Mode(x) = "lex" -> LexBad(x) [] Mode(x) = "default" -> DefaultBad(x) [] Mode(x) = "misc" -> MiscBad(x)
Whole ==
  LET x == Sessions[h]
  IN /\ Mode(x) # "parse" /\ l = 0
     /\ l' = 1
     /\ bad' = (LET b == OneBad(x) IN IF b = <<>> THEN 0 ELSE Report(b[1]))
     /\ UNCHANGED <<h, st, ph>>

Next == Call1 \/ After1 \/ Whole
Spec == Init /\ [][Next]_vars
=============================================================================
