------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A parser as its user sees it: a source of tokens, a builder that may    *)
(* fail at some call, and a history of public calls on one parser object.  *)
(*                                                                         *)
(*   parser   the parser state (module ShellParser)                        *)
(*   phase    "open"  calls on the parser                                  *)
(*            "iter"  the parser has been turned into an iterator          *)
(*            "over"  the iterator has yielded None or an error            *)
(*            "failed" a call on the parser returned an error              *)
(*   last     what the last call did: [op, ret, ev]                        *)
(***************************************************************************)
EXTENDS ShellParser, Integers

WordOf(sw) == <<"s", <<"S", sw>> >>
Give(r) == Bind(r, LAMBDA q : Emit(q.st, <<"word", WordOf(q.v)>>))
Plain(x) == Ok(x.st, x.v)          \* from [st, v]

(* What each public entry point returns.                                   *)
Call(st, op) ==
  CASE op[1] = "complete_command"  -> CompleteCommand(st)
    [] op[1] = "and_or_list"       -> AndOr(st)
    [] op[1] = "pipeline"          -> Pipeline(st)
    [] op[1] = "command"           -> Command(st)
    [] op[1] = "simple_command"    -> SimpleCommand(st)
    [] op[1] = "redirect_list"     -> RedirectList(st, <<>>)
    [] op[1] = "redirect"          -> Redirect(st)
    [] op[1] = "redirect_heredoc"  -> Heredoc(st, op[2])
    [] op[1] = "word"              -> Word(st)
    [] op[1] = "word_preserve"     -> WordPT(st)
    [] op[1] = "backticked"        -> Give(BacktickRaw(st))
    [] op[1] = "parameter"         -> Give(ParameterRaw(st))
    [] op[1] = "do_group"          -> DoGroup(st)
    [] op[1] = "brace_group"       -> BraceGroup(st)
    [] op[1] = "subshell"          -> Subshell(st, FALSE)
    [] op[1] = "compound_command"  -> CompoundCommand(st)
    [] op[1] = "loop_command"      -> Loop(st)
    [] op[1] = "if_command"        -> If(st)
    [] op[1] = "for_command"       -> For(st)
    [] op[1] = "case_command"      -> Case(st)
    [] op[1] = "maybe_function"    -> MaybeFn(st)
    [] op[1] = "function"          -> FnDecl(st)
    [] op[1] = "skip_whitespace"   -> Ok(SkipWs(st), <<>>)
    [] op[1] = "linebreak"         -> Plain(Linebreak(st))
    [] op[1] = "newline"           -> Plain(NewlineOp(st))
    [] op[1] = "peek_reserved_token" -> Plain(PeekRT(st, op[2]))
    [] op[1] = "peek_reserved_word"  -> Plain(PeekRW(st, op[2]))
    [] op[1] = "reserved_token"    -> ReservedT(st, op[2])
    [] op[1] = "reserved_word"     -> LET r == PeekRW(st, op[2])
                                      IN Ok(IF r.v = "" THEN r.st ELSE Adv(r.st, 1), r.v)
    [] op[1] = "command_group"     -> Group(st, [rt |-> op[2], rw |-> op[3],
                                                 et |-> {op[4][i][1] : i \in 1..Len(op[4])}])
    [] op[1] = "arithmetic"        -> ArSeq(st, <<>>)

(* Calls that only look: they never change what later calls return, apart  *)
(* from blanks that they skip.                                             *)
PeekOps == {"peek_reserved_token", "peek_reserved_word", "skip_whitespace"}

Ret(r) == IF r.ok THEN <<"ok", r.v>> ELSE <<"err", r.v>>
NewLog(old, new) == SubSeq(new.log, Len(old.log) + 1, Len(new.log))

(* A call in a phase: the state after it, the phase after it, what is      *)
(* observed of it.                                                         *)
Step(st, ph, op) ==
  CASE op[1] = "start" -> [st |-> st, ph |-> "open", ev |-> <<>>, ret |-> <<"ok", <<>> >>]
    [] op[1] = "next" ->
         IF ph = "over" THEN [st |-> st, ph |-> "over", ev |-> <<>>, ret |-> <<"ok", <<>> >>]
         ELSE LET r == CompleteCommand(st)
              IN [st |-> r.st, ev |-> NewLog(st, r.st), ret |-> Ret(r),
                  ph |-> IF r.ok /\ r.v # <<>> THEN "iter" ELSE "over"]
    [] OTHER -> LET r == Call(st, op)
                IN [st |-> r.st, ev |-> NewLog(st, r.st), ret |-> Ret(r),
                    ph |-> IF r.ok THEN "open" ELSE "failed"]

(* The number of tokens of the whole source used up in state st, and the   *)
(* characters they came from.                                              *)
Used(lexed, st) == IF Have(st) THEN Tok(st).o - 1 ELSE Len(lexed.ts)
UsedChars(lexed, st) == LET n == Used(lexed, st) IN IF n = 0 THEN 0 ELSE lexed.ts[n].c

(* The call returned a command that a newline ended.                       *)
AtLineEnd(lexed, op, s) ==
  /\ op[1] \in {"complete_command", "next"}
  /\ s.ret[1] = "ok" /\ s.ev # <<>>
  /\ LET e == s.ev[Len(s.ev)] IN e[1] = "complete" /\ e[5] # <<>>
  /\ Used(lexed, s.st) > 0

(* What is observed of a step, in the terms of the harness; how far the    *)
(* source may have been read counts where it is characters.                *)
Observed(lexed, op, s, toks) ==
  LET line == AtLineEnd(lexed, op, s) /\ ~toks
  IN [op |-> op, ev |-> s.ev, ret |-> s.ret,
      pos |-> IF s.ret[1] = "err" \/ op[1] = "next" THEN <<>> ELSE Pos(s.st),
      tp |-> IF line THEN Used(lexed, s.st) ELSE -1,
      cp |-> IF line THEN UsedChars(lexed, s.st) ELSE -1,
      u |-> Used(lexed, s.st)]
StartSeen(st) == [op |-> <<"start">>, ev |-> <<>>, ret |-> <<"ok", <<>> >>, pos |-> Pos(st), tp |-> -1, cp |-> -1, u |-> 0]

(* The longest a token source has to be read by the time of a return.      *)
Prompt(lexed, op, s, tp, cp) ==
  AtLineEnd(lexed, op, s) => tp <= Used(lexed, s.st) /\ cp <= UsedChars(lexed, s.st)

(* The source of a session: characters or external tokens.                 *)
Source(x) ==
  IF "toks" \in DOMAIN x
  THEN PlaceToks([i \in 1..Len(x.toks) |-> <<x.toks[i][1], x.toks[i][2], Bytes(x.toks[i][2])>>])
  ELSE Lex(x.cs)
=============================================================================
