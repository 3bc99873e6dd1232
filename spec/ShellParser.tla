----------------------------- MODULE ShellParser -----------------------------
(***************************************************************************)
(* What every public entry point of the parser does, as a function from a  *)
(* parser state to a parser state, a result, and the builder calls made on *)
(* the way.                                                                *)
(*                                                                         *)
(* A parser state st has                                                   *)
(*   ts, i   the tokens of the current stream and the next one's index     *)
(*   e       the position reported at the end of that stream               *)
(*   log     the builder calls made so far; a value a builder call         *)
(*           returned is denoted by the call's index in log                *)
(*   fail    the index of the builder call that fails (0: none does)       *)
(* Results are [ok, st, v]; when ~ok, v is the error.                      *)
(*                                                                         *)
(* Values (everything compared with the implementation) are nested tuples  *)
(* that start with a tag; optional values are <<>> or <<v>>.               *)
(***************************************************************************)
EXTENDS ShellLexer

Ok(st, v)  == [ok |-> TRUE,  st |-> st, v |-> v]
Err(st, e) == [ok |-> FALSE, st |-> st, v |-> e]
Bind(r, F(_)) == IF r.ok THEN F(r) ELSE r

Start(lexed, fail) == [ts |-> lexed.ts, i |-> 1, e |-> lexed.e, log |-> <<>>, fail |-> fail]

(* --- the token stream --------------------------------------------------*)
Have(st) == st.i <= Len(st.ts)
Peek(st) == IF st.i <= Len(st.ts) THEN st.ts[st.i].k ELSE "EOF"
PeekN(st, d) == IF st.i + d <= Len(st.ts) THEN st.ts[st.i + d].k ELSE "EOF"
Tok(st) == st.ts[st.i]
Pos(st) == IF st.i <= Len(st.ts) THEN st.ts[st.i].p ELSE st.e
Adv(st, n) == [st EXCEPT !.i = @ + n]
TokVal(t) == <<t.k, t.s>>

(* --- errors ------------------------------------------------------------*)
EBadFd(a, b)            == <<"BadFd", a, b>>
EBadIdent(s, p)         == <<"BadIdent", s, p>>
EBadSubst(t, p)         == <<"BadSubst", TokVal(t), p>>
EUnmatched(k, s, p)     == <<"Unmatched", <<k, s>>, p>>
EIncomplete(c, p, k, q) == <<"Incomplete", c, p, k, q>>
EUnexpected(t, p)       == <<"Unexpected", TokVal(t), p>>
EEof                    == <<"EOF">>
ECustom(n)              == <<"Custom", n>>

(* The next token cannot continue the construct.                           *)
Unexpected(st) == IF Have(st) THEN Err(Adv(st, 1), EUnexpected(Tok(st), Pos(st))) ELSE Err(st, EEof)
Eat(st, k) == IF Peek(st) = k THEN Ok(Adv(st, 1), <<>>) ELSE Unexpected(st)

(* --- the builder -------------------------------------------------------*)
(* One builder call; its value is its index.                               *)
Emit(st, ev) ==
  LET n == Len(st.log) + 1
      t == [st EXCEPT !.log = Append(@, ev)]
  IN IF n = st.fail THEN Err(t, ECustom(n)) ELSE Ok(t, n)

(* --- blanks, newlines and comments -------------------------------------*)
RECURSIVE SkipWs(_)
SkipWs(st) ==
  LET k == Peek(st)
  IN IF k = "Whitespace" THEN SkipWs(Adv(st, 1))
     ELSE IF k = "Backslash" /\ PeekN(st, 1) = "Newline" THEN SkipWs(Adv(st, 2))
     ELSE st

(* Index of the first token >= i that is not a blank.                      *)
RECURSIVE SkipBlank(_, _)
SkipBlank(ts, i) == IF i > Len(ts) THEN i
                    ELSE IF ts[i].k = "Whitespace" THEN SkipBlank(ts, i + 1)
                    ELSE IF ts[i].k = "Backslash" /\ i < Len(ts) /\ ts[i+1].k = "Newline" THEN SkipBlank(ts, i + 2)
                    ELSE i

(* Index of the first token >= i of kind k, or 0.                          *)
RECURSIVE FindKind(_, _, _)
FindKind(ts, i, k) == IF i > Len(ts) THEN 0 ELSE IF ts[i].k = k THEN i ELSE FindKind(ts, i + 1, k)
KindAt(ts, i) == IF i <= Len(ts) THEN ts[i].k ELSE "EOF"
RECURSIVE TextOf(_, _, _)
TextOf(ts, i, j) == IF i > j THEN "" ELSE ts[i].s \o TextOf(ts, i + 1, j)

(* An optional newline or comment: [st, v] with v = <<>>, <<<<"n">>>> or   *)
(* <<<<"c", text>>>>.                                                      *)
NewlineOp(st0) ==
  LET st == SkipWs(st0)
      k == Peek(st)
  IN IF k = "Newline" THEN [st |-> Adv(st, 1), v |-> << <<"n">> >>]
     ELSE IF k = "Pound" THEN
       LET j == FindKind(st.ts, st.i, "Newline")
           e == IF j = 0 THEN Len(st.ts) ELSE j - 1
       IN [st |-> [st EXCEPT !.i = IF j = 0 THEN e + 1 ELSE j + 1],
           v  |-> << <<"c", TextOf(st.ts, st.i, e)>> >>]
     ELSE [st |-> st, v |-> <<>>]

RECURSIVE LinebreakFrom(_, _)
LinebreakFrom(st, acc) ==
  LET n == NewlineOp(st)
  IN IF n.v = <<>> THEN [st |-> n.st, v |-> acc] ELSE LinebreakFrom(n.st, acc \o n.v)
Linebreak(st) == LinebreakFrom(st, <<>>)

(* --- reserved words and tokens -----------------------------------------*)
(* Does the word that ends before the d-th next token stand alone?         *)
EndsWord(st, d) == LET k == PeekN(st, d) IN \/ k = "EOF" \/ k \in WordDelims
                                            \/ k = "Backslash" /\ PeekN(st, d + 1) = "Newline"
InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x

(* [st, v]: v the reserved word at the (blank-skipped) front, or "".       *)
PeekRW(st0, words) ==
  IF words = <<>> THEN [st |-> st0, v |-> ""]
  ELSE LET st == SkipWs(st0)
           hit == /\ Peek(st) \in {"Name", "Literal"}
                  /\ InSeq(Tok(st).s, words)
                  /\ EndsWord(st, 1)
       IN [st |-> st, v |-> IF hit THEN Tok(st).s ELSE ""]
ReservedW(st0, words) ==
  LET r == PeekRW(st0, words)
  IN IF r.v = "" THEN Err(r.st, <<>>) ELSE Ok(Adv(r.st, 1), r.v)

(* Reserved tokens are given as <<kind, text>>.                            *)
PeekRTHere(st, toks) ==
  Have(st) /\ InSeq(TokVal(Tok(st)), toks) /\ EndsWord(st, 1)
PeekRT(st0, toks) ==
  IF toks = <<>> THEN [st |-> st0, v |-> <<>>]
  ELSE LET ws == \E i \in 1..Len(toks) : toks[i][1] = "Whitespace"
           st == IF ws /\ (PeekRTHere(st0, toks) \/ ~Have(st0)) THEN st0 ELSE SkipWs(st0)
       IN IF PeekRTHere(st, toks) THEN [st |-> st, v |-> <<TokVal(Tok(st))>>]
          ELSE [st |-> IF ws /\ Have(st) THEN SkipWs(st) ELSE st, v |-> <<>>]
ReservedT(st0, toks) ==
  LET r == PeekRT(st0, toks)
  IN IF r.v # <<>> THEN Ok(Adv(r.st, 1), r.v[1])
     ELSE IF Have(r.st) /\ InSeq(TokVal(Tok(r.st)), toks) THEN Unexpected(Adv(r.st, 1))
     ELSE Unexpected(r.st)

(* --- balanced runs of tokens (backquotes, here-document lines) ----------*)
(* A stack entry awaits kind k; if it never comes, token <<ek, es>> at p   *)
(* is reported as unmatched.                                               *)
Push(stk, k, ek, es, p) == Append(stk, [k |-> k, ek |-> ek, es |-> es, p |-> p])
Pop(stk) == SubSeq(stk, 1, Len(stk) - 1)

(* Scan from token i until the (non-empty) stack is empty: [ok, i] with i  *)
(* the index after the last token, or the error v.  ad: token i directly   *)
(* follows an unescaped dollar.                                            *)
RECURSIVE BalFrom(_, _, _, _)
BalFrom(ts, i, stk, ad) ==
  IF i > Len(ts) THEN LET top == stk[Len(stk)] IN [ok |-> FALSE, i |-> i, v |-> EUnmatched(top.ek, top.es, top.p)]
  ELSE
  LET top == stk[Len(stk)].k
      k == ts[i].k
  IN IF k = top THEN
       IF Len(stk) = 1 THEN [ok |-> TRUE, i |-> i + 1, v |-> <<>>] ELSE BalFrom(ts, i + 1, Pop(stk), FALSE)
     ELSE IF top = "SingleQuote" THEN BalFrom(ts, i + 1, stk, FALSE)
     ELSE CASE k = "Backslash" -> BalFrom(ts, i + 2, stk, FALSE)
            [] top = "Backtick" -> BalFrom(ts, i + 1, stk, FALSE)    \* quotes count once backslashes are removed
            [] k = "Backtick"    -> BalFrom(ts, i + 1, Push(stk, k, k, "`", ts[i].p), FALSE)
            [] k = "SingleQuote" -> BalFrom(ts, i + 1, IF top = "DoubleQuote" THEN stk ELSE Push(stk, k, k, "'", ts[i].p), FALSE)
            [] k = "DoubleQuote" -> BalFrom(ts, i + 1, Push(stk, k, k, "\"", ts[i].p), FALSE)
            [] k = "ParenOpen"   -> BalFrom(ts, i + 1, IF top = "DoubleQuote" /\ ~ad THEN stk
                                                       ELSE Push(stk, "ParenClose", k, "(", ts[i].p), FALSE)
            [] k = "Dollar"      -> BalFrom(ts, i + 1, IF i < Len(ts) /\ ts[i+1].k = "CurlyOpen"
                                                       THEN Push(stk, "CurlyClose", "CurlyOpen", "{", ts[i+1].p)
                                                       ELSE stk, TRUE)
            [] OTHER -> BalFrom(ts, i + 1, stk, FALSE)

(* The balanced unit that starts at token i (which exists).                *)
Unit(ts, i) ==
  LET k == ts[i].k
      nk == IF i < Len(ts) THEN ts[i+1].k ELSE "EOF"
      one(n) == [ok |-> TRUE, i |-> n, v |-> <<>>]
  IN CASE k = "Backslash" -> one(IF i < Len(ts) THEN i + 2 ELSE i + 1)
       [] k = "Backtick"    -> BalFrom(ts, i + 1, Push(<<>>, k, k, "`", ts[i].p), FALSE)
       [] k = "SingleQuote" -> BalFrom(ts, i + 1, Push(<<>>, k, k, "'", ts[i].p), FALSE)
       [] k = "DoubleQuote" -> BalFrom(ts, i + 1, Push(<<>>, k, k, "\"", ts[i].p), FALSE)
       [] k = "ParenOpen"   -> BalFrom(ts, i + 1, Push(<<>>, "ParenClose", k, "(", ts[i].p), FALSE)
       [] k = "Dollar" /\ nk = "CurlyOpen" -> BalFrom(ts, i + 1, Push(<<>>, "CurlyClose", nk, "{", ts[i+1].p), TRUE)
       [] k = "Dollar" /\ nk = "ParenOpen" -> BalFrom(ts, i + 2, Push(<<>>, "ParenClose", nk, "(", ts[i+1].p), FALSE)
       [] OTHER -> one(i + 1)

(* --- backquotes: one layer of backslashes removed ------------------------*)
(* Tokens i..j with each backslash before $, ` or \ removed; the second    *)
(* component says whether a backslash was removed before the token.        *)
RECURSIVE Unescape(_, _, _, _)
Unescape(ts, i, j, acc) ==
  IF i > j THEN acc
  ELSE IF ts[i].k # "Backslash" THEN Unescape(ts, i + 1, j, Append(acc, <<ts[i], FALSE>>))
  ELSE IF i = j THEN Append(acc, <<ts[i], FALSE>>)
  ELSE IF ts[i+1].k \in {"Dollar", "Backtick", "Backslash"}
       THEN Unescape(ts, i + 2, j, Append(acc, <<ts[i+1], TRUE>>))
       ELSE Unescape(ts, i + 2, j, Append(Append(acc, <<ts[i], FALSE>>), <<ts[i+1], FALSE>>))

(* Give re-lexed tokens their source positions: the first one that starts  *)
(* inside the second of the two joined tokens starts at q, the rest follow.*)
RECURSIVE Repos(_, _, _, _, _)
Repos(xs, i, skip, q, o) ==       \* skip: bytes of xs that precede q
  IF i > Len(xs) THEN <<>>
  ELSE <<[xs[i] EXCEPT !.p = AfterTok(q, "Literal", "", xs[i].p[1] - skip), !.o = o]>>
       \o Repos(xs, i + 1, skip, q, o)

(* What the lexer would have made of the text without the removed          *)
(* backslashes: an active `$` or `\` uncovered by a removal is tokenized   *)
(* together with the text after it.                                        *)
RECURSIVE Rejoin(_, _, _, _)
Rejoin(us, i, esc, acc) ==
  IF i > Len(us) THEN acc
  ELSE LET t == us[i][1]
           active == us[i][2] /\ ~esc /\ t.k \in {"Dollar", "Backslash"} /\ i < Len(us) /\ ~us[i+1][2]
           nx == us[i+1][1]
           xs == Lex(Explode(t.s \o nx.s, 1)).ts
       IN IF active /\ (t.k = "Backslash" \/ (nx.k = "Literal" /\ Len(nx.s) > 0 /\ SubSeq(nx.s, 1, 1) \in DigitChars))
          THEN Rejoin(us, i + 2, FALSE,
                 acc \o <<[xs[1] EXCEPT !.p = t.p, !.o = t.o]>> \o Repos(Tail(xs), 1, t.n, nx.p, nx.o))
          ELSE Rejoin(us, i + 1, ~esc /\ t.k = "Backslash", Append(acc, t))

(* --- words ----------------------------------------------------------------*)
Lit(s) == <<"lit", s>>
LitKinds == {"Bang","Pound","Percent","Dash","Equals","Plus","At","Caret","Slash","Comma",
             "CurlyOpen","CurlyClose","Name","Literal"}
GlobTag == [ k \in {"Star","Question","Tilde","SquareOpen","SquareClose","Colon"} |->
  CASE k = "Star" -> "star" [] k = "Question" -> "quest" [] k = "Tilde" -> "tilde"
    [] k = "SquareOpen" -> "sqo" [] k = "SquareClose" -> "sqc" [] k = "Colon" -> "colon" ]

(* An optional complex word from its pieces.                               *)
MkWord(ws) == IF ws = <<>> THEN <<>> ELSE IF Len(ws) = 1 THEN << <<"s", ws[1]>> >> ELSE << <<"c", ws>> >>
Pieces(w) == IF w[1] = "s" THEN <<w[2]>> ELSE w[2]

AllLits(ws) == \A i \in 1..Len(ws) : ws[i][1] = "S" /\ ws[i][2][1] = "lit"
RECURSIVE LitText(_, _)
LitText(ws, i) == IF i > Len(ws) THEN "" ELSE ws[i][2][2] \o LitText(ws, i + 1)
(* The descriptor a word denotes: an unquoted decimal number of 16 bits.   *)
AsFd(w) == LET ws == Pieces(w) IN IF AllLits(ws) THEN ParseNum(LitText(ws, 1), DigitChars, 10, MaxU16) ELSE <<>>

NumSimple(sw) == CASE sw[1] \in {"lit", "esc"} -> AllDigits(sw[2])
                   [] sw[1] \in {"param", "sub", "cmd"} -> TRUE
                   [] OTHER -> FALSE
NumPiece(p) == CASE p[1] = "S" -> NumSimple(p[2])
                 [] p[1] = "Q" -> AllDigits(p[2])
                 [] p[1] = "D" -> \A i \in 1..Len(p[2]) : NumSimple(p[2][i])
CouldBeNum(w) == LET ws == Pieces(w) IN \A i \in 1..Len(ws) : NumPiece(ws[i])

NoDelims == [rt |-> <<>>, rw |-> <<>>, et |-> {}]
UntilW(words) == [NoDelims EXCEPT !.rw = words]

RECURSIVE WordLoop(_, _, _), InterpLoop(_, _, _, _, _), BacktickRaw(_), ParameterRaw(_),
          ParamSubst(_), ParamBody(_, _, _), SubstWord(_, _), SubstWordLoop(_, _),
          GroupLoop(_, _, _), Subshell(_, _), AndOr(_), AndOrLoop(_, _, _), Pipeline(_), PipelineLoop(_, _, _),
          Command(_), SimpleCommand(_), SimpleVars(_, _), SimpleArgs(_, _, _), Redirect(_), RedirectList(_, _),
          Heredoc(_, _), Compound(_, _), DoGroup(_), BraceGroup(_), Loop(_), If(_), IfLoop(_, _, _),
          For(_), ForWords(_, _), Case(_), CaseArms(_, _), CasePats(_, _, _), FnDecl(_), MaybeFn(_)
RECURSIVE ArSeq(_, _), ArAssign(_), ArTern(_), ArLvl(_, _), ArLoop(_, _, _), ArPow(_), ArUnary(_), ArPost(_)

HereEscapes == {"Dollar", "Backtick", "Backslash", "Newline"}
InterpEscapes == HereEscapes \cup {"DoubleQuote"}
Flush(ws, buf) == IF buf = "" THEN ws ELSE Append(ws, Lit(buf))

(* Double-quote-like text up to the token delim ("EOF": the stream's end). *)
InterpLoop(st, delim, open, ws, buf) ==
  LET k == Peek(st)
  IN CASE k = delim -> Ok(IF k = "EOF" THEN st ELSE Adv(st, 1), Flush(ws, buf))
       [] k # delim /\ k \in {"Dollar", "ParamPositional"} ->
            Bind(ParameterRaw(st), LAMBDA r : InterpLoop(r.st, delim, open, Append(Flush(ws, buf), r.v), ""))
       [] k # delim /\ k = "Backtick" ->
            Bind(BacktickRaw(st), LAMBDA r : InterpLoop(r.st, delim, open, Append(Flush(ws, buf), r.v), ""))
       [] k # delim /\ k = "Backslash" ->
            IF PeekN(st, 1) \in (IF delim = "EOF" THEN HereEscapes ELSE InterpEscapes)
            THEN InterpLoop(Adv(st, 2), delim, open,
                            Append(Flush(ws, buf), <<"esc", st.ts[st.i + 1].s>>), "")
            ELSE InterpLoop(Adv(st, 1), delim, open, ws, buf \o "\\")
       [] k # delim /\ k = "EOF" -> Err(st, EUnmatched("DoubleQuote", "\"", open))
       [] OTHER -> InterpLoop(Adv(st, 1), delim, open, ws, buf \o Tok(st).s)

(* Word pieces up to a delimiter; d: an additional delimiter, or "none".   *)
WordLoop(st, d, ws) ==
  LET k == Peek(st)
      S(sw) == Append(ws, <<"S", sw>>)
  IN CASE k = d -> Ok(st, ws)
       [] k # d /\ k \in LitKinds -> WordLoop(Adv(st, 1), d, S(Lit(Tok(st).s)))
       [] k # d /\ k \in {"Dollar", "ParamPositional"} ->
            Bind(ParameterRaw(st), LAMBDA r : WordLoop(r.st, d, S(r.v)))
       [] k # d /\ k \in DOMAIN GlobTag -> WordLoop(Adv(st, 1), d, S(<<GlobTag[k]>>))
       [] k # d /\ k = "Backslash" ->
            IF PeekN(st, 1) = "EOF" THEN Ok(Adv(st, 1), ws)
            ELSE IF PeekN(st, 1) = "Newline" THEN Ok(Adv(st, 2), ws)  \* an escaped newline ends the word
            ELSE WordLoop(Adv(st, 2), d, S(<<"esc", st.ts[st.i + 1].s>>))
       [] k # d /\ k = "SingleQuote" ->
            LET j == FindKind(st.ts, st.i + 1, "SingleQuote")
            IN IF j = 0 THEN Err(st, EUnmatched(k, "'", Pos(st)))
               ELSE WordLoop([st EXCEPT !.i = j + 1], d,
                             Append(ws, <<"Q", TextOf(st.ts, st.i + 1, j - 1)>>))
       [] k # d /\ k = "DoubleQuote" ->
            Bind(InterpLoop(Adv(st, 1), "DoubleQuote", Pos(st), <<>>, ""),
                 LAMBDA r : WordLoop(r.st, d, Append(ws, <<"D", r.v>>)))
       [] k # d /\ k = "Backtick" -> Bind(BacktickRaw(st), LAMBDA r : WordLoop(r.st, d, S(r.v)))
       [] OTHER -> Ok(st, ws)

(* An optional raw word; a comment is not a word unless hash.              *)
WordRawIf(st0, d, hash) ==
  LET st == SkipWs(st0)
  IN IF Peek(st) = "Pound" /\ ~hash THEN Ok(st, <<>>)
     ELSE Bind(WordLoop(st, d, <<>>), LAMBDA r : Ok(r.st, MkWord(r.v)))
WordRaw(st, d) == WordRawIf(st, d, FALSE)
OptWord(r) == IF r.v = <<>> THEN r ELSE Bind(Emit(r.st, <<"word", r.v[1]>>), LAMBDA q : Ok(q.st, <<q.v>>))
WordPT(st) == Bind(WordRaw(st, "none"), OptWord)
Word(st) == Bind(WordPT(st), LAMBDA r : Ok(SkipWs(r.st), r.v))
(* A required word, not yet given to the builder, for a redirection.       *)
NeedRaw(st) == Bind(WordRaw(st, "none"), LAMBDA r : IF r.v = <<>> THEN Unexpected(r.st) ELSE Ok(r.st, r.v[1]))

(* Run the parse F of a sub-stream and come back.                          *)
SubStream(st, ts, e, F(_), back) ==
  LET r == F([st EXCEPT !.ts = ts, !.i = 1, !.e = e])
  IN IF r.ok THEN Ok([back EXCEPT !.log = r.st.log], r.v) ELSE r

BacktickRaw(st) ==
  Bind(Eat(st, "Backtick"), LAMBDA r :
    LET b == BalFrom(st.ts, st.i + 1, Push(<<>>, "Backtick", "Backtick", "`", Pos(st)), FALSE)
    IN IF ~b.ok THEN Err(r.st, b.v)
       ELSE LET inner == Rejoin(Unescape(st.ts, st.i + 1, b.i - 2, <<>>), 1, FALSE, <<>>)
                back == [st EXCEPT !.i = b.i]
            IN Bind(SubStream(st, inner, Pos(back), LAMBDA s : GroupLoop(s, NoDelims, <<>>), back),
                    LAMBDA q : Ok(q.st, <<"cmd", q.v>>)))

SpecialParam == [ k \in {"Star","Pound","Question","Dollar","Bang","Dash","At"} |->
  CASE k = "Star" -> <<"star">> [] k = "Pound" -> <<"pound">> [] k = "Question" -> <<"quest">>
    [] k = "Dollar" -> <<"dollar">> [] k = "Bang" -> <<"bang">> [] k = "Dash" -> <<"dash">>
    [] k = "At" -> <<"at">> ]

ParamInner(st) ==
  LET k == Peek(st)
  IN CASE k \in DOMAIN SpecialParam -> Ok(Adv(st, 1), SpecialParam[k])
       [] k = "Name" -> Ok(Adv(st, 1), <<"var", Tok(st).s>>)
       [] k = "Literal" -> LET n == ParseNum(Tok(st).s, DigitChars, 10, MaxU32)
                           IN IF n = <<>> THEN Err(Adv(st, 1), EBadSubst(Tok(st), Pos(st)))
                              ELSE Ok(Adv(st, 1), <<"pos", n[1]>>)
       [] k = "EOF" -> Err(st, EEof)
       [] OTHER -> Err(Adv(st, 1), EBadSubst(Tok(st), Pos(st)))

(* The next token without its first n1 characters, which the lexer, knowing *)
(* nothing of the context, did not separate from the rest (of kind k2).    *)
SplitTok(st, n1, k2) ==
  LET t == Tok(st)
  IN [st EXCEPT !.ts[st.i] = [t EXCEPT !.k = k2, !.s = From(t.s, n1 + 1), !.n = t.n - n1,
                                       !.p = <<t.p[1] + n1, t.p[2], t.p[3] + n1>>]]

ParameterRaw(st) ==
  LET k == Peek(st)
      n == PeekN(st, 1)
  IN CASE k = "ParamPositional" -> Ok(Adv(st, 1), <<"param", <<"pos", SubSeq(Tok(st).s, 2, 2)>> >>)
       [] k = "Dollar" ->
            IF n \in DOMAIN SpecialParam \/ n = "Name"
            THEN Bind(ParamInner(Adv(st, 1)), LAMBDA r : Ok(r.st, <<"param", r.v>>))
            ELSE IF n \in {"ParenOpen", "CurlyOpen"} THEN ParamSubst(Adv(st, 1))
            ELSE IF n = "ParamPositional"     \* $$1: a digit after the parameter $$
            THEN Ok(SplitTok(Adv(st, 1), 1, "Literal"), <<"param", <<"dollar">> >>)
            ELSE Ok(Adv(st, 1), Lit("$"))
       [] OTHER -> Unexpected(st)

(* The operand of an expansion up to and including the closing curly.      *)
SubstLits == WordDelims \cup {"Pound"}
SubstWordLoop(st, ws) ==
  LET k == Peek(st)
  IN CASE k \in {"EOF", "CurlyClose"} -> Ok(st, ws)
       [] k \in SubstLits -> SubstWordLoop(Adv(st, 1), Append(ws, <<"S", Lit(Tok(st).s)>>))
       [] k = "Backslash" /\ PeekN(st, 1) = "Newline" ->
            SubstWordLoop(Adv(st, 2), Append(ws, <<"S", <<"esc", "\n">> >>))
       [] OTHER -> Bind(WordRaw(st, "CurlyClose"), LAMBDA r :
            IF r.v = <<>> THEN Ok(r.st, ws) ELSE SubstWordLoop(r.st, ws \o Pieces(r.v[1])))
SubstWord(st, open) ==
  Bind(SubstWordLoop(st, <<>>), LAMBDA r :
    IF Peek(r.st) = "CurlyClose" THEN Ok(Adv(r.st, 1), MkWord(r.v))
    ELSE Err(r.st, EUnmatched("CurlyOpen", "{", open)))

Sub(x) == <<"sub", x>>
SubstOps == [ k \in {"Dash", "Equals", "Question", "Plus"} |->
  CASE k = "Dash" -> "def" [] k = "Equals" -> "asg" [] k = "Question" -> "err" [] k = "Plus" -> "alt" ]

ParamBody(st0, param, open) ==
  LET colon == Peek(st0) = "Colon"
      st == IF colon THEN Adv(st0, 1) ELSE st0
      k == Peek(st)
  IN CASE k \in DOMAIN SubstOps ->
            Bind(SubstWord(Adv(st, 1), open), LAMBDA r :
              LET len == param = <<"pound">> /\ ~colon /\ r.v = <<>>
              IN Ok(r.st, IF len /\ k = "Dash" THEN Sub(<<"len", <<"dash">> >>)
                          ELSE IF len /\ k = "Question" THEN Sub(<<"len", <<"quest">> >>)
                          ELSE Sub(<<SubstOps[k], colon, param, r.v>>)))
       [] k = "CurlyClose" /\ ~colon -> Ok(Adv(st, 1), <<"param", param>>)
       [] k = "EOF" -> Err(st, EUnmatched("CurlyOpen", "{", open))
       [] OTHER -> Err(Adv(st, 1), EBadSubst(Tok(st), Pos(st)))

ParamSubst(st) ==          \* at the ( or { after the $
  IF Peek(st) = "ParenOpen" THEN
    IF PeekN(st, 1) = "ParenOpen" THEN
      LET s1 == SkipWs(Adv(st, 2))
          body == IF Peek(s1) = "ParenClose" THEN Ok(s1, <<>>)
                  ELSE Bind(ArSeq(s1, <<>>), LAMBDA r : Ok(r.st, <<r.v>>))
      IN Bind(body, LAMBDA r :
           Bind(Eat(SkipWs(r.st), "ParenClose"), LAMBDA q :
             Bind(Eat(SkipWs(q.st), "ParenClose"), LAMBDA z : Ok(z.st, Sub(<<"arith", r.v>>)))))
    ELSE Bind(Subshell(st, TRUE), LAMBDA r : Ok(r.st, Sub(<<"cmd", r.v>>)))
  ELSE
    LET open == Pos(st)
        Rem(s, tag, param) == Bind(SubstWord(s, open), LAMBDA r : Ok(r.st, Sub(<<tag, param, r.v>>)))
    IN Bind(ParamInner(Adv(st, 1)), LAMBDA pr :
         LET s == pr.st
             k == Peek(s)
             isPound == pr.v = <<"pound">>
         IN CASE k = "Percent" ->
                   IF PeekN(s, 1) = "Percent" THEN Rem(Adv(s, 2), "rls", pr.v) ELSE Rem(Adv(s, 1), "rss", pr.v)
              [] k = "Pound" ->
                   IF PeekN(s, 1) = "Pound" THEN Rem(Adv(s, 2), "rlp", pr.v)
                   ELSE Bind(SubstWord(Adv(s, 1), open), LAMBDA r :
                          Ok(r.st, IF r.v = <<>> /\ isPound THEN Sub(<<"len", <<"pound">> >>)
                                   ELSE Sub(<<"rsp", pr.v, r.v>>)))
              [] k \notin {"Percent", "Pound"} ->
                   IF isPound /\ k \notin {"Colon","Dash","Equals","Question","Plus","CurlyClose"}
                   THEN Bind(ParamInner(s), LAMBDA r :
                          Bind(Eat(r.st, "CurlyClose"), LAMBDA z : Ok(z.st, Sub(<<"len", r.v>>))))
                   ELSE ParamBody(s, pr.v, open))

(* --- command groups --------------------------------------------------------*)
(* cfg: rt reserved tokens, rw reserved words, et kinds that always delimit. *)
FoundDelim(st, cfg) ==
  IF Peek(st) \in cfg.et THEN [st |-> st, v |-> TRUE]
  ELSE LET a == PeekRW(st, cfg.rw)
       IN IF a.v # "" THEN [st |-> a.st, v |-> TRUE]
          ELSE LET b == PeekRT(a.st, cfg.rt) IN [st |-> b.st, v |-> b.v # <<>>]

CompleteWith(st, comments) ==
  Bind(AndOr(st), LAMBDA r :
    LET k == Peek(r.st)
        n == NewlineOp(IF k \in {"Semi", "Amp"} THEN Adv(r.st, 1) ELSE r.st)
        sep == IF k = "Semi" THEN "semi" ELSE IF k = "Amp" THEN "amp"
               ELSE IF n.v # <<>> THEN "newline" ELSE "other"
    IN Emit(n.st, <<"complete", comments, r.v, sep, n.v>>))

GroupLoop(st, cfg, cmds) ==       \* value <<"cg", commands, trailing comments>>
  LET f == FoundDelim(st, cfg)
  IN IF f.v THEN Ok(f.st, <<"cg", cmds, <<>> >>)
     ELSE LET lb == Linebreak(f.st)
              g == FoundDelim(lb.st, cfg)
          IN IF g.v \/ ~Have(g.st) THEN Ok(g.st, <<"cg", cmds, lb.v>>)
             ELSE Bind(CompleteWith(g.st, lb.v), LAMBDA r : GroupLoop(r.st, cfg, Append(cmds, r.v)))

Group(st, cfg) == Bind(GroupLoop(st, cfg, <<>>), LAMBDA r : IF r.v[2] = <<>> THEN Unexpected(r.st) ELSE r)

CompleteCommand(st) ==            \* value <<>> or <<command>>
  LET lb == Linebreak(st)
  IN IF Have(lb.st) THEN Bind(CompleteWith(lb.st, lb.v), LAMBDA r : Ok(r.st, <<r.v>>))
     ELSE IF lb.v = <<>> THEN Ok(lb.st, <<>>)
     ELSE Bind(Emit(lb.st, <<"comments", lb.v>>), LAMBDA r : Ok(r.st, <<>>))

AndOrLoop(st0, first, rest) ==
  LET st == SkipWs(st0)
      k == Peek(st)
  IN IF k \in {"AndIf", "OrIf"}
     THEN LET lb == Linebreak(Adv(st, 1))
          IN Bind(Pipeline(lb.st), LAMBDA r :
               AndOrLoop(r.st, first, Append(rest, <<lb.v, IF k = "AndIf" THEN "and" ELSE "or", r.v>>)))
     ELSE Emit(st, <<"andor", first, rest>>)
AndOr(st) == Bind(Pipeline(st), LAMBDA r : AndOrLoop(r.st, r.v, <<>>))

PipelineLoop(st0, bang, cmds) ==
  LET st == SkipWs(st0) IN
  IF Peek(st) = "Bang" THEN Unexpected(st)
  ELSE Bind(Command(st), LAMBDA r :
         IF Peek(r.st) = "Pipe"
         THEN LET lb == Linebreak(Adv(r.st, 1)) IN PipelineLoop(lb.st, bang, Append(cmds, <<lb.v, r.v>>))
         ELSE Emit(r.st, <<"pipeline", bang, Append(cmds, << <<>>, r.v >>)>>))
Pipeline(st0) ==
  LET st == SkipWs(st0)
  IN IF Peek(st) = "Bang" THEN PipelineLoop(Adv(st, 1), TRUE, <<>>) ELSE PipelineLoop(st, FALSE, <<>>)

(* --- simple commands and redirections --------------------------------------*)
RedirTag == [ k \in {"Less","Great","DGreat","Clobber","LessGreat","LessAnd","GreatAnd"} |->
  CASE k = "Less" -> "read" [] k = "Great" -> "write" [] k = "DGreat" -> "append"
    [] k = "Clobber" -> "clobber" [] k = "LessGreat" -> "readwrite"
    [] k = "LessAnd" -> "dupread" [] k = "GreatAnd" -> "dupwrite" ]

DupTarget(st) ==
  LET d == PeekRT(st, << <<"Dash", "-">> >>)
  IN IF d.v # <<>> THEN Ok(Adv(d.st, 1), <<"s", <<"S", Lit("-")>> >>)
     ELSE Bind(NeedRaw(d.st), LAMBDA r :
            IF CouldBeNum(r.v) THEN r ELSE Err(r.st, EBadFd(Pos(d.st), Pos(r.st))))

(* Value <<>> (neither), <<<<"r", id>>>> or <<<<"w", id>>>>.               *)
Redirect(st0) ==
  Bind(WordRaw(st0, "none"), LAMBDA w :
    LET st == w.st
        k == Peek(st)
        fd == IF w.v = <<>> THEN <<>> ELSE AsFd(w.v[1])
        word == IF w.v = <<>> THEN Ok(st, <<>>)
                ELSE Bind(Emit(st, <<"word", w.v[1]>>), LAMBDA r : Ok(r.st, << <<"w", r.v>> >>))
    IN IF w.v # <<>> /\ fd = <<>> THEN word
       ELSE IF k \in {"DLess", "DLessDash"}
       THEN Bind(Heredoc(st, fd), LAMBDA r : Ok(r.st, << <<"r", r.v>> >>))
       ELSE IF k \in DOMAIN RedirTag
       THEN LET s1 == SkipWs(Adv(st, 1))
                target == IF k \in {"LessAnd", "GreatAnd"} THEN DupTarget(s1) ELSE NeedRaw(s1)
            IN Bind(target, LAMBDA t :
                 Bind(Emit(t.st, <<"word", t.v>>), LAMBDA q :
                   Bind(Emit(q.st, <<"redirect", RedirTag[k], fd, q.v>>), LAMBDA r :
                     Ok(r.st, << <<"r", r.v>> >>))))
       ELSE word)

RedirectList(st0, acc) ==
  LET st == SkipWs(st0)
  IN Bind(Redirect(st), LAMBDA r :
       IF r.v = <<>> THEN Ok(r.st, acc)
       ELSE IF r.v[1][1] = "w" THEN Err(r.st, EBadFd(Pos(st), Pos(r.st)))
       ELSE RedirectList(r.st, Append(acc, r.v[1][2])))

SimpleArgs(st, vars, args) ==
  Bind(Redirect(st), LAMBDA r :
    IF r.v # <<>> THEN SimpleArgs(r.st, vars, Append(args, r.v[1]))
    ELSE IF vars = <<>> /\ args = <<>> THEN Unexpected(r.st)
    ELSE Emit(r.st, <<"simple", vars, args>>))

RECURSIVE Continue(_)         \* the line continues after \ and a newline
Continue(st) == IF Peek(st) = "Backslash" /\ PeekN(st, 1) = "Newline" THEN Continue(Adv(st, 2)) ELSE st
SimpleVars(st0, vars) ==
  LET st == SkipWs(st0)
  IN IF Peek(st) = "Name" /\ PeekN(st, 1) = "Equals"
     THEN LET s == Continue(Adv(st, 2))
              value == IF Peek(s) = "Whitespace" THEN Ok(s, <<>>)
                       ELSE Bind(Bind(WordRawIf(s, "none", Peek(s) = "Pound"), OptWord),
                                 LAMBDA r : Ok(SkipWs(r.st), r.v))
          IN Bind(value, LAMBDA r : SimpleVars(r.st, Append(vars, <<"v", Tok(st).s, r.v>>)))
     ELSE Bind(Redirect(st), LAMBDA r :
            IF r.v = <<>> THEN SimpleArgs(r.st, vars, <<>>)
            ELSE IF r.v[1][1] = "r" THEN SimpleVars(r.st, Append(vars, r.v[1]))
            ELSE SimpleArgs(r.st, vars, r.v))
SimpleCommand(st) == SimpleVars(st, <<>>)

(* --- here-documents ---------------------------------------------------------*)
(* The tokens of the delimiter word: balanced units up to a word delimiter *)
(* (parentheses are allowed).                                              *)
RECURSIVE DelimEnd(_, _)
DelimEnd(ts, i) ==
  IF i > Len(ts) \/ (ts[i].k \in WordDelims /\ ts[i].k # "ParenOpen") THEN [ok |-> TRUE, i |-> i, v |-> <<>>]
  ELSE LET u == Unit(ts, i) IN IF u.ok THEN DelimEnd(ts, u.i) ELSE u

(* Unquoted text of delimiter tokens i..n.  v: <<text, quoted>>.           *)
RECURSIVE DqText(_, _, _)
DqText(ts, i, j) ==      \* text between double quotes
  IF i > j THEN ""
  ELSE IF ts[i].k = "Backslash" /\ i < j /\ ts[i+1].k \in InterpEscapes THEN ts[i+1].s \o DqText(ts, i + 2, j)
  ELSE IF ts[i].k = "Backslash" /\ i < j THEN ts[i].s \o ts[i+1].s \o DqText(ts, i + 2, j)
  ELSE ts[i].s \o DqText(ts, i + 1, j)
RECURSIVE BtText(_, _)
BtText(us, i) == IF i > Len(us) THEN "" ELSE us[i][1].s \o BtText(us, i + 1)
RECURSIVE Unquote(_, _, _, _)
Unquote(ts, i, text, quoted) ==
  IF i > Len(ts) THEN <<text, quoted>>
  ELSE LET k == ts[i].k
           close == BalFrom(ts, i + 1, Push(<<>>, k, k, "", <<0,0,0>>), FALSE)
       IN CASE k = "Backslash" ->
                 Unquote(ts, i + 2, IF i < Len(ts) THEN text \o ts[i+1].s ELSE text, TRUE)
            [] k = "SingleQuote" -> Unquote(ts, close.i, text \o TextOf(ts, i + 1, close.i - 2), TRUE)
            [] k = "DoubleQuote" -> Unquote(ts, close.i, text \o DqText(ts, i + 1, close.i - 2), TRUE)
            [] k = "Backtick" ->
                 Unquote(ts, close.i, text \o "`" \o BtText(Unescape(ts, i + 1, close.i - 2, <<>>), 1) \o "`", TRUE)
            [] OTHER -> Unquote(ts, i + 1, text \o ts[i].s, quoted)

(* Index after the rest of the operator's line, its newline included.      *)
RECURSIVE LineRest(_, _, _)
LineRest(ts, i, ws) ==       \* ws: a comment may start at i
  IF i > Len(ts) THEN [ok |-> TRUE, i |-> i, v |-> <<>>]
  ELSE IF ts[i].k = "Newline" THEN [ok |-> TRUE, i |-> i + 1, v |-> <<>>]
  ELSE IF ws /\ ts[i].k = "Pound"
  THEN LET j == FindKind(ts, i, "Newline") IN [ok |-> TRUE, i |-> IF j = 0 THEN Len(ts) + 1 ELSE j + 1, v |-> <<>>]
  ELSE LET u == Unit(ts, i)
       IN IF u.ok THEN LineRest(ts, u.i, \/ ts[i].k \in WordDelims
                                         \/ ts[i].k = "Backslash" /\ i < Len(ts) /\ ts[i+1].k = "Newline")
          ELSE u

(* Body lines from i on: [body, i, e]: the body's tokens, the index after  *)
(* the delimiter line and the position of the end of the body.             *)
StripTabs(t) ==     \* a whitespace token without its leading tabs
  LET n == LeadTabs(t.s, 1)
  IN [t EXCEPT !.s = From(@, n + 1), !.n = @ - n, !.p = <<@[1] + n, @[2], @[3] + n>>]
EndPos(ts, i, e) == IF i <= Len(ts) THEN ts[i].p ELSE e
RECURSIVE BodyFrom(_, _, _, _, _, _)
BodyFrom(ts, i, e, strip, delim, acc) ==
  LET first == IF strip /\ i <= Len(ts) /\ ts[i].k = "Whitespace" THEN <<StripTabs(ts[i])>> ELSE <<>>
      i1 == i + Len(first)
      pre == IF first # <<>> /\ first[1].s = "" THEN <<>> ELSE first
      nl == FindKind(ts, i1, "Newline")
      last == IF nl = 0 THEN Len(ts) ELSE nl - 1
      line == pre \o SubSeq(ts, i1, last)
      text == TextOf(line, 1, Len(line))
      start == IF first # <<>> THEN first[1].p ELSE EndPos(ts, i, e)
  IN IF line = <<>> /\ nl = 0 THEN [body |-> acc, i |-> last + 1, e |-> start]
     ELSE IF text = delim \/ text = delim \o "<U+D>"
     THEN [body |-> acc, i |-> IF nl = 0 THEN last + 1 ELSE nl + 1, e |-> start]
     ELSE IF nl = 0 THEN [body |-> acc \o line, i |-> last + 1, e |-> e]
     ELSE BodyFrom(ts, nl + 1, e, strip, delim, acc \o line \o <<ts[nl]>>)

Heredoc(st0, fd) ==
  IF Peek(st0) \notin {"DLess", "DLessDash"} THEN Unexpected(st0)
  ELSE
  LET strip == Peek(st0) = "DLessDash"
      st == SkipWs(Adv(st0, 1))
      ts == st.ts
      d == DelimEnd(ts, st.i)
  IN IF ~d.ok THEN Err(st, d.v)
  ELSE
  LET uq == Unquote(SubSeq(ts, st.i, d.i - 1), 1, "", FALSE)
      s1 == [st EXCEPT !.i = d.i]
  IN IF uq[1] = "" /\ ~uq[2] THEN Unexpected(s1)
  ELSE
  LET r == LineRest(ts, d.i, FALSE)
  IN IF ~r.ok THEN Err(s1, r.v)
  ELSE
  LET b == BodyFrom(ts, r.i, st.e, strip, uq[1], <<>>)
      saved == SubSeq(ts, d.i, r.i - 1)
      back == [st EXCEPT !.ts = saved \o SubSeq(ts, b.i, Len(ts)), !.i = 1]
      simple(sw) == <<"S", sw>>
      body == IF uq[2] THEN Ok(back, <<"s", simple(Lit(TextOf(b.body, 1, Len(b.body))))>>)
              ELSE Bind(SubStream(st, b.body, b.e, LAMBDA s : InterpLoop(s, "EOF", Pos0, <<>>, ""), back),
                        LAMBDA q : Ok(q.st, IF q.v = <<>> THEN <<"s", simple(Lit(""))>>
                                            ELSE IF Len(q.v) = 1 THEN <<"s", simple(q.v[1])>>
                                            ELSE <<"c", [x \in 1..Len(q.v) |-> simple(q.v[x])]>>))
  IN Bind(body, LAMBDA q :
       Bind(Emit(q.st, <<"word", q.v>>), LAMBDA w : Emit(w.st, <<"redirect", "heredoc", fd, w.v>>)))

(* --- compound commands -------------------------------------------------------*)
NeedW(st, words) == LET r == PeekRW(st, words) IN IF r.v = "" THEN Unexpected(r.st) ELSE Ok(Adv(r.st, 1), r.v)
(* The construct cmd at p lacks the keyword kw.                            *)
NeedKw(st, words, cmd, p, kw) ==
  LET r == PeekRW(st, words)
  IN IF r.v = "" THEN Err(r.st, EIncomplete(cmd, p, kw, Pos(r.st))) ELSE Ok(Adv(r.st, 1), r.v)

DoGroup(st0) ==
  LET st == SkipWs(st0) IN
  Bind(NeedW(st, <<"do">>), LAMBDA a :
    Bind(Group(a.st, UntilW(<<"done">>)), LAMBDA g :
      Bind(NeedKw(g.st, <<"done">>, "do", Pos(st), "done"), LAMBDA z : Ok(z.st, g.v))))

BraceGroup(st0) ==
  LET st == SkipWs(st0) IN
  Bind(ReservedT(st, << <<"CurlyOpen", "{">> >>), LAMBDA a :
    Bind(Group(a.st, [NoDelims EXCEPT !.rt = << <<"CurlyClose", "}">> >>]), LAMBDA g :
      LET z == ReservedT(g.st, << <<"CurlyClose", "}">> >>)
      IN IF z.ok THEN Ok(z.st, g.v) ELSE Err(z.st, EUnmatched("CurlyOpen", "{", Pos(st)))))

Subshell(st, emptyOk) ==
  Bind(Eat(st, "ParenOpen"), LAMBDA a :
    Bind(GroupLoop(a.st, [NoDelims EXCEPT !.et = {"ParenClose"}], <<>>), LAMBDA g :
      IF Peek(g.st) = "ParenClose" /\ (emptyOk \/ g.v[2] # <<>>) THEN Ok(Adv(g.st, 1), g.v)
      ELSE IF Have(g.st) THEN Unexpected(g.st)
      ELSE Err(g.st, EUnmatched("ParenOpen", "(", Pos(st)))))

Loop(st0) ==
  LET st == SkipWs(st0) IN
  Bind(NeedW(st, <<"while", "until">>), LAMBDA a :
    Bind(Group(a.st, UntilW(<<"do">>)), LAMBDA g :
      LET d == PeekRW(g.st, <<"do">>)
      IN IF d.v = "" THEN Err(d.st, EIncomplete(a.v, Pos(st), "do", Pos(d.st)))
         ELSE Bind(DoGroup(d.st), LAMBDA b : Ok(b.st, <<a.v, g.v, b.v>>))))

IfLoop(st, start, conds) ==
  Bind(Group(st, UntilW(<<"then">>)), LAMBDA g :
    Bind(NeedKw(g.st, <<"then">>, "if", start, "then"), LAMBDA t :
      Bind(Group(t.st, UntilW(<<"elif", "else", "fi">>)), LAMBDA b :
        LET cs == Append(conds, <<g.v, b.v>>)
        IN Bind(NeedKw(b.st, <<"elif", "else", "fi">>, "if", start, "fi"), LAMBDA w :
             CASE w.v = "elif" -> IfLoop(w.st, start, cs)
               [] w.v = "fi"   -> Ok(w.st, <<cs, <<>> >>)
               [] w.v = "else" -> Bind(Group(w.st, UntilW(<<"fi">>)), LAMBDA e :
                                    Bind(NeedKw(e.st, <<"fi">>, "if", start, "fi"), LAMBDA z :
                                      Ok(z.st, <<cs, <<e.v>> >>)))))))
If(st0) == LET st == SkipWs(st0) IN Bind(NeedW(st, <<"if">>), LAMBDA a : IfLoop(a.st, Pos(st), <<>>))

ForWords(st, acc) ==
  Bind(Word(st), LAMBDA r : IF r.v = <<>> THEN Ok(r.st, acc) ELSE ForWords(r.st, acc \o r.v))

For(st0) ==      \* value <<var, var comment, words, comments before the body, body>>
  LET st == SkipWs(st0) IN
  Bind(NeedW(st, <<"for">>), LAMBDA a :
    LET s1 == SkipWs(a.st)
        k == Peek(s1)
    IN IF k = "Literal" THEN Err(Adv(s1, 1), EBadIdent(Tok(s1).s, Pos(s1)))
       ELSE IF k # "Name" THEN Unexpected(s1)
       ELSE IF Peek(Adv(s1, 1)) = "Pound" THEN Unexpected(Adv(s1, 1))
       ELSE
       LET vc == NewlineOp(Adv(s1, 1))
           pc == Linebreak(vc.st)
           in == PeekRW(pc.st, <<"in">>)
           Body(s, words, pre) ==
             LET d == PeekRW(s, <<"do">>)
             IN IF d.v = "" THEN Err(d.st, EIncomplete("for", Pos(st), "do", Pos(d.st)))
                ELSE Bind(DoGroup(d.st), LAMBDA b : Ok(b.st, <<Tok(s1).s, vc.v, words, pre, b.v>>))
       IN IF in.v # ""
          THEN Bind(ForWords(Adv(in.st, 1), <<>>), LAMBDA w :
                 LET semi == Peek(w.st) = "Semi"
                     wc == NewlineOp(IF semi THEN Adv(w.st, 1) ELSE w.st)
                 IN IF ~semi /\ wc.v = <<>> THEN Unexpected(wc.st)
                    ELSE LET lb == Linebreak(wc.st) IN Body(lb.st, << <<pc.v, w.v, wc.v>> >>, lb.v))
          ELSE IF Peek(in.st) = "Semi"
          THEN LET lb == Linebreak(Adv(in.st, 1)) IN Body(lb.st, <<>>, pc.v \o lb.v)
          ELSE LET d == PeekRW(in.st, <<"do">>)
               IN IF d.v = "" THEN Err(d.st, EIncomplete("for", Pos(st), "in", Pos(d.st)))
                  ELSE Body(d.st, <<>>, pc.v))

CasePats(st0, pats, miss) ==    \* the pattern words up to and including the )
  LET st == SkipWs(st0) IN
  IF ~Have(st) THEN Err(st, EIncomplete("case", miss, "esac", Pos(st)))
  ELSE Bind(Word(st), LAMBDA r :
    IF r.v = <<>> THEN Unexpected(r.st)
    ELSE LET ps == pats \o r.v
             k == Peek(r.st)
         IN CASE k = "Pipe" -> CasePats(Adv(r.st, 1), ps, miss)
              [] k = "ParenClose" -> Ok(Adv(r.st, 1), ps)
              [] k = "EOF" -> Err(r.st, EIncomplete("case", miss, "esac", Pos(r.st)))
              [] OTHER -> Unexpected(r.st))

CaseArms(st, c) ==     \* c: [start, arms]; value <<arms, comments before esac>>
  LET pre == Linebreak(st)
      es == PeekRW(pre.st, <<"esac">>)
      Finish(s, arms, before) ==
        LET lb == Linebreak(s)
        IN Bind(NeedKw(lb.st, <<"esac">>, "case", c.start, "esac"), LAMBDA z : Ok(z.st, <<arms, before \o lb.v>>))
  IN IF es.v # "" THEN Finish(es.st, c.arms, pre.v)
     ELSE
     LET s1 == IF Peek(es.st) = "ParenOpen" THEN Adv(es.st, 1) ELSE es.st
     IN Bind(CasePats(s1, <<>>, c.start), LAMBDA p :
          LET pc == NewlineOp(p.st)
          IN Bind(GroupLoop(pc.st, [UntilW(<<"esac">>) EXCEPT !.et = {"DSemi"}], <<>>), LAMBDA g :
               LET more == Peek(g.st) = "DSemi"
                   ac == IF more THEN NewlineOp(Adv(g.st, 1)) ELSE [st |-> g.st, v |-> <<>>]
                   arms == Append(c.arms, <<pre.v, p.v, pc.v, g.v, ac.v>>)
               IN IF more THEN CaseArms(ac.st, [c EXCEPT !.arms = arms]) ELSE Finish(ac.st, arms, <<>>)))

Case(st0) ==     \* value <<word, comments, in comment, arms, comments before esac>>
  LET st == SkipWs(st0) IN
  Bind(NeedW(st, <<"case">>), LAMBDA a :
    Bind(Word(a.st), LAMBDA w :
      IF w.v = <<>> THEN Unexpected(w.st)
      ELSE LET lb == Linebreak(w.st)
           IN Bind(NeedKw(lb.st, <<"in">>, "case", Pos(st), "in"), LAMBDA n :
                LET ic == NewlineOp(n.st)
                IN Bind(CaseArms(ic.st, [start |-> Pos(st), arms |-> <<>>]), LAMBDA r :
                     Ok(r.st, <<w.v[1], lb.v, ic.v, r.v[1], r.v[2]>>)))))

(* [st, v]: which compound command starts here ("" for none).              *)
CompoundKind(st0) ==
  LET st == SkipWs(st0)
      b == PeekRT(st, << <<"CurlyOpen", "{">> >>)
      w == PeekRW(b.st, <<"for", "case", "if", "while", "until">>)
  IN IF Peek(st) = "ParenOpen" THEN [st |-> st, v |-> "("]
     ELSE IF b.v # <<>> THEN [st |-> b.st, v |-> "{"]
     ELSE w

Compound(st, kind) ==
  LET With(r, Ev(_, _)) == Bind(r, LAMBDA b : Bind(RedirectList(b.st, <<>>), LAMBDA io : Emit(io.st, Ev(b.v, io.v))))
  IN CASE kind = "if" -> With(If(st), LAMBDA v, io : <<"if", v[1], v[2], io>>)
       [] kind \in {"while", "until"} -> With(Loop(st), LAMBDA v, io : <<"loop", v[1], v[2], v[3], io>>)
       [] kind = "for" -> With(For(st), LAMBDA v, io : <<"for", v[1], v[2], v[3], v[4], v[5], io>>)
       [] kind = "case" -> With(Case(st), LAMBDA v, io : <<"case", v[1], v[2], v[3], v[4], v[5], io>>)
       [] kind = "{" -> With(BraceGroup(st), LAMBDA v, io : <<"brace", v, io>>)
       [] kind = "(" -> With(Subshell(st, FALSE), LAMBDA v, io : <<"subshell", v, io>>)
       [] kind = "" -> Unexpected(st)
CompoundCommand(st) == LET k == CompoundKind(st) IN Compound(k.st, k.v)

FnDecl(st0) ==
  LET f == PeekRW(st0, <<"function">>)
      fn == f.v # ""
      st == SkipWs(IF fn THEN Adv(f.st, 1) ELSE f.st)
      k == Peek(st)
      Unit0(s) == Ok(s, <<>>)
      Parens(s) == Bind(Eat(s, "ParenOpen"), LAMBDA a : Bind(Eat(SkipWs(a.st), "ParenClose"), LAMBDA b : Ok(b.st, <<>>)))
  IN IF k = "Literal" THEN Err(Adv(st, 1), EBadIdent(Tok(st).s, Pos(st)))
     ELSE IF k # "Name" THEN Unexpected(st)
     ELSE
     LET s1 == Adv(st, 1)
         header ==       \* <<>>, or <<body>> when a subshell directly follows
           IF Peek(s1) = "ParenOpen" THEN Parens(s1)
           ELSE IF fn /\ Peek(s1) = "Newline" THEN Ok(s1, <<>>)
           ELSE IF SkipWs(s1).i = s1.i THEN Unexpected(s1)
           ELSE LET s2 == SkipWs(s1)
                IN IF ~fn \/ (Peek(s2) = "ParenOpen" /\ KindAt(s2.ts, SkipBlank(s2.ts, s2.i + 1)) = "ParenClose")
                   THEN Parens(s2)
                   ELSE IF Peek(s2) # "ParenOpen" THEN Ok(s2, <<>>)
                   ELSE Bind(Subshell(s2, FALSE), LAMBDA g :
                          Bind(RedirectList(g.st, <<>>), LAMBDA io :
                                 Bind(Emit(io.st, <<"subshell", g.v, io.v>>), LAMBDA b : Ok(b.st, <<b.v>>))))
     IN Bind(header, LAMBDA h :
          IF h.v # <<>> THEN Emit(h.st, <<"fn", Tok(st).s, <<>>, h.v[1]>>)
          ELSE LET lb == Linebreak(h.st)
               IN Bind(CompoundCommand(lb.st), LAMBDA b : Emit(b.st, <<"fn", Tok(st).s, lb.v, b.v>>)))

MaybeFn(st0) ==     \* value <<>> or <<id>>
  LET f == PeekRW(st0, <<"function">>)
      st == f.st
      isFn == /\ Peek(st) = "Name"
              /\ KindAt(st.ts, SkipBlank(st.ts, st.i + 1)) = "ParenOpen"
  IN IF f.v # "" \/ isFn THEN Bind(FnDecl(st), LAMBDA r : Ok(r.st, <<r.v>>)) ELSE Ok(st, <<>>)

Command(st) ==
  LET k == CompoundKind(st)
  IN IF k.v # "" THEN Bind(Compound(k.st, k.v), LAMBDA r : Emit(r.st, <<"pipeable", r.v>>))
     ELSE Bind(MaybeFn(k.st), LAMBDA r : IF r.v # <<>> THEN Ok(r.st, r.v[1]) ELSE SimpleCommand(r.st))

(* --- arithmetic --------------------------------------------------------------*)
(* Binary operators by level, loosest first; each level is left-assoc.     *)
ArOps == << [OrIf |-> "lor"], [AndIf |-> "land"], [Pipe |-> "bor"], [Caret |-> "bxor"], [Amp |-> "band"],
            [Equals |-> "eq", Bang |-> "ne"], [Less |-> "lt", Great |-> "gt"],
            [DLess |-> "shl", DGreat |-> "shr"], [Plus |-> "add", Dash |-> "sub"],
            [Star |-> "mul", Slash |-> "div", Percent |-> "mod"] >>
AssignOps == [ k \in {"Star","Slash","Percent","Plus","Dash","DLess","DGreat","Amp","Pipe","Caret"} |->
  CASE k = "Star" -> "mul" [] k = "Slash" -> "div" [] k = "Percent" -> "mod" [] k = "Plus" -> "add"
    [] k = "Dash" -> "sub" [] k = "DLess" -> "shl" [] k = "DGreat" -> "shr" [] k = "Amp" -> "band"
    [] k = "Pipe" -> "bor" [] k = "Caret" -> "bxor" ]

ArSeq(st, acc) ==
  Bind(ArAssign(SkipWs(st)), LAMBDA r :
    IF Peek(r.st) = "Comma" THEN ArSeq(Adv(r.st, 1), Append(acc, r.v))
    ELSE Ok(r.st, IF acc = <<>> THEN r.v ELSE <<"seq", Append(acc, r.v)>>))

RECURSIVE SkipKind(_, _, _)
SkipKind(ts, i, k) == IF i <= Len(ts) /\ ts[i].k = k THEN SkipKind(ts, i + 1, k) ELSE i
ArVar(st0) ==
  LET st == SkipWs(st0)
      s == IF Peek(st) = "Dollar" THEN Adv(st, 1) ELSE st
  IN IF Peek(s) = "Name" THEN Ok(Adv(s, 1), Tok(s).s) ELSE Unexpected(s)

ArAssign(st0) ==
  LET st == SkipWs(st0)
      ts == st.ts
      n == SkipKind(ts, st.i, "Dollar")
      o == SkipBlank(ts, n + 1)
      assign == /\ KindAt(ts, n) = "Name"
                /\ \/ KindAt(ts, o) \in DOMAIN AssignOps /\ KindAt(ts, o + 1) = "Equals"
                   \/ KindAt(ts, o) = "Equals" /\ KindAt(ts, o + 1) # "Equals"
  IN IF ~assign THEN ArTern(st)
     ELSE Bind(ArVar(st), LAMBDA v :
            LET s == SkipWs(v.st)
                k == Peek(s)
                r == IF k = "Equals" THEN ArAssign(Adv(s, 1)) ELSE ArAssign(Adv(s, 2))
            IN Bind(r, LAMBDA e : Ok(e.st, <<"assign", v.v,
                 IF k = "Equals" THEN e.v ELSE <<AssignOps[k], <<"var", v.v>>, e.v>> >>)))

ArTern(st) ==
  Bind(ArLvl(st, 1), LAMBDA g :
    LET s == SkipWs(g.st)
    IN IF Peek(s) # "Question" THEN Ok(s, g.v)
       ELSE Bind(ArSeq(Adv(s, 1), <<>>), LAMBDA b :
              Bind(Eat(SkipWs(b.st), "Colon"), LAMBDA c :
                Bind(ArTern(c.st), LAMBDA e : Ok(e.st, <<"tern", g.v, b.v, e.v>>)))))

ArNext(st, l) == IF l = Len(ArOps) THEN ArPow(st) ELSE ArLvl(st, l + 1)
ArLvl(st, l) == Bind(ArNext(st, l), LAMBDA r : ArLoop(r.st, l, r.v))
ArLoop(st0, l, left) ==
  LET st == SkipWs(st0)
      k == Peek(st)
  IN IF l = 8 /\ k = "DLessDash"       \* a<<-b: the dash belongs to b
     THEN Bind(ArNext(SplitTok(st, 2, "Dash"), l), LAMBDA r : ArLoop(r.st, l, <<"shl", left, r.v>>))
     ELSE IF k \notin DOMAIN ArOps[l] THEN Ok(st, left)
     ELSE LET op == ArOps[l][k]
              or == IF PeekN(st, 1) = "Equals" /\ l = 7 THEN 2 ELSE 1
              s == IF l = 6 THEN Eat(Adv(st, 1), "Equals") ELSE Ok(Adv(st, or), <<>>)
              tag == IF or = 2 THEN (IF op = "lt" THEN "le" ELSE "ge") ELSE op
          IN Bind(s, LAMBDA a : Bind(ArNext(a.st, l), LAMBDA r : ArLoop(r.st, l, <<tag, left, r.v>>)))

ArPow(st) ==
  Bind(ArUnary(st), LAMBDA r :
    LET s == SkipWs(r.st)
    IN IF Peek(s) = "Star" /\ PeekN(s, 1) = "Star"
       THEN Bind(ArPow(Adv(s, 2)), LAMBDA e : Ok(e.st, <<"pow", r.v, e.v>>))
       ELSE Ok(s, r.v))

ArUnary(st0) ==
  LET st == SkipWs(st0)
      k == Peek(st)
      n == PeekN(st, 1)
      Un(d, F(_)) == Bind(ArUnary(Adv(st, d)), LAMBDA r : Ok(r.st, F(r.v)))
      Vr(tag) == Bind(ArVar(Adv(st, 2)), LAMBDA r : Ok(r.st, <<tag, r.v>>))
  IN CASE k = "Bang"  -> Un(1, LAMBDA v : <<"not", v>>)
       [] k = "Tilde" -> Un(1, LAMBDA v : <<"bnot", v>>)
       [] k = "Plus"  -> IF n = "Plus" THEN Vr("preinc") ELSE Un(1, LAMBDA v : <<"uplus", v>>)
       [] k = "Dash"  -> IF n = "Dash" THEN Vr("predec") ELSE Un(1, LAMBDA v : <<"uminus", v>>)
       [] OTHER -> ArPost(st)

ArNumber(s) ==
  IF StartsWith(s, "0x") \/ StartsWith(s, "0X")
  THEN (IF Len(s) = 2 THEN <<"0">> ELSE ParseNum(From(s, 3), HexDigits, 16, MaxI64))
  ELSE IF StartsWith(s, "0") THEN ParseNum(s, OctDigits, 8, MaxI64)
  ELSE ParseNum(s, DigitChars, 10, MaxI64)

ArPost(st0) ==
  LET st == SkipWs(st0)
      num == IF Peek(st) = "Literal" THEN ArNumber(Tok(st).s) ELSE <<>>
  IN IF Peek(st) = "ParenOpen"
     THEN Bind(ArSeq(Adv(st, 1), <<>>), LAMBDA r :
            Bind(Eat(SkipWs(r.st), "ParenClose"), LAMBDA z : Ok(z.st, r.v)))
     ELSE IF num # <<>> THEN Ok(Adv(st, 1), <<"num", num[1]>>)
     ELSE Bind(ArVar(st), LAMBDA v :
            LET s == SkipWs(v.st)
                k == Peek(s)
            IN IF k = "Plus" /\ PeekN(s, 1) = "Plus" THEN Ok(Adv(s, 2), <<"postinc", v.v>>)
               ELSE IF k = "Dash" /\ PeekN(s, 1) = "Dash" THEN Ok(Adv(s, 2), <<"postdec", v.v>>)
               ELSE Ok(s, <<"var", v.v>>))
=============================================================================
