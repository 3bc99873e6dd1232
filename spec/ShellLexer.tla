------------------------------ MODULE ShellLexer -----------------------------
(***************************************************************************)
(* The tokens of the shell language and the (declarative) tokenization of  *)
(* a character sequence: longest match, decided by looking ahead only.     *)
(* A token is [k |-> kind, s |-> source text, n |-> bytes, p |-> position, *)
(* o |-> 1-based number in the stream, c |-> characters up to its end].    *)
(***************************************************************************)
EXTENDS ShellText

OpKind == [ x \in {"\n","!","~","#","*","?","%","-","=","+",":","@","^","/",",","\\","'","\"","`",
                   ";","&","|","(",")","{","}","[","]","$","<",">",
                   ";;","&&","||","<<","<<-","<&","<>",">&",">>",">|",
                   "$0","$1","$2","$3","$4","$5","$6","$7","$8","$9"} |->
  CASE x = "\n" -> "Newline"    [] x = "!" -> "Bang"        [] x = "~" -> "Tilde"
    [] x = "#" -> "Pound"       [] x = "*" -> "Star"        [] x = "?" -> "Question"
    [] x = "%" -> "Percent"     [] x = "-" -> "Dash"        [] x = "=" -> "Equals"
    [] x = "+" -> "Plus"        [] x = ":" -> "Colon"       [] x = "@" -> "At"
    [] x = "^" -> "Caret"       [] x = "/" -> "Slash"       [] x = "," -> "Comma"
    [] x = "\\" -> "Backslash"  [] x = "'" -> "SingleQuote" [] x = "\"" -> "DoubleQuote"
    [] x = "`" -> "Backtick"    [] x = ";" -> "Semi"        [] x = "&" -> "Amp"
    [] x = "|" -> "Pipe"        [] x = "(" -> "ParenOpen"   [] x = ")" -> "ParenClose"
    [] x = "{" -> "CurlyOpen"   [] x = "}" -> "CurlyClose"  [] x = "[" -> "SquareOpen"
    [] x = "]" -> "SquareClose" [] x = "$" -> "Dollar"      [] x = "<" -> "Less"
    [] x = ">" -> "Great"       [] x = ";;" -> "DSemi"      [] x = "&&" -> "AndIf"
    [] x = "||" -> "OrIf"       [] x = "<<" -> "DLess"      [] x = "<<-" -> "DLessDash"
    [] x = "<&" -> "LessAnd"    [] x = "<>" -> "LessGreat"  [] x = ">&" -> "GreatAnd"
    [] x = ">>" -> "DGreat"     [] x = ">|" -> "Clobber"
    [] OTHER -> "ParamPositional" ]
Ops == DOMAIN OpKind
(* A two character operator can only start with one of these.              *)
OpStart == {";", "&", "|", "<", ">", "$"}

IsPlain(c) == c \notin Ops /\ ~IsWsChar(c)

WordDelims == {"Newline","ParenOpen","ParenClose","Semi","Amp","Less","Great","Pipe","AndIf","OrIf",
               "DSemi","DLess","DGreat","GreatAnd","LessAnd","DLessDash","Clobber","LessGreat",
               "Whitespace"}

(* First index >= i that is not a character of the run.                    *)
RECURSIVE WsEnd(_, _)
WsEnd(cs, i) == IF i <= Len(cs) /\ IsWsChar(cs[i]) /\ cs[i] # "\n" THEN WsEnd(cs, i + 1) ELSE i
RECURSIVE NameEnd(_, _)
NameEnd(cs, i) == IF i <= Len(cs) /\ IsNameChar(cs[i]) THEN NameEnd(cs, i + 1) ELSE i
RECURSIVE PlainEnd(_, _)
PlainEnd(cs, i) == IF i <= Len(cs) /\ IsPlain(cs[i]) THEN PlainEnd(cs, i + 1) ELSE i

(* <<kind, index after the token>> of the token starting at i; esc: the    *)
(* previous token is a backslash that is not itself escaped.               *)
TokenAt(cs, i, esc) ==
  LET c == cs[i]
      two == IF i + 1 <= Len(cs) /\ ~esc /\ c \in OpStart THEN c \o cs[i+1] ELSE c
  IN CASE two \in Ops /\ two # c ->
            IF two = "<<" /\ i + 2 <= Len(cs) /\ cs[i+2] = "-" THEN <<"DLessDash", i + 3>>
            ELSE <<OpKind[two], i + 2>>
       [] two \notin Ops \/ two = c ->
            CASE c \in Ops      -> <<OpKind[c], i + 1>>
              [] IsWsChar(c)    -> <<"Whitespace", IF esc THEN i + 1 ELSE WsEnd(cs, i + 1)>>
              [] IsNameStart(c) -> <<"Name", IF esc THEN i + 1 ELSE NameEnd(cs, i + 1)>>
              [] OTHER          -> <<"Literal", IF esc THEN i + 1 ELSE PlainEnd(cs, i + 1)>>

(* Position after a token of kind k with text s and n bytes at p.          *)
AfterTok(p, k, s, n) ==
  LET nl == IF k = "Newline" THEN 1
            ELSE IF k \in {"Name","Literal","Whitespace"} THEN CountNl(s, 1) ELSE 0
  IN <<p[1] + n, p[2] + nl,
        IF nl = 0 THEN p[3] + n
        ELSE 1 + (IF k = "Newline" THEN 0 ELSE Bytes(From(s, LastNl(s, Len(s)) + 1)))>>
(* The lexer's tokens contain a newline only if they are one.              *)
AfterLex(p, k, n) == IF k = "Newline" THEN <<p[1] + 1, p[2] + 1, 1>> ELSE <<p[1] + n, p[2], p[3] + n>>

RECURSIVE LexFrom(_, _, _, _, _, _)
LexFrom(cs, i, esc, p, o, acc) ==
  IF i > Len(cs) THEN [ts |-> acc, e |-> p]
  ELSE LET t == TokenAt(cs, i, esc)
           n == BytesFrom(cs, i, t[2] - 1)
       IN LexFrom(cs, t[2], ~esc /\ t[1] = "Backslash", AfterLex(p, t[1], n), o + 1,
                  Append(acc, [k |-> t[1], s |-> CatFrom(cs, i, t[2] - 1), n |-> n,
                               p |-> p, o |-> o, c |-> t[2] - 1]))

(* The token sequence of cs and the position of its end.                   *)
Lex(cs) == LexFrom(cs, 1, FALSE, Pos0, 1, <<>>)

(* An external token stream given as <<kind, text, bytes>> triples.        *)
RECURSIVE PlaceFrom(_, _, _, _)
PlaceFrom(ks, i, p, acc) ==
  IF i > Len(ks) THEN [ts |-> acc, e |-> p]
  ELSE PlaceFrom(ks, i + 1, AfterTok(p, ks[i][1], ks[i][2], ks[i][3]),
                 Append(acc, [k |-> ks[i][1], s |-> ks[i][2], n |-> ks[i][3], p |-> p, o |-> i, c |-> 0]))
PlaceToks(ks) == PlaceFrom(ks, 1, Pos0, <<>>)
=============================================================================
