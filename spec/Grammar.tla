------------------------------- MODULE Grammar -------------------------------
(***************************************************************************)
(* The shell language as a translation grammar: which texts there are and, *)
(* for each, which builder calls and results it stands for.  It does not   *)
(* know how a parser works; MCGrammar checks that the parser of module     *)
(* ShellParser returns for every derivable text exactly what the grammar   *)
(* says, also when the text is cut off or continued by a token that cannot *)
(* follow.                                                                 *)
(*                                                                         *)
(* A derivation g has                                                      *)
(*   txt   the text so far            hd    here-document lines due at the *)
(*   form  what is still to come            next newline                   *)
(*   stk   values                     up    enclosing contexts             *)
(*   log   builder calls so far       seen  calls made before this result  *)
(*   xs    results so far             ops   open constructs <<label, pos>> *)
(*   n     budget                     glue  what the next text must not be *)
(*   hq    quotes around the here-documents that are due                   *)
(*   mode  "go", "eof" (the source is cut off here), "bad" (no text)       *)
(* Items of a form:                                                        *)
(*   <<"t", text>>                    <<"nl">>: a newline                  *)
(*   <<"h", kind, arg>>: anything of that kind                             *)
(*   <<"a", action, arg>>: compute with the values                         *)
(*   <<"o", text, label>>: opens a construct                               *)
(*   <<"c", text, label, error, then>>: text that is needed now, and what  *)
(*       is reported of the construct if the source ends before it         *)
(*   <<"e">>: something is needed now                                      *)
(*   <<"x", text, error>>: text that is no good                            *)
(***************************************************************************)
EXTENDS DefaultBuilder

T(s) == <<"t", s>>
NL == <<"nl">>
Need == <<"e">>
H(k) == <<"h", k, 0>>
HL(k, l) == <<"h", k, l>>
A(x) == <<"a", x, "">>
B(x, v) == <<"a", x, v>>
O(s, l) == <<"o", s, l>>
C(s, l, e, w) == <<"c", s, l, e, w>>
Inc(cmd, kw) == <<"Incomplete", cmd, kw>>
Unm(k, s) == <<"Unmatched", k, s>>
Push0 == B("push", <<>>)

(* A production: cost, feature it belongs to, kind ("" any time, "eof"     *)
(* if the source is to be cut off, "bad" for errors, "line" only when no here-document is    *)
(* due, "bare" only outside of double quotes), body.                       *)
(* An error: the text, and where in it (offsets of characters).            *)
X(s, e) == << <<"x", s, e>> >>
UnexpAt(k, s, off) == <<"Unexpected", <<k, s>>, off>>
P(c, f, e, b) == [c |-> c, f |-> f, e |-> e, b |-> b]
D(b) == P(0, "", "", b)
E(b) == P(0, "", "", b)

ReservedWords == <<"if", "then", "elif", "else", "fi", "while", "until", "do", "done", "for", "in", "case", "esac",
                   "function", "{", "}", "!">>

(* Arithmetic operators: <<text, tag, level>>; a higher level binds        *)
(* tighter.  Level 1 the comma, 2 assignment, 3 the conditional, 14 power, *)
(* 15 unary, 16 primaries.                                                 *)
BinOps == << <<"||","lor",4>>, <<"&&","land",5>>, <<"|","bor",6>>, <<"^","bxor",7>>, <<"&","band",8>>,
             <<"==","eq",9>>, <<"!=","ne",9>>, <<"<","lt",10>>, <<"<=","le",10>>, <<">","gt",10>>, <<">=","ge",10>>,
             <<"<<","shl",11>>, <<">>","shr",11>>, <<"+","add",12>>, <<"-","sub",12>>,
             <<"*","mul",13>>, <<"/","div",13>>, <<"%","mod",13>> >>
AsgOps == << <<"*=","mul">>, <<"/=","div">>, <<"%=","mod">>, <<"+=","add">>, <<"-=","sub">>,
             <<"<<=","shl">>, <<">>=","shr">>, <<"&=","band">>, <<"^=","bxor">>, <<"|=","bor">> >>
Numbers == << <<"1","1">>, <<"0","0">>, <<"010","8">>, <<"0x1F","31">>, <<"0X1f","31">>, <<"00","0">>,
              <<"9223372036854775807","9223372036854775807">>, <<"0777777777777777777777","9223372036854775807">>,
              <<"0x7fffffffffffffff","9223372036854775807">> >>

(* body at level p where at least level m is needed.                       *)
Par(p, m, b) == IF p < m THEN <<T("(")>> \o b \o <<T(")")>> ELSE b
ArProds(m) ==
  << D(<<T("x"), B("push", <<"var", "x">>)>>) >>
  \o [i \in 1..Len(Numbers) |-> P(1, "arnum", "", <<T(Numbers[i][1]), B("push", <<"num", Numbers[i][2]>>)>>)]
  \o << P(1, "ar", "", <<T("$y"), B("push", <<"var", "y">>)>>),
        P(1, "ar", "", <<T("7"), B("push", <<"num", "7">>)>>),
        P(1, "ar", "", <<T("( "), HL("ar", 1), T(" )")>>),
        P(1, "ar", "", Par(1, m, <<HL("ar", 2), A("list"), T(","), HL("ar", 2), A("app"), H("arseq"), A("seq")>>)),
        P(1, "ar", "", Par(2, m, <<T("x = "), HL("ar", 2), B("assign", "x")>>)),
        P(1, "ar", "", Par(2, m, <<T("$x="), HL("ar", 2), B("assign", "x")>>)),
        P(1, "ar", "", Par(3, m, <<HL("ar", 4), T(" ? "), HL("ar", 1), T(" : "), HL("ar", 3), B("op3", "tern")>>)),
        P(1, "ar", "", Par(14, m, <<HL("ar", 15), T(" ** "), HL("ar", 14), B("op2", "pow")>>)),
        P(1, "ar", "", Par(15, m, <<T("- "), HL("ar", 15), B("op1", "uminus")>>)),
        P(1, "ar", "", Par(15, m, <<T("+ "), HL("ar", 15), B("op1", "uplus")>>)),
        P(1, "ar", "", Par(15, m, <<T("!"), HL("ar", 15), B("op1", "not")>>)),
        P(1, "ar", "", Par(15, m, <<T("~"), HL("ar", 15), B("op1", "bnot")>>)),
        P(1, "ar", "", Par(15, m, <<T("-x"), B("push", <<"uminus", <<"var", "x">> >>)>>)),
        P(1, "ar", "", Par(15, m, <<T("-+x"), B("push", <<"uminus", <<"uplus", <<"var", "x">> >> >>)>>)),
        P(1, "ar", "", Par(15, m, <<T("+- "), HL("ar", 15), B("op1", "uminus"), B("op1", "uplus")>>)),
        P(1, "ar", "", Par(15, m, <<T("++x"), B("push", <<"preinc", "x">>)>>)),
        P(1, "ar", "", Par(15, m, <<T("--$x"), B("push", <<"predec", "x">>)>>)),
        P(1, "ar", "", Par(16, m, <<T("x++"), B("push", <<"postinc", "x">>)>>)),
        P(1, "ar", "", Par(16, m, <<T("x --"), B("push", <<"postdec", "x">>)>>)) >>
  \o [i \in 1..Len(BinOps) |->
        LET o == BinOps[i]
        IN P(1, IF i \in {1, 6, 9, 13, 15, 18} THEN "ar" ELSE "arall", "",
             Par(o[3], m, <<HL("ar", o[3]), T(" " \o o[1] \o " "), HL("ar", o[3] + 1), B("op2", o[2])>>))]
  \o [i \in 1..Len(AsgOps) |->
        P(1, IF i \in {4, 6} THEN "ar" ELSE "arall", "",
          Par(2, m, <<T("x " \o AsgOps[i][1] \o " "), HL("ar", 2), B("opassign", AsgOps[i][2])>>))]

Specials == << <<"@","at">>, <<"*","star">>, <<"#","pound">>, <<"?","quest">>, <<"-","dash">>, <<"$","dollar">>, <<"!","bang">> >>
(* Parameters that can stand between braces: <<text, value>>.              *)
BraceParams == << <<"x", <<"var", "x">> >>, <<"@", <<"at">> >>, <<"1", <<"pos", "1">> >>, <<"10", <<"pos", "10">> >>,
                  <<"4294967295", <<"pos", "4294967295">> >>, <<"007", <<"pos", "7">> >>,
                  <<"_a1", <<"var", "_a1">> >>, <<"*", <<"star">> >>, <<"?", <<"quest">> >>, <<"-", <<"dash">> >>,
                  <<"$", <<"dollar">> >>, <<"!", <<"bang">> >> >>
OpWords == << <<"-", "def">>, <<"=", "asg">>, <<"?", "err">>, <<"+", "alt">> >>
Rems == << <<"%", "rss">>, <<"%%", "rls">>, <<"#", "rsp">>, <<"##", "rlp">> >>

BadSubstAt(k, s, off) == <<"BadSubst", <<k, s>>, off>>
BadSubsts == << <<"${}", BadSubstAt("CurlyClose", "}", 2)>>, <<"${x y}", BadSubstAt("Whitespace", " ", 3)>>,
                <<"${x:}", BadSubstAt("CurlyClose", "}", 4)>>, <<"${x:%b}", BadSubstAt("Percent", "%", 4)>>,
                <<"${1a}", BadSubstAt("Literal", "1a", 2)>>, <<"${=}", BadSubstAt("Equals", "=", 2)>>,
                <<"${x!}", BadSubstAt("Bang", "!", 3)>>, <<"${*@}", BadSubstAt("At", "@", 3)>>,
                <<"${4294967296}", BadSubstAt("Literal", "4294967296", 2)>>, <<"${\"x\"}", BadSubstAt("DoubleQuote", "\"", 2)>>,
                <<"${#x-a}", UnexpAt("Dash", "-", 4)>>, <<"${", <<"EOF">> >>, <<"${#", <<"EOF">> >>, <<"${x", Unm("CurlyOpen", "{")>>,
                <<"$(;", UnexpAt("Semi", ";", 2)>>, <<"$((1 2", UnexpAt("Literal", "2", 5)>>, <<"$(( (1 ]", UnexpAt("SquareClose", "]", 7)>>,
                <<"$((0x", <<"EOF">> >>, <<"$((1+", <<"EOF">> >>, <<"$((08", UnexpAt("Literal", "08", 3)>>,
                <<"$((1=2", UnexpAt("Literal", "2", 5)>> >>
BadFds == << <<"x", 1>>, <<"1x", 2>>, <<"\"x\"", 3>>, <<"1$x-", 4>>, <<"2'x'", 4>>, <<"--", 2>>, <<"*", 1>> >>
BadCmds == << <<"f() b", UnexpAt("Name", "b", 4)>>, <<"function 1", <<"BadIdent", "1", 9>> >>, <<"function ;", UnexpAt("Semi", ";", 9)>>,
              <<"function a-", UnexpAt("Dash", "-", 10)>>, <<"f( a", UnexpAt("Name", "a", 3)>>, <<"f()\n)", UnexpAt("ParenClose", ")", 4)>>,
              <<";", UnexpAt("Semi", ";", 0)>>, <<"&", UnexpAt("Amp", "&", 0)>>, <<"|", UnexpAt("Pipe", "|", 0)>>,
              <<"&&", UnexpAt("AndIf", "&&", 0)>>, <<"||", UnexpAt("OrIf", "||", 0)>>,
              <<"{ }", UnexpAt("CurlyClose", "}", 2)>>, <<"( )", UnexpAt("ParenClose", ")", 2)>>,
              <<"for 1 in", <<"BadIdent", "1", 4>> >>, <<"for \"a\"", UnexpAt("DoubleQuote", "\"", 4)>>, <<"for\n;", UnexpAt("Newline", "\n", 3)>>,
              <<"if then", UnexpAt("Name", "then", 3)>>, <<"while do", UnexpAt("Name", "do", 6)>>, <<"if ;", UnexpAt("Semi", ";", 3)>>,
              <<"case ;", UnexpAt("Semi", ";", 5)>>, <<">\n", UnexpAt("Newline", "\n", 1)>>, <<"<;", UnexpAt("Semi", ";", 1)>>,
              <<"<< &", UnexpAt("Amp", "&", 3)>>, <<"<<-|", UnexpAt("Pipe", "|", 3)>>, <<">>(", UnexpAt("ParenOpen", "(", 2)>>,
              <<">& ;", UnexpAt("Semi", ";", 3)>> >>
(* Expansions; each leaves a simple word.                                  *)
Close == C("}", "${", Unm("CurlyOpen", "{"), "pop")
ParamProds ==
  << D(<<T("$x"), B("push", <<"param", <<"var", "x">> >>), B("glue", "x")>>),
     P(1, "param", "", <<T("$1"), B("push", <<"param", <<"pos", "1">> >>)>>) >>
  \o [i \in 1..Len(Specials) |-> P(1, "param", "", <<T("$" \o Specials[i][1]), B("push", <<"param", <<Specials[i][2]>> >>)>>)]
  \o [i \in 1..Len(BraceParams) |->
        P(1, IF i <= 3 THEN "param" ELSE "paramall", "",
          <<T("$"), O("{", "${"), T(BraceParams[i][1]), Close, B("push", <<"param", BraceParams[i][2]>>)>>)]
  \o [i \in 1..Len(BraceParams) |->
        P(1, IF i <= 2 THEN "param" ELSE "paramall", "",
          <<T("$"), O("{", "${"), T("#" \o BraceParams[i][1]), T("}"), B("pop", ""), B("push", <<"sub", <<"len", BraceParams[i][2]>> >>)>>)]
  \o << P(1, "param", "", <<T("${#}"), B("push", <<"param", <<"pound">> >>)>>),
        P(1, "param", "", <<T("${##}"), B("push", <<"sub", <<"len", <<"pound">> >> >>)>>),
        P(1, "param", "", <<T("${#?}"), B("push", <<"sub", <<"len", <<"quest">> >> >>)>>),
        P(1, "param", "", <<T("${#-}"), B("push", <<"sub", <<"len", <<"dash">> >> >>)>>),
        P(1, "paramall", "", <<T("${#$}"), B("push", <<"sub", <<"len", <<"dollar">> >> >>)>>),
        P(1, "paramall", "", <<T("${#!}"), B("push", <<"sub", <<"len", <<"bang">> >> >>)>>),
        P(1, "param", "", <<T("$"), O("{", "${"), T("#:-"), B("push", <<"pound">>), H("operand"), Close, B("subst", <<"def", TRUE>>)>>),
        P(1, "param", "", <<T("$"), O("{", "${"), T("#-"), B("push", <<"pound">>), H("operand1"), Close, B("subst", <<"def", FALSE>>)>>),
        P(1, "param", "", <<T("$"), O("{", "${"), T("##"), B("push", <<"pound">>), H("operand1"), Close, B("rem", "rsp")>>),
        P(1, "paramall", "", <<T("$"), O("{", "${"), T("###"), B("push", <<"pound">>), H("operand"), Close, B("rem", "rlp")>>),
        P(1, "paramall", "", <<T("$"), O("{", "${"), T("#%"), B("push", <<"pound">>), H("operand"), Close, B("rem", "rss")>>),
        P(1, "paramall", "", <<T("$"), O("{", "${"), T("#?"), B("push", <<"pound">>), H("operand1"), Close, B("subst", <<"err", FALSE>>)>>),
        P(1, "paramall", "", <<T("$"), O("{", "${"), T("#+"), B("push", <<"pound">>), H("operand"), Close, B("subst", <<"alt", FALSE>>)>>),
        P(1, "paramall", "", <<T("$"), O("{", "${"), T("#="), B("push", <<"pound">>), H("operand"), Close, B("subst", <<"asg", FALSE>>)>>) >>
  \o [i \in 1..8 |-> LET o == OpWords[(i + 1) \div 2]
                     IN P(1, IF i \in {1, 4} THEN "param" ELSE "paramall", "",
                          <<T("$"), O("{", "${"), T("x" \o (IF i % 2 = 1 THEN ":" ELSE "") \o o[1]), B("push", <<"var", "x">>),
                            H("operand"), Close, B("subst", <<o[2], i % 2 = 1>>)>>)]
  \o [i \in 1..4 |-> P(1, IF i \in {2, 3} THEN "param" ELSE "paramall", "",
                       <<T("$"), O("{", "${"), T("@" \o Rems[i][1]), B("push", <<"at">>), H("operand"), Close, B("rem", Rems[i][2])>>)]
  \o << P(1, "paramall", "", <<T("$"), O("{", "${"), T("x%"), B("push", <<"var", "x">>), H("operand1"), Close, B("rem", "rss")>>) >>
  \o << P(1, "cmdsub", "", <<T("$"), O("(", "$("), B("glue", "("), H("cg0"), C(")", "$(", Unm("ParenOpen", "("), "pop"), A("cmdsub")>>),
        P(1, "bt", "", <<B("begin", "`"), H("cgbt"), A("btend"), A("cmdbt")>>),
        P(1, "bt", "", <<B("begin", "`"), H("cgbt"), A("btendall"), A("cmdbt")>>),
        P(1, "ar", "", <<T("$(( "), HL("ar", 1), T(" ))"), A("arith")>>),
        P(1, "ar", "", <<T("$((  ))"), B("push", <<"sub", <<"arith", <<>> >> >>)>>) >>
  \o [i \in 1..Len(BadSubsts) |-> P(1, "badsubst", "bad", X(BadSubsts[i][1], BadSubsts[i][2]))]

(* Pieces of a word, appended to the list of pieces on top.                *)
Lits == <<"1", "-", "@", "^", "/", ",", "+", "%", "_b", ".">>
OddLits == <<"{", "}", "!", "#", "=">>
Globs == << <<"*","star">>, <<"?","quest">>, <<"[","sqo">>, <<"]","sqc">>, <<"~","tilde">>, <<":","colon">> >>
EscChars == <<"a", "\\", "$", " ", "'", "\"", "`", ";", "#", "&", "1", "|", "(", "*", "~">>
PieceProds ==
  << D(<<T("a"), B("piece", Lit("a"))>>) >>
  \o [i \in 1..Len(Lits) |-> P(1, IF i <= 2 THEN "lit" ELSE "litall", "", <<T(Lits[i]), B("piece", Lit(Lits[i]))>>)]
  \o [i \in 1..Len(Globs) |-> P(1, IF i \in {1, 5} THEN "glob" ELSE "globall", "", <<T(Globs[i][1]), B("piece", <<Globs[i][2]>>)>>)]
  \o [i \in 1..Len(EscChars) |-> P(1, IF i <= 4 THEN "esc" ELSE "escall", "", <<T("\\" \o EscChars[i]), B("piece", <<"esc", EscChars[i]>>)>>)]
  \o << P(1, "sq", "", <<T("'a '"), B("word1", <<"Q", "a ">>)>>),
        P(1, "sq", "", <<T("''"), B("word1", <<"Q", "">>)>>),
        P(1, "sq", "", <<O("'", "'"), T("\\\"$x#;"), C("'", "'", Unm("SingleQuote", "'"), "pop"), B("word1", <<"Q", "\\\"$x#;">>)>>),
        P(1, "sqnl", "line", <<T("'a\nb'"), B("word1", <<"Q", "a\nb">>)>>),
        P(1, "dq", "", <<O("\"", "\""), Push0, H("dqs"), C("\"", "\"", Unm("DoubleQuote", "\""), "pop"), A("dq")>>),
        P(1, "word$", "", <<T("$"), B("piece", Lit("$")), B("glue", "$")>>),
        P(1, "params", "", <<H("param"), A("pieceof")>>) >>
LaterPieces == PieceProds \o [i \in 1..Len(OddLits) |-> P(1, "litall", "", <<T(OddLits[i]), B("piece", Lit(OddLits[i]))>>)]

DqLits == <<" ", "'", "#", ";", "*", "~", "(", "}", "|", "<", "&">>
DqProds ==
  << D(<<T("a"), B("simple", Lit("a"))>>),
     P(1, "dqesc", "", <<T("\\$"), B("simple", <<"esc", "$">>)>>),
     P(1, "dqesc", "", <<T("\\\\"), B("simple", <<"esc", "\\">>)>>),
     P(1, "dqesc", "", <<T("\\a"), B("simple", Lit("\\a"))>>),
     P(1, "dqescall", "", <<T("\\\""), B("simple", <<"esc", "\"">>)>>),
     P(1, "dqescall", "", <<T("\\`"), B("simple", <<"esc", "`">>)>>),
     P(1, "dqescall", "line", <<T("\\\n"), B("simple", <<"esc", "\n">>)>>),
     P(1, "dqescall", "", <<T("$ "), B("simple", Lit("$ "))>>),
     P(1, "sqnl", "line", <<T("b\nc"), B("simple", Lit("b\nc"))>>),
     P(1, "params", "", <<H("param"), A("simpleof")>>) >>
  \o [i \in 1..Len(DqLits) |-> P(1, IF i <= 3 THEN "dqlit" ELSE "dqlitall", "", <<T(DqLits[i]), B("simple", Lit(DqLits[i]))>>)]

(* Lines of a here-document with expansions, and without.                  *)
HereProds ==
  << D(<<T("a\n"), B("simple", Lit("a\n"))>>),
     P(1, "here", "", <<T(" \" ' E #\n"), B("simple", Lit(" \" ' E #\n"))>>),
     P(1, "here", "", <<T("\\$x\\"), B("simple", <<"esc", "$">>), B("simple", Lit("x")), T("\n"), B("simple", <<"esc", "\n">>)>>),
     P(1, "hereall", "", <<T("\\a\\\\\n"), B("simple", Lit("\\a")), B("simple", <<"esc", "\\">>), B("simple", Lit("\n"))>>),
     P(1, "hereall", "", <<T("\n"), B("simple", Lit("\n"))>>),
     P(1, "hereall", "", <<T("E E\n"), B("simple", Lit("E E\n"))>>),
     P(1, "here", "", <<T("b"), B("simple", Lit("b")), H("param"), A("simpleof"), T("\n"), B("simple", Lit("\n"))>>) >>
RawLines == << <<"a\n", "">>, <<"$x `\n", "rawall">>, <<"\\\n", "rawall">>, <<"\" '\n", "rawall">>, <<" E\n", "rawall">>, <<"\n", "rawall">> >>
TabLines == << <<"\ta\n", "a\n">>, <<"\t\t b\tc\n", " b\tc\n">>, <<" \td\n", " \td\n">>, <<"$(a)\n", "$(a)\n">> >>
Delims == << <<"'E'", "E">>, <<"\\E", "E">>, <<"\"E\"", "E">>, <<"E''", "E">>, <<"'E F'", "E F">>, <<"\"\\$E\"", "$E">> >>

Names == <<"f", "_1", "done2", "in">>
FnHeads == << <<"", "()">>, <<"", " ( )">>, <<"", "\t()">>, <<"function ", " ">>, <<"function ", "()">>, <<"function  ", "( )">> >>

SepTail(sep) == << B("complete", sep), A("app"), Push0 >>
(* k: what the group ends with: "K" a keyword, "P" a parenthesis or        *)
(* backquote, "A" the end of a case arm.                                   *)
SepProds(k) ==
  << P(IF k = "P" THEN 1 ELSE 0, "semi", "", <<T(";"), Push0>> \o SepTail("semi") \o <<T(" "), H("more0" \o k)>>),
     P(1, "amp", "", <<T(" &"), Push0>> \o SepTail("amp") \o <<T(" "), H("more0" \o k)>>),
     P(1, "semi", "", <<T(" ;"), H("nl1")>> \o SepTail("semi") \o <<H("lb"), H("more" \o k)>>),
     P(1, "amp", "", <<T("&"), H("nl1")>> \o SepTail("amp") \o <<H("lb"), H("more" \o k)>>),
     P(1, "line", "", <<H("nl1")>> \o SepTail("newline") \o <<H("lb"), H("more" \o k)>>),
     P(0, "", IF k = "K" THEN "eof" ELSE "", <<Push0>> \o SepTail("other") \o (IF k = "A" THEN <<A("cg"), H("armend;")>> ELSE <<>>)) >>
Ends(k) == IF k = "A" THEN <<A("cg"), H("armend")>> ELSE <<>>

IfKw == Inc("if", "fi")
Compounds ==
  << D(<<O("{ ", "{"), H("cgK"), C("}", "{", Unm("CurlyOpen", "{"), "pop"), Push0, H("redirs"), A("brace")>>),
     P(1, "compound", "", <<O("(", "("), H("cgP"), C(")", "(", Unm("ParenOpen", "("), "pop"), Push0, H("redirs"), A("subshell")>>),
     P(1, "compound", "", <<O("while ", "while"), H("cgK"), C("do ", "while", Inc("while", "do"), "do"), H("cgK"),
                            C("done", "do", Inc("do", "done"), "pop"), Push0, H("redirs"), B("loop", "while")>>),
     P(1, "loops", "", <<O("until ", "while"), H("cgK"), C("do ", "while", Inc("until", "do"), "do"), H("cgK"),
                         C("done", "do", Inc("do", "done"), "pop"), Push0, H("redirs"), B("loop", "until")>>),
     P(1, "compound", "", <<O("if ", "if"), Push0, H("cgK"), C("then ", "if", Inc("if", "then"), ""), H("cgK"), A("cond"),
                            H("iftail"), Push0, H("redirs"), A("if")>>),
     P(1, "compound", "", <<O("for ", "for"), Need, H("forname"), H("forhead"), H("redirs"), A("for")>>),
     P(1, "compound", "", <<O("case ", "case"), Need, H("word"), Push0, H("lbsp"),
                            C(" in", "case", Inc("case", "in"), ""), H("afterin"), Push0, H("redirs"), A("case")>>) >>

Body == <<H("cgK"), C("done", "do", Inc("do", "done"), "pop")>>
ForInDo == C("do ", "for", Inc("for", "in"), "do")
ForDo == C("do ", "for", Inc("for", "do"), "do")
(* After the variable: stack var; to leave var, comment, words, comments, body, <<>>. *)
ForHeads ==
  << P(0, "", "", <<Push0, Push0, C(" in ", "for", Inc("for", "in"), ""), Push0, H("words")>> \o
                     <<H("forsep")>> \o <<ForDo>> \o Body \o <<Push0>>),
     P(1, "for", "", <<T(" "), H("nl1"), Push0, H("lb"), C("in ", "for", Inc("for", "in"), ""), Push0, H("words")>> \o
                     <<H("forsep")>> \o <<ForDo>> \o Body \o <<Push0>>),
     P(1, "for", "", <<Push0, Push0, Push0, T(" "), ForInDo>> \o Body \o <<Push0>>),
     P(1, "for", "", <<Push0, Push0, Push0, T(" ;"), H("lb"), T(" "), ForDo>> \o Body \o <<Push0>>),
     P(1, "for", "", <<H("nl1"), Push0, Push0, H("lb"), ForInDo>> \o Body \o <<Push0>>) >>

CaseErr == Inc("case", "esac")
ArmMore == <<T(" ;;"), H("afterarm")>>
CaseProds ==
  << P(0, "", "", <<C(" esac", "case", CaseErr, "pop")>>),
     P(1, "case", "", <<T(" "), H("pat"), H("pats"), C(")", "case", CaseErr, ""), H("afterpat")>>),
     P(1, "caseall", "", <<T(" ("), H("pat"), H("pats"), C(" )", "case", CaseErr, ""), H("afterpat")>>) >>

Redirs == << <<"<","read">>, <<">","write">>, <<"<>","readwrite">>, <<">>","append">>, <<">|","clobber">> >>
RedirProds ==
  << D(<<Push0, T(">"), Need, H("target"), B("redirect", "write")>>) >>
  \o [i \in 1..5 |-> P(1, IF i \in {1, 4} THEN "redir" ELSE "redirall", "", <<H("fd"), T(Redirs[i][1]), H("gap0"), Need, H("target"), B("redirect", Redirs[i][2])>>)]
  \o << P(1, "redir", "", <<H("fd"), T(">&"), H("gap0"), Need, H("dup"), B("redirect", "dupwrite")>>),
        P(1, "redirall", "", <<H("fd"), T("<&"), H("gap0"), Need, H("dup"), B("redirect", "dupread")>>),
        P(1, "here", "", <<H("fd"), T("<<"), T("E"), B("begin", ""), Push0, H("heres"), B("hdend", "E\n")>>),
        P(1, "tabs", "", <<H("fd"), T("<<-"), H("gap0"), T("E"), B("begin", ""), Push0, H("tabs"), B("hdend", "\tE\n")>>) >>
  \o [i \in 1..Len(Delims) |-> P(1, IF i = 1 THEN "here" ELSE "delims", "",
        <<H("fd"), T("<< " \o Delims[i][1]), B("begin", ""), B("push", ""), H("raws"), B("rawend", Delims[i][2] \o "\n")>>)]

OpWordProds ==
  << D(<<T("w"), B("piece", Lit("w"))>>),
     P(1, "operand", "", <<T(" ;"), B("piece", Lit(" ;"))>>),
     P(1, "operand", "bare", <<T("'}'"), B("word1", <<"Q", "}">>)>>),
     P(1, "operand", "bare", <<T("\\}"), B("piece", <<"esc", "}">>)>>),
     P(1, "operand", "bare", <<O("\"", "\""), Push0, H("dqs"), C("\"", "\"", Unm("DoubleQuote", "\""), "pop"), A("dq")>>),
     P(1, "operand", "", <<H("param"), A("pieceof")>>),
     P(1, "operandall", "", <<T("w#"), B("piece", Lit("w#"))>>),
     P(1, "operandall", "", <<T("*"), B("piece", <<"star">>)>>),
     P(1, "operandall", "", <<T("a<(|&)"), B("piece", Lit("a<(|&)"))>>),
     P(1, "operandall", "line", <<T("w\\\nv"), B("piece", Lit("wv"))>>),
     P(1, "operandall", "line", <<T("\n"), B("piece", Lit("\n"))>>) >>

CallRet(op) == B("ret", op)
(* One construct each for the public entry points.                         *)
Entries ==
  << D(<<H("word"), A("some"), T(" "), CallRet(<<"word">>)>>),
     P(0, "entry", "", <<H("redir"), A("redirret"), T(" "), CallRet(<<"redirect">>)>>),
     P(0, "entry", "", <<Push0, H("redir"), A("app"), H("redirs"), NL, CallRet(<<"redirect_list">>), B("push", << <<"n">> >>), CallRet(<<"newline">>)>>),
     P(0, "entry", "", <<T(" \t"), Push0, CallRet(<<"skip_whitespace">>)>>),
     P(0, "entry", "", <<Push0, H("lb1"), H("lb"), CallRet(<<"linebreak">>), T("a "), B("word0", "a"), A("some"), CallRet(<<"word">>)>>),
     P(0, "entry", "", <<T("if "), B("push", "if"), CallRet(<<"reserved_word", <<"fi", "if">> >>)>>),
     P(0, "entry", "", <<T(" } "), B("push", <<"CurlyClose", "}">>), CallRet(<<"reserved_token", << <<"CurlyOpen", "{">>, <<"CurlyClose", "}">> >> >>)>>),
     P(0, "entry", "", <<B("push", ""), CallRet(<<"peek_reserved_word", <<"nosuch">> >>)>>),
     P(0, "entry", "", <<Push0, CallRet(<<"peek_reserved_token", << <<"Semi", ";">> >> >>)>>),
     P(0, "entry", "", <<H("Simple"), NL, CallRet(<<"simple_command">>), B("push", << <<"n">> >>), CallRet(<<"newline">>)>>),
     P(0, "entry", "", <<H("cmd"), NL, CallRet(<<"command">>), Push0, B("cm", <<"n">>), H("lb"), CallRet(<<"linebreak">>),
                         T("a "), B("word0", "a"), A("some"), CallRet(<<"word">>)>>),
     P(0, "entry", "", <<H("pipeline"), NL, CallRet(<<"pipeline">>), B("push", << <<"n">> >>), CallRet(<<"newline">>)>>),
     P(0, "entry", "", <<H("list"), NL, CallRet(<<"and_or_list">>), B("push", << <<"n">> >>), CallRet(<<"newline">>)>>),
     P(0, "entry", "", <<H("compound"), NL, CallRet(<<"compound_command">>), B("push", << <<"n">> >>), CallRet(<<"newline">>)>>),
     P(0, "entry", "", <<H("fn"), NL, CallRet(<<"function">>), B("push", << <<"n">> >>), CallRet(<<"newline">>)>>),
     P(0, "entry", "", <<H("fn"), NL, A("some"), CallRet(<<"maybe_function">>), B("push", << <<"n">> >>), CallRet(<<"newline">>)>>),
     P(0, "entry", "", <<T("{ "), H("cgK"), T("}"), T(" "), CallRet(<<"brace_group">>)>>),
     P(0, "entry", "", <<Push0, CallRet(<<"skip_whitespace">>), O("(", "("), H("cgP"), T(")"), B("pop", ""), CallRet(<<"subshell">>)>>),
     P(0, "entry", "", <<T("do "), H("cgK"), T("done"), T(" "), CallRet(<<"do_group">>)>>),
     P(0, "entry", "", <<T("until "), H("cgK"), T("do "), H("cgK"), T("done "), B("loopret", "until"), CallRet(<<"loop_command">>)>>),
     P(0, "entry", "", <<O("if ", "if"), Push0, H("cgK"), C("then ", "if", Inc("if", "then"), ""), H("cgK"), A("cond"),
                         H("iftail"), T(" "), A("ifret"), CallRet(<<"if_command">>)>>),
     P(0, "entry", "", <<O("for ", "for"), H("forname"), H("forhead"), T(" "), A("forret"), CallRet(<<"for_command">>)>>),
     P(0, "entry", "", <<O("case ", "case"), H("word"), Push0, H("lbsp"),
                         C(" in", "case", Inc("case", "in"), ""), H("afterin"), T(" "), A("caseret"), CallRet(<<"case_command">>)>>),
     P(0, "entry", "", <<Push0, CallRet(<<"skip_whitespace">>), H("param$"), A("given"), CallRet(<<"parameter">>)>>),
     P(0, "entry", "", <<Push0, CallRet(<<"skip_whitespace">>), B("begin", "`"), H("cgbt"), A("btend"), A("cmdbt"), A("given"), CallRet(<<"backticked">>)>>),
     P(0, "entry", "", <<H("cgK"), T("fi "), CallRet(<<"command_group", <<>>, <<"fi">>, <<>> >>), B("push", "fi"), CallRet(<<"reserved_word", <<"fi">> >>)>>),
     P(0, "entryar", "", <<HL("ar", 1), T(" "), CallRet(<<"arithmetic">>), T(";"), B("push", <<"Semi", ";">>), T(" "), CallRet(<<"reserved_token", << <<"Semi", ";">> >> >>)>>) >>

(* The productions of a kind.                                              *)
Gaps == << E(<<T(" ")>>), P(1, "gap", "", <<T("\t ")>>), P(1, "gap", "line", <<T(" \\\n")>>) >>
More(k) == << E(Ends(k)), P(1, "", "", <<H("ccs" \o k)>>) >>
Kinds == {"start", "tops", "topsep", "topmore0", "topmore", "lb", "lb1", "lbx", "lbsp", "nl1", "nl0", "list", "andors", "pipeline",
          "pipes", "cmd", "Simple", "cmdname", "vars", "var", "args", "arg", "word", "pieces", "piece", "later", "dqs", "dq", "param",
          "param$", "operand", "operand1", "ops", "opw", "redirs", "redir", "fd", "gap", "gap0", "target", "dup", "heres", "here", "tabs",
          "tab", "raws", "raw", "compound", "cgK", "cgP", "cg0", "cgbt", "ccsK", "ccsP", "sepK", "sepP", "sepA", "ccsA", "more0A", "moreA", "more0K", "more0P",
          "moreK", "moreP", "iftail", "forname", "forhead", "forsep", "words", "casepre", "afterin", "afterarm", "afterpat", "armbody0", "arms", "pat", "pats", "armbody",
          "armend", "armend;", "fn", "fnbody", "entries", "entry", "arseq"}
ProdsOf(k) ==
  CASE k = "start"  -> << E(<<Push0, H("lb"), H("tops")>>), P(0, "entries", "", <<A("nocut"), H("entry"), H("entries")>>) >>
    [] k = "entries" -> << E(<<A("end0")>>), P(1, "", "", <<H("entry"), H("entries")>>) >>
    [] k = "entry"  -> Entries
    [] k = "tops"   -> << D(<<H("list"), H("topsep")>>) >>
    [] k = "topsep" -> << P(0, "", "", <<Push0, B("complete", "other"), A("topret"), Push0, A("end")>>),
                          P(1, "line", "", <<H("nl1"), B("complete", "newline"), A("topret"), H("topmore")>>),
                          P(1, "semi", "", <<T(";"), Push0, B("complete", "semi"), A("topret"), H("topmore0")>>),
                          P(1, "amp", "", <<T("& "), Push0, B("complete", "amp"), A("topret"), H("topmore0")>>),
                          P(1, "semi", "", <<T(" ;"), H("nl1"), B("complete", "semi"), A("topret"), H("topmore")>>),
                          P(1, "amp", "", <<T(" & "), H("nl1"), B("complete", "amp"), A("topret"), H("topmore")>>) >>
    [] k = "topmore0" -> << P(0, "", "", <<Push0, A("end")>>), P(1, "", "", <<T(" "), Push0, H("tops")>>) >>
    [] k = "topmore"  -> << E(<<Push0, A("end")>>), P(1, "", "", <<Push0, H("lb"), H("tops")>>),
                            P(1, "comment", "", <<Push0, H("lb1"), H("lb"), A("end")>>),
                            P(1, "comment", "", <<Push0, H("lb"), T(" # end"), B("cm", <<"c", "# end">>), A("end")>>) >>
    (* newlines and comments *)
    [] k = "lb"   -> << E(<<>>), P(1, "lb", "", <<H("lb1"), H("lb")>>) >>
    [] k = "lbx"  -> << E(<<T(" ")>>), P(1, "lb", "", <<T(" "), H("lb1"), H("lbx")>>) >>
    [] k = "lbsp" -> << E(<<>>), P(1, "lb", "", <<T(" "), H("lb1"), H("lb")>>) >>
    [] k = "lb1"  -> << D(<<NL, B("cm", <<"n">>)>>), P(1, "comment", "", <<T(" #c 'x"), NL, B("cm", <<"c", "#c 'x">>)>>) >>
    [] k = "nl1"  -> << D(<<NL, B("push", << <<"n">> >>)>>), P(1, "comment", "", <<T(" #d"), NL, B("push", << <<"c", "#d">> >>)>>) >>
    [] k = "nl0"  -> << E(<<Push0>>), P(1, "lb", "", <<H("nl1")>>) >>
    (* lists and pipelines *)
    [] k = "list"   -> << D(<<H("pipeline"), Push0, H("andors"), A("andor")>>) >>
    [] k = "andors" -> << E(<<>>),
                          P(1, "andor", "", <<T(" && "), Push0, H("lb"), Need, B("push", "and"), H("pipeline"), A("rest"), H("andors")>>),
                          P(1, "andor", "", <<T("||"), Push0, H("lb"), Need, B("push", "or"), H("pipeline"), A("rest"), H("andors")>>) >>
    [] k = "pipeline" -> << D(<<B("push", FALSE), Push0, H("cmd"), H("pipes"), A("pipeline")>>),
                            P(1, "pipe", "", <<T("! "), Need, B("push", TRUE), Push0, H("cmd"), H("pipes"), A("pipeline")>>) >>
    [] k = "pipes"  -> << E(<<A("lastcmd")>>), P(1, "pipe", "", <<T(" | "), Push0, H("lb"), Need, A("pipecmd"), H("cmd"), H("pipes")>>) >>
    [] k = "cmd"    -> << D(<<H("Simple")>>), P(1, "compound", "", <<H("compound"), A("pipeable")>>), P(1, "fn", "", <<H("fn")>>) >>
                       \o [i \in 1..Len(BadCmds) |-> P(1, "badcmd", "bad", X(BadCmds[i][1], BadCmds[i][2]))]
    (* simple commands *)
    [] k = "Simple" -> << D(<<Push0, Push0, H("cmdname"), A("argw"), H("args"), A("simplecmd")>>),
                          P(1, "vars", "", <<Push0, H("var"), H("vars"), Push0, A("simplecmd")>>),
                          P(1, "vars", "", <<Push0, H("var"), H("vars"), Push0, H("cmdname"), A("argw"), H("args"), A("simplecmd")>>) >>
    [] k = "cmdname" -> << D(<<T("a"), B("word0", "a")>>), P(1, "names", "", <<T("\\if"), Push0, B("piece", <<"esc", "i">>), B("piece", Lit("f")), A("word")>>),
                           P(1, "names", "", <<T("'if'"), Push0, B("word1", <<"Q", "if">>), A("word")>>),
                           P(1, "names", "", <<T("fi\"\""), Push0, B("piece", Lit("fi")), B("word1", <<"D", <<>> >>), A("word")>>),
                           P(1, "names", "", <<T("donex"), B("word0", "donex")>>),
                           P(1, "names", "", <<T("{a"), B("word0", "{a")>>),
                           P(1, "words", "", <<Push0, H("param"), A("pieceof"), H("pieces"), A("word")>>),
                           P(1, "words", "", <<Push0, T("."), B("piece", Lit(".")), H("piece"), H("pieces"), A("word")>>) >>
    [] k = "vars"   -> << E(<<>>), P(1, "vars", "", <<H("var"), H("vars")>>) >>
    [] k = "var"    -> << D(<<T("x="), H("word"), A("some"), B("var", "x"), H("gap")>>),
                          P(1, "vars", "", <<T("_y= "), Push0, B("var", "_y")>>),
                          P(1, "varall", "", <<T("z=#"), Push0, B("piece", Lit("#")), H("pieces"), A("word"), A("some"), B("var", "z"), T(" ")>>),
                          P(1, "varall", "", <<T("z==b"), Push0, B("piece", Lit("=b")), H("pieces"), A("word"), A("some"), B("var", "z"), T(" ")>>),
                          P(1, "redirs", "", <<H("redir"), A("argr"), H("gap")>>) >>
    [] k = "args"   -> << E(<<>>), P(1, "args", "", <<H("gap"), H("arg"), A("argw"), H("args")>>),
                          P(1, "redirs", "", <<H("gap"), H("redir"), A("argr"), H("args")>>) >>
    [] k = "arg"    -> << D(<<H("word")>>), P(1, "args1", "", <<T("x=y"), B("word0", "x=y")>>), P(1, "args1", "", <<T("2"), B("word0", "2")>>) >>
                       \o [i \in 1..Len(ReservedWords) |-> P(1, "resargs", "", <<T(ReservedWords[i]), B("word0", ReservedWords[i])>>)]
    [] k = "word"   -> << D(<<Push0, H("piece"), H("pieces"), A("word")>>) >>
    [] k = "pieces" -> << E(<<>>), P(1, "pieces", "", <<H("later"), H("pieces")>>) >>
    [] k = "piece"  -> PieceProds
    [] k = "later"  -> LaterPieces
    [] k = "dqs"    -> << E(<<>>), P(1, "", "", <<H("dq"), H("dqs")>>) >>
    [] k = "dq"     -> DqProds
    [] k = "param"  -> ParamProds
    [] k = "param$" -> SelectSeq(ParamProds, LAMBDA p : p.f # "bt")
    [] k = "operand"  -> << E(<<Push0>>), P(1, "operand", "", <<H("operand1")>>) >>
    [] k = "operand1" -> << D(<<Push0, H("opw"), H("ops"), A("operand")>>) >>
    [] k = "ops"    -> << E(<<>>), P(1, "operand", "", <<H("opw"), H("ops")>>) >>
    [] k = "opw"    -> OpWordProds
    (* redirections and here-documents *)
    [] k = "redirs" -> << E(<<>>), P(1, "redirs", "", <<H("gap"), H("redir"), A("app"), H("redirs")>>) >>
    [] k = "redir"  -> RedirProds
    [] k = "fd"     -> << D(<<Push0>>), P(1, "fd", "", <<T("2"), B("push", <<"2">>)>>), P(1, "fdall", "", <<T("65535"), B("push", <<"65535">>)>>),
                          P(1, "fdall", "", <<T("007"), B("push", <<"7">>)>>) >>
    [] k = "gap"    -> Gaps
    [] k = "gap0"   -> << E(<<>>), P(1, "gap", "", <<T(" ")>>), P(1, "gap", "line", <<T("\\\n")>>) >>
    [] k = "target" -> << D(<<T("f"), B("word0", "f")>>), P(1, "words", "", <<H("word")>>) >>
    [] k = "dup"    -> << D(<<T("1"), B("word0", "1")>>), P(1, "dup", "", <<T("- "), B("word0", "-")>>),
                          P(1, "dup", "", <<Push0, H("param"), A("pieceof"), A("word")>>),
                          P(1, "dupall", "", <<T("'2'"), Push0, B("word1", <<"Q", "2">>), A("word")>>),
                          P(1, "dupall", "", <<T("1\\2"), Push0, B("piece", Lit("1")), B("piece", <<"esc", "2">>), A("word")>>),
                          P(1, "dupall", "", <<T("\"1\""), Push0, B("word1", <<"D", <<Lit("1")>> >>), A("word")>>) >>
                       \o [i \in 1..Len(BadFds) |-> P(1, "badfd", "bad", X(BadFds[i][1], <<"BadFd", 0, BadFds[i][2]>>))]
    [] k = "heres"  -> << E(<<>>), P(1, "here", "", <<H("here"), H("heres")>>) >>
    [] k = "here"   -> HereProds
    [] k = "tabs"   -> << E(<<>>), P(1, "tabs", "", <<H("tab"), H("tabs")>>) >>
    [] k = "tab"    -> [i \in 1..3 |-> P(0, "tabs", "", <<T(TabLines[i][1]), B("simple", Lit(TabLines[i][2]))>>)] \o
                       << P(1, "tabs", "", <<T("\t"), H("param"), A("simpleof"), T("\t\n"), B("simple", Lit("\t\n"))>>) >>
    [] k = "raws"   -> << E(<<>>), P(1, "here", "", <<H("raw"), H("raws")>>) >>
    [] k = "raw"    -> [i \in 1..Len(RawLines) |-> P(IF i = 1 THEN 0 ELSE 1, RawLines[i][2], "", <<T(RawLines[i][1]), B("raw", RawLines[i][1])>>)]
    (* groups and compound commands *)
    [] k = "cgK"    -> << D(<<Push0, Push0, H("lb"), H("ccsK"), A("cg")>>) >>
    [] k = "cgP"    -> << D(<<Push0, Push0, H("lb"), H("ccsP"), A("cg")>>) >>
    [] k = "cg0"    -> << D(<<Push0, Push0, H("lb"), H("ccsP"), A("cg")>>), P(1, "empty", "", <<Push0, Push0, H("lb"), A("cg")>>) >>
    [] k = "cgbt"   -> << D(<<Push0, Push0, H("lb"), H("ccsP"), A("cg")>>), P(1, "empty", "", <<Push0, Push0, H("lb"), A("cg")>>) >>
    [] k = "ccsK"   -> << D(<<H("list"), H("sepK")>>) >>
    [] k = "ccsP"   -> << D(<<H("list"), H("sepP")>>) >>
    [] k = "sepK"   -> SepProds("K")
    [] k = "sepP"   -> SepProds("P")
    [] k = "sepA"   -> SepProds("A")
    [] k = "ccsA"   -> << D(<<H("list"), H("sepA")>>) >>
    [] k \in {"more0A", "moreA"} -> More("A")
    [] k \in {"more0K", "moreK"} -> More("K")
    [] k \in {"more0P", "moreP"} -> More("P")
    [] k = "iftail" -> << P(0, "", "", <<C("fi", "if", IfKw, "pop"), Push0>>),
                          P(1, "else", "", <<T("else "), H("cgK"), A("some"), C("fi", "if", IfKw, "pop")>>),
                          P(1, "elif", "", <<T("elif "), H("cgK"), C("then ", "if", Inc("if", "then"), ""), H("cgK"), A("cond"), H("iftail")>>) >>
    [] k = "forname" -> << D(<<T("i"), B("push", "i")>>), P(1, "names", "", <<T("in"), B("push", "in")>>) >>
    [] k = "forhead" -> ForHeads
    [] k = "forsep" -> << D(<<T("; "), Push0, A("forin"), Push0>>), P(1, "for", "", <<T(" ;"), H("nl1"), A("forin"), Push0, H("lbx")>>),
                          P(1, "for", "", <<H("nl1"), A("forin"), Push0, H("lbx")>>) >>
    [] k = "words"  -> << E(<<>>), P(1, "args", "", <<H("arg"), A("app"), T(" "), H("words")>>) >>
    [] k = "casepre" -> << D(<<H("arms")>>), P(1, "lb", "", <<H("lb1"), H("lb"), H("arms")>>) >>
    [] k = "arms"   -> CaseProds
    [] k = "pat"    -> << D(<<Push0, T("p"), B("word0", "p"), A("app")>>), P(1, "pats", "", <<Push0, H("word"), A("app")>>) >>
    [] k = "pats"   -> << E(<<>>), P(1, "pats", "", <<T(" | "), H("word"), A("app"), H("pats")>>) >>
    [] k = "afterin" -> << D(<<Push0, Push0, Push0, H("arms")>>), P(1, "lb", "", <<H("nl1"), Push0, Push0, H("casepre")>>) >>
    [] k = "afterarm" -> << D(<<Push0, A("arm"), H("arms")>>), P(1, "lb", "", <<H("nl1"), A("arm"), H("casepre")>>) >>
    [] k = "afterpat" -> << D(<<Push0, H("armbody0")>>), P(1, "lb", "", <<H("nl1"), H("armbody")>>) >>
    [] k = "armbody0" -> << E(<<T(" "), Push0, Push0, A("cg"), H("armend")>>),
                           P(1, "case", "", <<T(" "), Push0, Push0, H("ccsA")>>) >>
    [] k = "armbody" -> << E(<<T(" "), Push0, Push0, A("cg"), H("armend")>>),
                           P(1, "case", "", <<T(" "), Push0, Push0, H("lb"), H("ccsA")>>) >>
    [] k = "armend" -> << E(<<Push0, A("arm"), C(" esac", "case", CaseErr, "pop")>>), P(1, "case", "", ArmMore) >>
    [] k = "armend;" -> << D(ArmMore), P(0, "", "eof", <<Push0, A("arm"), C(" esac", "case", CaseErr, "pop")>>) >>
    [] k = "compound" -> Compounds
    [] k = "fn"     -> [i \in 1..Len(FnHeads) |-> P(IF i = 1 THEN 0 ELSE 1, IF i = 1 THEN "" ELSE "fn", "",
                          <<T(FnHeads[i][1] \o "f" \o FnHeads[i][2]), B("push", "f"), Push0, H("lbsp"), T(" "), H("fnbody"), A("fn")>>)]
                       \o << P(1, "fnall", "", <<T("function f"), NL, B("push", "f"), Push0, B("cm", <<"n">>), H("lb"), H("fnbody"), A("fn")>>) >>
                       \o [i \in 1..(Len(Names) - 1) |-> P(1, "fnall", "", <<T(Names[i+1] \o "()"), B("push", Names[i+1]), Push0, H("fnbody"), A("fn")>>)]
    [] k = "fnbody" -> << D(<<O("(", "("), H("cgP"), C(")", "(", Unm("ParenOpen", "("), "pop"), Push0, H("redirs"), A("subshell")>>), P(1, "fn", "", <<H("compound")>>) >>
    [] k = "arseq"  -> << E(<<>>), P(1, "ar", "", <<T(" , "), HL("ar", 2), A("app"), H("arseq")>>) >>
Table == [k \in Kinds |-> ProdsOf(k)]
ArTable == [m \in 1..16 |-> ArProds(m)]
Prods(h) == IF h[2] = "ar" THEN ArTable[h[3]] ELSE Table[h[2]]

(* --- what the grammar computes -----------------------------------------*)
Top(g) == g.stk[Len(g.stk)]
At(g, d) == g.stk[Len(g.stk) - d]
Repl(g, d, v) == [g EXCEPT !.stk = Append(SubSeq(@, 1, Len(@) - d), v)]
Drop(g, d) == [g EXCEPT !.stk = SubSeq(@, 1, Len(@) - d)]
(* A builder call with the top d values; its number replaces them.         *)
Ev(g, d, ev) == [Repl(g, d, Len(g.log) + 1) EXCEPT !.log = Append(@, ev)]
WordEv(g, d, ws) == Ev(g, d, <<"word", IF Len(ws) = 1 THEN <<"s", ws[1]>> ELSE <<"c", ws>> >>)
Result(g, d, op, v) ==
  [Drop(g, d) EXCEPT !.xs = Append(@, [op |-> op, ev |-> SubSeq(g.log, g.seen + 1, Len(g.log)), ret |-> <<"ok", v>>]),
                     !.seen = Len(g.log)]
Bare(sw) == <<"S", sw>>

(* Text within backquotes: a backslash before each backquote and before    *)
(* each backslash that would otherwise be removed (all: and before $).     *)
RECURSIVE BtEsc(_, _, _)
BtEsc(s, i, all) ==
  IF i > Len(s) THEN ""
  ELSE LET c == SubSeq(s, i, i)
           nx == IF i < Len(s) THEN SubSeq(s, i + 1, i + 1) ELSE ""
           esc == c = "`" \/ (c = "\\" /\ (all \/ nx \in {"$", "`", "\\"} \/ i = Len(s))) \/ (c = "$" /\ all)
       IN (IF esc THEN "\\" ELSE "") \o c \o BtEsc(s, i + 1, all)
(* Contexts: backquotes and here-document bodies.                          *)
Begin(g, v) == [g EXCEPT !.up = Append(@, [txt |-> g.txt \o v, hd |-> g.hd, hq |-> g.hq, ops |-> g.ops]),
                         !.txt = "", !.hd = "", !.ops = IF v = "" THEN << <<"\"", Pos0>> >> ELSE <<>>]
Bad(g) == [g EXCEPT !.mode = "bad"]
Quotes(g) == Len(SelectSeq(g.ops, LAMBDA o : o[1] \in {"\"", "(", "$(", "${"}))
Out(g) == LET u == g.up[Len(g.up)]
          IN [g EXCEPT !.txt = u.txt, !.hd = u.hd, !.hq = u.hq, !.ops = u.ops, !.up = SubSeq(@, 1, Len(@) - 1), !.glue = ""]
Leave(g, t) == IF g.hd # "" THEN Bad(g) ELSE LET o == Out(g) IN [o EXCEPT !.txt = @ \o t]
(* The delimiter's line would come too early.                              *)
Tabs(t, j, i) == \A k \in (j + 1)..(i - 1) : SubSeq(t, k, k) = "\t"
HasLine(t, v) == \E i \in 1..(Len(t) - Len(v) + 1), j \in 0..Len(t) :
                   /\ j < i /\ SubSeq(t, i, i + Len(v) - 1) = v
                   /\ Tabs(t, j, i) /\ (j = 0 \/ SubSeq(t, j, j) = "\n")
LeaveHd(g, t, v) == IF g.hd # "" \/ HasLine(g.txt, v) THEN Bad(g)
                 ELSE LET o == Out(g)
                      IN IF o.hd # "" /\ o.hq # Quotes(o) THEN Bad(g)
                         ELSE [o EXCEPT !.hd = @ \o t, !.hq = Quotes(o)]

CaseTuple(g, d) == LET s(i) == At(g, d + i) IN <<s(4), s(3), s(2), s(1), s(0)>>
NameChar(c) == c \in Letters \cup DigitChars \cup {"_"}
Clash(g, s) ==
  LET c == SubSeq(s, 1, 1)
  IN CASE g.glue = ""  -> FALSE
       [] g.glue = "(" -> c = "("
       [] g.glue = "x" -> NameChar(c)
       [] g.glue = "$" -> NameChar(c) \/ c \in {"{", "(", "#", "@", "*", "?", "-", "$", "!"}
Put(g, s) == IF s = "" THEN g
             ELSE IF g.mode # "go" \/ Clash(g, s) \/ (g.hd # "" /\ \E i \in 1..Len(s) : SubSeq(s, i, i) = "\n") THEN Bad(g)
             ELSE [g EXCEPT !.txt = @ \o s, !.glue = ""]
Line(g) == IF g.hd # "" /\ g.hq # Quotes(g) THEN Bad(g) ELSE [Put([g EXCEPT !.hd = ""], "\n" \o g.hd) EXCEPT !.hd = ""]
Act(g, x, v) ==
  CASE x = "push"   -> Repl(g, 0, v)
    [] x = "pop"    -> LET h == [g EXCEPT !.ops = SubSeq(@, 1, Len(@) - 1)]
                       IN IF Quotes(h) >= h.hq THEN h
                          ELSE [h EXCEPT !.hq = IF g.ops[Len(g.ops)][1] \in {"(", "$("} THEN Quotes(h) ELSE 99]
    [] x = "app"    -> Repl(g, 2, Append(At(g, 1), Top(g)))
    [] x = "some"   -> Repl(g, 1, <<Top(g)>>)
    [] x = "glue"   -> [g EXCEPT !.glue = v]
    [] x = "nocut"  -> [g EXCEPT !.cut = FALSE]
    [] x = "list"   -> Repl(g, 1, <<Top(g)>>)
    [] x = "cm"     -> Repl(g, 1, Append(Top(g), v))
    (* words *)
    [] x = "piece"  -> Repl(g, 1, Append(Top(g), Bare(v)))
    [] x = "word1"  -> Repl(g, 1, Append(Top(g), v))
    [] x = "pieceof" -> Repl(g, 2, Append(At(g, 1), Bare(Top(g))))
    [] x = "simple" -> Repl(g, 1, Append(Top(g), v))
    [] x = "simpleof" -> Repl(g, 2, Append(At(g, 1), Top(g)))
    [] x = "dq"     -> Repl(g, 2, Append(At(g, 1), <<"D", Top(g)>>))
    [] x = "word"   -> WordEv(g, 1, Top(g))
    [] x = "word0"  -> WordEv(g, 0, <<Bare(Lit(v))>>)
    [] x = "given"  -> WordEv(g, 1, <<Bare(Top(g))>>)
    [] x = "operand" -> Repl(g, 1, <<IF Len(Top(g)) = 1 THEN <<"s", Top(g)[1]>> ELSE <<"c", Top(g)>> >>)
    [] x = "subst"  -> Repl(g, 2, <<"sub", <<v[1], v[2], At(g, 1), Top(g)>> >>)
    [] x = "rem"    -> Repl(g, 2, <<"sub", <<v, At(g, 1), Top(g)>> >>)
    [] x = "cmdsub" -> Repl(g, 1, <<"sub", <<"cmd", Top(g)>> >>)
    [] x = "cmdbt"  -> Repl(g, 1, <<"cmd", Top(g)>>)
    [] x = "arith"  -> Repl(g, 1, <<"sub", <<"arith", <<Top(g)>> >> >>)
    [] x = "begin"  -> Begin(g, v)
    [] x = "btend"  -> Leave(g, BtEsc(g.txt, 1, FALSE) \o "`")
    [] x = "btendall" -> Leave(g, BtEsc(g.txt, 1, TRUE) \o "`")
    (* arithmetic *)
    [] x = "op1"    -> Repl(g, 1, <<v, Top(g)>>)
    [] x = "op2"    -> Repl(g, 2, <<v, At(g, 1), Top(g)>>)
    [] x = "op3"    -> Repl(g, 3, <<v, At(g, 2), At(g, 1), Top(g)>>)
    [] x = "assign" -> Repl(g, 1, <<"assign", v, Top(g)>>)
    [] x = "opassign" -> Repl(g, 1, <<"assign", "x", <<v, <<"var", "x">>, Top(g)>> >>)
    [] x = "seq"    -> Repl(g, 1, <<"seq", Top(g)>>)
    (* redirections *)
    [] x = "redirect" -> Ev(g, 2, <<"redirect", v, At(g, 1), Top(g)>>)
    [] x = "redirret" -> Repl(g, 1, << <<"r", Top(g)>> >>)
    [] x = "hdend"  -> LET ws == Top(g)
                           g1 == LeaveHd(g, g.txt \o v, v)
                           w == IF ws = <<>> THEN <<Bare(Lit(""))>> ELSE [i \in 1..Len(ws) |-> Bare(ws[i])]
                           g2 == WordEv(g1, 1, w)
                       IN Ev(g2, 2, <<"redirect", "heredoc", At(g2, 1), Top(g2)>>)
    [] x = "raw"    -> Repl(g, 1, Top(g) \o v)
    [] x = "rawend" -> LET g1 == LeaveHd(g, g.txt \o v, v)
                           g2 == WordEv(g1, 1, <<Bare(Lit(Top(g)))>>)
                       IN Ev(g2, 2, <<"redirect", "heredoc", At(g2, 1), Top(g2)>>)
    (* commands *)
    [] x = "argw"   -> Repl(g, 2, Append(At(g, 1), <<"w", Top(g)>>))
    [] x = "argr"   -> Repl(g, 2, Append(At(g, 1), <<"r", Top(g)>>))
    [] x = "var"    -> Repl(g, 2, Append(At(g, 1), <<"v", v, Top(g)>>))
    [] x = "simplecmd" -> Ev(g, 2, <<"simple", At(g, 1), Top(g)>>)
    [] x = "pipeable" -> Ev(g, 1, <<"pipeable", Top(g)>>)
    [] x = "lastcmd"  -> Repl(g, 2, Append(At(g, 1), << <<>>, Top(g)>>))
    [] x = "pipecmd"  -> Repl(g, 3, Append(At(g, 2), <<Top(g), At(g, 1)>>))
    [] x = "pipeline" -> Ev(g, 2, <<"pipeline", At(g, 1), Top(g)>>)
    [] x = "rest"   -> Repl(g, 4, Append(At(g, 3), <<At(g, 2), At(g, 1), Top(g)>>))
    [] x = "andor"  -> Ev(g, 2, <<"andor", At(g, 1), Top(g)>>)
    [] x = "complete" -> Ev(g, 3, <<"complete", At(g, 2), At(g, 1), v, Top(g)>>)
    [] x = "cg"     -> Repl(g, 2, <<"cg", At(g, 1), Top(g)>>)
    [] x = "brace"  -> Ev(g, 2, <<"brace", At(g, 1), Top(g)>>)
    [] x = "subshell" -> Ev(g, 2, <<"subshell", At(g, 1), Top(g)>>)
    [] x = "loop"   -> Ev(g, 3, <<"loop", v, At(g, 2), At(g, 1), Top(g)>>)
    [] x = "loopret" -> Repl(g, 2, <<v, At(g, 1), Top(g)>>)
    [] x = "cond"   -> Repl(g, 3, Append(At(g, 2), <<At(g, 1), Top(g)>>))
    [] x = "if"     -> Ev(g, 3, <<"if", At(g, 2), At(g, 1), Top(g)>>)
    [] x = "ifret"  -> Repl(g, 2, <<At(g, 1), Top(g)>>)
    [] x = "forin"  -> Repl(g, 3, << <<At(g, 2), At(g, 1), Top(g)>> >>)
    [] x = "for"    -> Ev(g, 6, <<"for", At(g, 5), At(g, 4), At(g, 3), At(g, 2), At(g, 1), Top(g)>>)
    [] x = "forret" -> Repl(g, 6, <<At(g, 5), At(g, 4), At(g, 3), At(g, 2), At(g, 1)>>)
    (* case: word, comments, in comment, arms, comments before the arm *)
    [] x = "arm"    -> \* ..., arms, pre, patterns, comment, body, arm comment
         Repl(Repl(g, 6, Append(At(g, 5), <<At(g, 4), At(g, 3), At(g, 2), At(g, 1), Top(g)>>)), 0, <<>>)
    [] x = "case"   -> LET t == CaseTuple(g, 1) IN Ev(g, 6, <<"case", t[1], t[2], t[3], t[4], t[5], Top(g)>>)
    [] x = "caseret" -> Repl(g, 5, CaseTuple(g, 0))
    [] x = "fn"     -> Ev(g, 3, <<"fn", At(g, 2), At(g, 1), Top(g)>>)
    (* results *)
    [] x = "topret" -> Result(g, 1, <<"complete_command">>, <<Top(g)>>)
    [] x = "ret"    -> Result(g, 1, v, Top(g))
    [] x = "end"    -> IF g.hd # "" THEN Bad(g) ELSE IF Top(g) = <<>> THEN Result(g, 1, <<"complete_command">>, <<>>)
                       ELSE Result([g EXCEPT !.log = Append(@, <<"comments", Top(g)>>)], 1, <<"complete_command">>, <<>>)
    [] x = "end0"   -> IF g.hd = "" THEN Result(g, 0, <<"complete_command">>, <<>>)
                       ELSE LET h == Line(g) IN Result([h EXCEPT !.log = Append(@, <<"comments", << <<"n">> >> >>)], 0, <<"complete_command">>, <<>>)

(* --- derivations ---------------------------------------------------------*)
RECURSIVE PosIn(_, _, _)
PosIn(s, i, p) == IF i > Len(s) THEN p
                  ELSE PosIn(s, i + 1, IF SubSeq(s, i, i) = "\n" THEN <<p[1] + 1, p[2] + 1, 1>> ELSE <<p[1] + 1, p[2], p[3] + 1>>)
PosAfter(s) == PosIn(s, 1, Pos0)

(* The source ends here.                                                   *)
Fail(g, e) == [g EXCEPT !.form = <<>>, !.mode = "err",
                        !.xs = Append(@, [op |-> <<"complete_command">>, ev |-> SubSeq(g.log, g.seen + 1, Len(g.log)), ret |-> <<"err", e>>])]
ErrorOf(g, it) ==
  LET o == g.ops[Len(g.ops)]
      end == PosAfter(g.txt)
  IN IF it[1] = "e" THEN <<"EOF">>
     ELSE IF it[4][1] = "Unmatched" THEN <<"Unmatched", <<it[4][2], it[4][3]>>, o[2]>>
     ELSE <<"Incomplete", it[4][2], o[2], it[4][3], end>>
CanCut(g) == g.cut /\ g.mode = "go" /\ g.up = <<>> /\ g.hd = ""

(* A token comes that cannot follow.                                       *)
WrongTok(it) == IF it[1] = "e" THEN <<"ParenClose", ")">> ELSE IF it[2] \in {")", " )"} THEN <<"DSemi", ";;">> ELSE <<"ParenClose", ")">>
CanGoWrong(g) == CanCut(g) /\ (IF Head(g.form)[1] = "e" THEN TRUE ELSE Head(g.form)[3] \notin {"\"", "'", "${"})
Wrong(g) == LET it == Head(g.form)
                t == WrongTok(it)
            IN [Fail(g, IF it[1] = "c" /\ (it[3] = "for" \/ it[2] = " in") THEN ErrorOf(g, it)
                        ELSE <<"Unexpected", t, PosAfter(g.txt)>>) EXCEPT !.txt = @ \o t[2]]

RECURSIVE Norm(_)
Item(g, it) ==       \* g without the item
  CASE it[1] = "t"  -> Put(g, it[2])
    [] it[1] = "nl" -> Line(g)
    [] it[1] = "a"  -> Act(g, it[2], it[3])
    [] it[1] = "o"  -> LET p == IF g.up = <<>> THEN PosAfter(g.txt) ELSE Pos0
                       IN [Put(g, it[2]) EXCEPT !.ops = Append(@, <<it[3], p>>)]
    [] it[1] = "x"  -> LET h == Put(g, it[2])
                           e == it[3]
                           at(n) == PosAfter(g.txt \o SubSeq(it[2], 1, n))
                       IN IF h.mode = "bad" THEN h
                          ELSE [Fail(h, CASE e[1] = "Unmatched" -> <<e[1], <<e[2], e[3]>>, at(1)>>
                                          [] e[1] = "EOF" -> e
                                          [] e[1] = "BadFd" -> <<e[1], at(e[2]), at(e[3])>>
                                          [] OTHER -> <<e[1], e[2], at(e[3])>>) EXCEPT !.txt = h.txt]
    [] it[1] = "e"  -> IF g.mode = "eof" THEN Fail(g, ErrorOf(g, it)) ELSE g
    [] it[1] = "c"  -> IF g.mode = "eof" THEN Fail(g, ErrorOf(g, it))
                       ELSE LET h == Put(g, it[2])
                            IN CASE it[5] = "pop" -> Act(h, "pop", "")
                                 [] it[5] = "do"  -> [h EXCEPT !.ops[Len(g.ops)] = <<"do", IF g.up = <<>> THEN PosAfter(g.txt) ELSE Pos0>>]
                                 [] OTHER -> h
Rest(g) == [g EXCEPT !.form = Tail(@)]
Norm(g) ==
  IF g.form = <<>> \/ g.mode \in {"bad", "err"} THEN g
  ELSE LET it == Head(g.form)
       IN IF it[1] = "h" THEN g
          ELSE IF it[1] \in {"c", "e"} /\ CanCut(g) THEN g
          ELSE Norm(Item(Rest(g), it))
Pass(g) == Norm(Item(Rest(g), Head(g.form)))
Cut(g) == Norm([g EXCEPT !.mode = "eof"])
Usable(g, p, features) ==
  /\ p.c <= g.n /\ p.f \in features
  /\ CASE p.e = ""     -> g.mode = "go"
       [] p.e \in {"eof", "bad"} -> CanCut(g)
       [] p.e = "line" -> g.mode = "go" /\ g.hd = ""
       [] p.e = "bare" -> g.mode = "go" /\ ~\E i \in 1..Len(g.ops) : g.ops[i][1] = "\""
Expand(g, p) == Norm([g EXCEPT !.form = p.b \o Tail(@), !.n = @ - p.c, !.mode = IF p.e = "eof" THEN "eof" ELSE @])

First(n, cut) == [txt |-> "", hd |-> "", form |-> <<H("start")>>, stk |-> <<>>, up |-> <<>>, log |-> <<>>, seen |-> 0,
                  xs |-> <<>>, ops |-> <<>>, n |-> n, glue |-> "", hq |-> 0, mode |-> "go", cut |-> cut]
=============================================================================
