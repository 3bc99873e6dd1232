-------------------------------- MODULE Frames --------------------------------
(***************************************************************************)
(* The sources and programs that module MC explores.  A frame has          *)
(*   pre, a, max, suf  sources are pre, at most max pieces of a, and one   *)
(*                     of suf                                              *)
(*   progs             the programs of calls                               *)
(*   plain             nothing in its sources is quoted                    *)
(*   fails             also explore failing builders                       *)
(*   toks              sources are external token streams                  *)
(***************************************************************************)
EXTENDS Session, Events

X(s) == Explode(s, 1)
Xs(s) == [i \in 1..Len(s) |-> X(s[i])]
All == << <<"*">> >>
On(pre, a, max, suf) ==
  [pre |-> X(pre), a |-> Xs(a), max |-> max, suf |-> Xs(suf), progs |-> <<All>>,
   plain |-> FALSE, fails |-> FALSE, toks |-> FALSE]
NoQuotes(fr) == [fr EXCEPT !.plain = TRUE]
Do(fr, progs) == [fr EXCEPT !.progs = progs]
Failing(fr) == [fr EXCEPT !.fails = TRUE]
Upto(fr, m) == [fr EXCEPT !.max = m]

(* --- lists and pipelines --------------------------------------------------*)
Lists == NoQuotes(On("", <<"a", " ", ";", "\n", "&&", "|", "&", "!", "#c", "(", ")", "\\\n">>, 4, <<"">>))
Pipes == NoQuotes(On("", <<"a", "! ", "|", "||", "\n", "#c\n", "&", "{ b;", "}", ";", "(">>, 4, <<"">>))
Seps  == NoQuotes(On("a", <<";", "&", "\n", " ", "#c", "#<U+D>", "b", ";;", "&&", "|", "!", "\\\n">>, 4, <<"", "\nz">>))

(* --- compound commands ------------------------------------------------------*)
Ifs    == NoQuotes(On("if a;", <<"then ", "elif ", "else ", "fi", "c;", "c\n", "\n", " ", "#c\n", ">f", "}">>, 4, <<"", ";fi">>))
Ifs2   == NoQuotes(On("if a;then b;", <<"elif ", "else ", "fi", "then ", "c;", "\n", "#c\n", ">f", " x">>, 4, <<"", ";fi">>))
Loops  == On("while ", <<"a;", "do ", "done", "until ", "\n", "#c\n", "b\n", ";", " ", ">f", "'do' ">>, 4, <<"", "done">>)
Fors   == NoQuotes(On("for ", <<"x", " ", "in ", "a", ";", "\n", "do ", "done", "b;", "#c\n", "1">>, 4, <<"", " do c; done">>))
Fors2  == NoQuotes(On("for x", <<" in", " a", ";", "\n", " do ", "done", " b;", "#c", " #c\n", "\\\n">>, 4, <<"", "do c; done">>))
Cases  == NoQuotes(On("case x in ", <<"a", " ", "|", ")", "(", ";;", "\n", "esac", "#c\n", ";", "b">>, 4, <<"", " esac">>))
Cases2 == NoQuotes(On("case x ", <<"in", "\n", "#c\n", " a) b", ";;", " #c", "esac", " ">>, 4, <<"", " in a) esac", "\nesac">>))
Groups == On("", <<"{", "}", "(", ")", " ", ";", "a", "\n", "'{'", ">f", "#c\n", "|">>, 4, <<"">>)
Reserved == On("", <<"if ", "fi", "\\if ", "\"if\" ", "a ", "; ", "then", "i\\\nf ", "\\\n", "do ", "done ", "x=1 ", ">f ", "{ ">>, 4, <<"">>)
Empties == NoQuotes(On("", <<"( ", ")", "{ ", "}", "\n", "#c\n", "a;", "while ", "do ", "done ", "\\\n">>, 4, <<"">>))

(* --- functions ----------------------------------------------------------------*)
Fns  == NoQuotes(On("", <<"f", "function ", " ", "()", "(", ")", "\t", "\n", "\\\n", "{ a;}", "(a)", "#c\n", "1">>, 4, <<"">>))
Fns2 == NoQuotes(On("function f", <<" ", "(", ")", "()", "\n", "\\\n", "{ a;}", "(a)", "#c\n", "b", ";", ">g">>, 4, <<"", " (b)">>))
Fns3 == NoQuotes(On("f", <<" ", "(", ")", "\n", "\\\n", "{ a;}", "(a)", "#c\n", "b", ">g", "if a;then b;fi">>, 4, <<"", ")(b)">>))
Fns4 == NoQuotes(On("f() ", <<"for x in a;do b;done", "case a in b) c;;esac", "while a;do b;done", "{ a;}", "(a)",
                              " ", "\n", "#c\n", ">g", "2>&1", "b", ";", "g()">>, 3, <<"">>))

(* --- simple commands --------------------------------------------------------------*)
Simple == On("", <<"a", "b=", "=", " ", "1", ">", "<", ">&", "-", "'q'", "\\\n", "#", "$x">>, 4, <<"">>)
Mixed  == On("", <<"a=b ", ">f ", "2>g ", "c ", "d=", "<<E ", "$x ", "<h ">>, 4, <<"", "e", "\nk\nE\n">>)
Redirs == On("a ", <<"1", "65535", "65536", "\"2\"", "\\2", ">", ">>", ">|", "<>", "<&", ">&", "-", " ", "f">>, 3, <<"", " b">>)
Dups   == On("a 3>&", <<"'1'", "\"1\"", "$x", "a", "<U+FF11>", " ", "-", "1", "`b`", "\\1", "${x}", "*", "'<U+FF11>'",
                        "\"$x\"", "\"a\"", "''", "\"\"", ";", "~">>, 2, <<"", " b", "\n">>)
Assigns == On("", <<"a=", "b", "+=", " ", "#", "\\\n", "c=d", "1=", ">f", "$x", "\"", "\n", "~:">>, 4, <<"">>)

(* --- here-documents -----------------------------------------------------------------*)
Delims == On("a <<", <<"E", "-", "'E'", "\\", "\"E\"", " ", "$", "`", "''", "(", ")", ";", "\n", "#", "<U+E9>">>, 3, <<"\nE\nb", "\n\tE\nb\n">>)
Bodies == On("a <<E", <<"\n", "E", "\t", " ", "$x", "\\", "`", "\"", "b", "#", "|c", ";">>, 4, <<"", "\nE\nd">>)
Tabs   == On("a <<-E\n", <<"<U+B>", "\n", "E", "\t", " ", "$x", "\\\n", "<U+D>", "b", "E\n">>, 4, <<"", "\n\tE\nd">>)
QuotedDocs == On("a <<'<U+E9>E'\n", <<"\n", "<U+E9>", "E", "\t", "$x", "\\", "<U+D>", "b", "<U+E9>E">>, 4, <<"", "\n<U+E9>E\nd">>)
TwoDocs == On("a <<E <<F", <<"\n", "E\n", "F\n", "b", "\\", " ", ";c", "#", "$(", ")">>, 4, <<"", "\nE\nF\nd">>)
LineRests == On("a <<E", <<" b", "$(", ")", "(", "'", "\"", "`", "\\", "\n", "#", "&&", "${">>, 3, <<"", "\nE\nd", ")\nE\n">>)

(* --- what usually ends a command, with nothing between ---------------------------------*)
Glued == On("", <<"if a;then b;", "while a;do b;", "case x in a) b;;", "{ a;", "case x", "for x", " in", "fi", "done",
                  "esac", "}", "-", "''", " ", "do">>, 3, <<"", ";fi", ") c;;esac", " do b;done">>)
FnNames  == On("function ", <<".", "-", "1", "a", "<U+E9>", "<U+20AC>", "<U+660>", "if", "$x", "'a'", "~", "\\a", "\\\n", " ", "()",
                              "{ b;}">>, 3, <<"", " { b;}", "()(b)">>)
FnNames2 == On("", <<".", "-", "1", "a", "<U+E9>", "<U+20AC>", "<U+660>", "if", "$x", "'a'", "~", "\\a", " ", "(", "()",
                     "{ b;}">>, 3, <<"", "(){ b;}">>)
Broken == On("", <<"$((", "1", "0", "x", "<U+20AC>", "<U+E9>", "))", "${", "}", "'", "\"", "<<-", ">&", "\\", "=", "\n">>, 3,
             <<"", "))", "}">>)
ArithU == On("$((", <<"<U+20AC>", "<U+E9>", "1", "0", "0x", "x", "<U+FF11>", "+", " ", "<U+660>">>, 3, <<"))">>)

(* --- words ------------------------------------------------------------------------------*)
Words  == On("", <<"a", "\\", "'", "\"", "*", "$x", "#", " ", "\n", "`", "{", "~", "<U+E9>">>, 4, <<"">>)
Quotes == On("\"", <<"a", "\\", "$", "x", "`", "'", "\n", "<U+D>", "\"", "{", "(", "}", ")", "*">>, 3, <<"", "\"", "b\" c">>)
Globs  == On("a", <<"*", "?", "[", "]", "~", ":", "=", "\\", "#", " ", "''", "\"\"", "%", "^", "@", ",", "!", "}">>, 3, <<"", "b">>)

(* --- expansions ---------------------------------------------------------------------------*)
Params  == On("${", <<"#", "x", "1", "@", "-", ":", "=", "?", "+", "%", "''", " ", "$y", "\"", "}">>, 3, <<"", "}", "}z">>)
Params2 == On("${x", <<":", "-", "+", "#", "%", "a", " ", "\\", "}", "'}'", "\"", "${", "`", "\n", "#c", "*">>, 3, <<"", "}">>)
Params3 == On("$", <<"0", "9", "10", "x", "#", "@", "!", "$", "-", "?", "*", "{", "}", "(", ")", "a1", "=", " ">>, 3, <<"">>)
Params4 == On("${", <<"4294967295", "4294967296", "0", "00", "007", "a", "1a", "!", "$", "*", "#", "}">>, 3, <<"", "}">>)
Params5 == On("\"${", <<"#", "x", "-", ":", "%", "'", "\"", "}", "\\", "$", "a", " ", "`">>, 3, <<"", "}\"", "\"}\"">>)
Subst   == On("$(", <<"a", " ", ";", "\n", "#c\n", ")", "(", "\"", "'", "`", "$(", "\\", "|">>, 3, <<"", ")", ")b">>)
Ticks   == On("`", <<"a", "\\", "`", "$", "(", ")", "\"", "'", " ", ";", "#c\n", "1", "x", "{">>, 4, <<"`">>)
Ticks2  == On("`\\`", <<"a", "\\", "`", "\\`", "\\\\", "$", "x", " ", "#c\n", "'">>, 4, <<"", "\\``", "`">>)
Ticks3  == On("\"`", <<"a", "\\", "`", "\\`", "\"", "\\\"", "$x", "'", " ", ")">>, 4, <<"", "`\"">>)
Arith   == On("$((", <<"1", "x", "+", "-", "*", "/", "<", ">", "=", "&", "|", "?", ":", ",", "(", ")", "!", "~", "^", "%", " ">>, 3, <<"))", "1))">>)
Arith2  == On("$((", <<"x", "+", "=", "++", "-", "*", "?", "1", ":", "(", ")", " ", "$", ",">>, 4, <<"))">>)
Arith3  == On("$((", <<"0", "x", "X", "1", "7", "8", "9", "f", "g", "18446744073709551615", "9223372036854775807",
                       "9223372036854775808", "777777777777777777777", " ", "A", "ffffffffffffffff">>, 3, <<"))">>)
Arith4  == On("$((1 ", <<"<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "**", "+", "-", "*", "?", ":", " 2", " x", "(", ")", "&", "|", "^", "<<-">>, 3, <<"2))", "3:4))">>)
Arith6  == On("$((x", <<"-1", "*1", "**1", "<<1", "<1", "<=1", "==1", "&1", "^1", "|1", "&&1", "||1", "?1:1", "=1", ",1", "/1", "%1", "+1", ">>1", ">=1">>, 3, <<"))">>)
Arith5  == On("$((x", <<"=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "|=", "^=", "y", "++", "--", " ", "1", "?", ":", "\n", "\\\n">>, 3, <<"))", "2))">>)

(* --- external tokens -----------------------------------------------------------------------*)
T(k, s) == << <<k, s>> >>
Op(s) == T(OpKind[s], s)
Ws == T("Whitespace", " ")
Nm(s) == T("Name", s)
Tokens(pre, a, max, suf) ==
  [pre |-> pre, a |-> a, max |-> max, suf |-> suf, progs |-> <<All>>,
   plain |-> FALSE, fails |-> FALSE, toks |-> TRUE]
Odd == <<T("Literal", ""), T("Name", ""), T("Whitespace", ""), T("Literal", "if"), T("Name", "}"), T("Name", "1"),
         T("Literal", "\n"), T("Whitespace", "\n"), T("Literal", "=")>>
None0 == << <<>> >>
TokArith  == Tokens(Op("$") \o Op("(") \o Op("("), Odd \o <<Op("+"), Op("="), Op("("), Op(")"), Op("$"), Nm("x")>>, 3,
                    <<Op(")") \o Op(")")>>)
TokParam  == Tokens(Op("$") \o Op("{"), Odd \o <<Op("#"), Op("-"), Op(":"), Op("%"), Nm("x")>>, 3, <<Op("}"), <<>> >>)
TokHere   == Tokens(Op("<<"), Odd \o <<Op("\n"), Op("'"), Op("\\"), Nm("E")>>, 3, <<Op("\n") \o Nm("E") \o Op("\n") \o Nm("b"), <<>> >>)
TokCmd    == Tokens(<<>>, Odd \o <<Op("{"), Op("}"), Op(";"), Op("<"), Op("="), Op("#"), Op("\n"), Ws>>, 3, None0)
TokTick   == Tokens(Op("`"), Odd \o <<Op("\\"), Op("$"), Op("`"), Nm("x"), T("Literal", "1a")>>, 3, <<Op("`")>>)
TokFor    == Tokens(Nm("for") \o Ws, Odd \o <<Nm("x"), Nm("in"), Op(";"), Nm("do"), Ws>>, 3, <<Nm("do") \o Ws \o Nm("a") \o Op(";") \o Nm("done")>>)

(* --- iteration -----------------------------------------------------------------------------*)
Iterate == << << <<"into_iter">>, <<"*">> >>,
              << <<"complete_command">>, <<"into_iter">>, <<"*">> >>,
              << <<"linebreak">>, <<"into_iter">>, <<"*">> >> >>
IterLists == Do(Lists, Iterate)
IterPipes == Do(Upto(Pipes, 3), Iterate)
IterWords == Do(Upto(Words, 3), Iterate)
IterHere  == Do(Upto(Bodies, 3), Iterate)
IterToks  == Do(TokCmd, Iterate)

(* --- failing builders -------------------------------------------------------------------------*)
Twice == <<All, << <<"into_iter">>, <<"*">> >> >>
FailLists  == Failing(Do(Upto(Lists, 3), Twice))
FailPipes  == Failing(Upto(Pipes, 3))
FailIfs    == Failing(Upto(Ifs2, 3))
FailLoops  == Failing(Upto(Loops, 3))
FailFors   == Failing(Upto(Fors2, 3))
FailCases  == Failing(Upto(Cases, 3))
FailCases2 == Failing(Upto(Cases2, 3))
FailFns    == Failing(Upto(Fns4, 2))
FailFns2   == Failing(Upto(Fns2, 3))
FailSimple == Failing(Upto(Simple, 3))
FailAssign == Failing(Upto(Assigns, 3))
FailHere   == Failing(Upto(Bodies, 3))
FailHere2  == Failing(Upto(TwoDocs, 3))
FailParams == Failing(Upto(Params2, 2))
FailSubst  == Failing(Upto(Subst, 3))
FailTicks  == Failing(Upto(Ticks2, 3))
FailDups   == Failing(Upto(Dups, 1))

(* --- entry points --------------------------------------------------------------------------------*)
C1(op) == << op, <<"*">> >>
O(x) == C1(<<x>>)
OO(x) == << <<x>>, <<x>>, <<"*">> >>
RT(ts) == <<"reserved_token", ts>>
PT(ts) == <<"peek_reserved_token", ts>>
Curly == << <<"CurlyOpen", "{">>, <<"CurlyClose", "}">> >>
NameA == << <<"Name", "a">>, <<"Literal", "1">>, <<"Whitespace", " ">> >>
SemiW == << <<"Semi", ";">>, <<"Whitespace", " ">>, <<"Newline", "\n">> >>
EntryWords == Do(On("", <<"a", " ", "\\\n", "'b'", "#", ";", "\n", "$x", "=", "1", "\"c\"">>, 3, <<"", " d">>),
  <<OO("word"), OO("word_preserve"), << <<"word">>, <<"word_preserve">>, <<"linebreak">>, <<"*">> >>,
    << <<"newline">>, <<"word">>, <<"newline">>, <<"*">> >>, << <<"simple_command">>, <<"skip_whitespace">>, <<"word">>, <<"*">> >> >>)
EntryRedirs == Do(On("", <<"1", " ", ">", "f", "<<E", "\nE\n", "&", "\\\n", "-", ";", "a">>, 3, <<"", " 2>g">>),
  <<OO("redirect"), O("redirect_list"), C1(<<"redirect_heredoc", <<"7">> >>), << <<"redirect">>, <<"redirect_heredoc", <<>> >>, <<"word">>, <<"*">> >>,
    << <<"redirect_list">>, <<"simple_command">>, <<"*">> >> >>)
EntryReserved == Do(On("", <<"a", "{", "}", " ", "if", "\\\n", ";", "\n", "1", "fi">>, 3, <<"">>),
  << << RT(Curly), <<"*">> >>, << RT(NameA), RT(NameA), <<"*">> >>, << PT(SemiW), RT(SemiW), <<"*">> >>, << RT(<<>>), <<"*">> >>,
     << <<"reserved_word", <<"if", "{", "fi">> >>, <<"peek_reserved_word", <<"fi", "1">> >>, <<"reserved_word", <<"a", "fi", "1">> >>, <<"*">> >>,
     << PT(NameA), <<"peek_reserved_word", <<"if", "a">> >>, <<"word">>, <<"*">> >> >>)
G1(rt, rw, et) == <<"command_group", rt, rw, et>>
EntryGroups == Do(On("", <<"a", ";", "{ ", "}", "fi", " ", "\n", "#c\n", ")", "(">>, 3, <<"">>),
  << << G1(Curly, <<"fi">>, << <<"ParenClose", ")">> >>), <<"*">> >>, << G1(<<>>, <<"fi", "a">>, <<>>), G1(Curly, <<>>, <<>>), <<"*">> >>,
     << G1(<<>>, <<>>, << <<"Semi", ";">>, <<"Newline", "\n">> >>), <<"linebreak">>, <<"*">> >>,
     << G1(<<>>, <<>>, <<>>), <<"*">> >>, O("brace_group"), O("subshell"), O("compound_command") >>)
EntryDo    == Do(On("do ", <<"a;", "done", " ", "\n", "#c\n", "b", "do ", ">f", "&">>, 4, <<"">>), <<O("do_group"), << <<"skip_whitespace">>, <<"do_group">>, <<"redirect_list">>, <<"*">> >> >>)
EntryBlank == Do(On("", <<" ", "\\\n", "if ", "until ", "for x ", "case x ", "do ", "{ ", "(", "a;", "then ", "in ", "#c\n">>, 3, <<"">>),
                 <<O("do_group"), O("brace_group"), O("if_command"), O("loop_command"), O("for_command"), O("case_command"), O("subshell"), O("compound_command")>>)
EntryIf    == Do(Upto(Ifs, 3), <<O("if_command"), O("compound_command"), << <<"if_command">>, <<"redirect">>, <<"*">> >> >>)
EntryLoop  == Do(Upto(Loops, 3), <<O("loop_command"), O("compound_command"), O("command"), << <<"loop_command">>, <<"redirect_list">>, <<"and_or_list">> >> >>)
EntryFor   == Do(Upto(Fors2, 3), <<O("for_command"), O("pipeline"), << <<"for_command">>, <<"redirect_list">>, <<"*">> >> >>)
EntryCase  == Do(Upto(Cases, 3), <<O("case_command"), O("and_or_list"), << <<"case_command">>, <<"newline">>, <<"*">> >> >>)
EntryFn    == Do(Upto(Fns, 3), <<O("function"), OO("maybe_function"), O("command"), << <<"maybe_function">>, <<"simple_command">>, <<"*">> >> >>)
EntryLists == Do(Upto(Lists, 3), <<OO("pipeline"), OO("and_or_list"), OO("command"), << <<"linebreak">>, <<"pipeline">>, <<"newline">>, <<"*">> >>,
                                   << <<"complete_command">>, <<"and_or_list">>, <<"linebreak">> >>, OO("newline"), OO("linebreak")>>)
EntryParams == Do(On("", <<"$", "x", "{", "}", "1", "`", "a", "(", ")", "-", "$2", " ">>, 3, <<"", "}b">>),
  <<OO("parameter"), O("backticked"), << <<"parameter">>, <<"word_preserve">>, <<"*">> >> >>)
EntryArith == Do(On("", <<"1", "+", "x", "=", " ", "(", ")", ",", "?", ":", "++", "$">>, 4, <<"">>), <<O("arithmetic")>>)
EntryTicks == Do(On("`", <<"a", "\\", "`", "$x", " ", ")", "\\\n", "1">>, 4, <<"`b">>), <<OO("backticked")>>)

(* --- positions ---------------------------------------------------------------------------------------*)
PosTicks == On("<U+E9>`", <<"<U+E9>", "\\\\", "\\`", "\\$", "$(", "\n", ")", "x", "\\\n", ";">>, 4, <<"`", ")`">>)
PosHere  == On("a <<-E\n", <<"\t", "<U+E9>", "$x", "`", "\\`", ")", "\n", "E\n", "${", "\\\n">>, 4, <<"", "\nE\n)">>)
PosText  == On("", <<"<U+E9>", "\n", "<U+D>", "\t", ")", "#<U+1F600>", "'\n'", "\"\n", "\\\n", "a", "${", "<U+3000>">>, 4, <<"", ")">>)
PosDup   == Do(On("", <<"<U+E9>", "\n", " ", ">&", "a", "\\\n", "1", "-", "\t">>, 4, <<"", " <&<U+E9>">>),
              <<All, << <<"linebreak">>, <<"redirect_list">>, <<"*">> >> >>)

(* --- smaller ones ------------------------------------------------------------------------------------*)
Lists3 == Upto(Lists, 3)
Pipes3 == Upto(Pipes, 3)
Seps3  == Upto(Seps, 3)
Ifs3   == Upto(Ifs, 3)
Ifs23  == Upto(Ifs2, 3)
Loops3 == Upto(Loops, 3)
Fors3  == Upto(Fors, 3)
Fors23 == Upto(Fors2, 3)
Cases3 == Upto(Cases, 3)
Cases23 == Upto(Cases2, 3)
Fns_3  == Upto(Fns, 3)
Fns2_3 == Upto(Fns2, 3)
Words3 == Upto(Words, 3)
Simple3 == Upto(Simple, 3)
Bodies3 == Upto(Bodies, 3)
Tabs3   == Upto(Tabs, 3)
TwoDocs3 == Upto(TwoDocs, 3)
Ticks_3  == Upto(Ticks, 3)
Ticks2_3 == Upto(Ticks2, 3)
Groups3  == Upto(Groups, 3)
Reserved3 == Upto(Reserved, 3)
Empties3  == Upto(Empties, 3)

Frame == [
  PosTicks |-> PosTicks, PosHere |-> PosHere, PosText |-> PosText, PosDup |-> PosDup,
  Lists3 |-> Lists3, Pipes3 |-> Pipes3, Seps3 |-> Seps3, Ifs3 |-> Ifs3, Ifs23 |-> Ifs23, Loops3 |-> Loops3, Fors3 |-> Fors3,
  Fors23 |-> Fors23, Cases3 |-> Cases3, Cases23 |-> Cases23, Fns_3 |-> Fns_3, Fns2_3 |-> Fns2_3, Words3 |-> Words3,
  Simple3 |-> Simple3, Bodies3 |-> Bodies3, Tabs3 |-> Tabs3, TwoDocs3 |-> TwoDocs3, Ticks_3 |-> Ticks_3, Ticks2_3 |-> Ticks2_3,
  Groups3 |-> Groups3, Reserved3 |-> Reserved3, Empties3 |-> Empties3,
  Lists |-> Lists, Pipes |-> Pipes, Seps |-> Seps, Ifs |-> Ifs, Ifs2 |-> Ifs2, Loops |-> Loops, Fors |-> Fors, Fors2 |-> Fors2,
  Cases |-> Cases, Cases2 |-> Cases2, Groups |-> Groups, Reserved |-> Reserved, Empties |-> Empties,
  Fns |-> Fns, Fns2 |-> Fns2, Fns3 |-> Fns3, Fns4 |-> Fns4,
  Simple |-> Simple, Redirs |-> Redirs, Dups |-> Dups, Assigns |-> Assigns,
  Delims |-> Delims, Bodies |-> Bodies, Tabs |-> Tabs, QuotedDocs |-> QuotedDocs, TwoDocs |-> TwoDocs, LineRests |-> LineRests,
  Words |-> Words, Quotes |-> Quotes, Globs |-> Globs,
  Glued |-> Glued, FnNames |-> FnNames, FnNames2 |-> FnNames2, Broken |-> Broken, ArithU |-> ArithU,
  Params |-> Params, Params2 |-> Params2, Params3 |-> Params3, Params4 |-> Params4, Params5 |-> Params5,
  Subst |-> Subst, Ticks |-> Ticks, Ticks2 |-> Ticks2, Ticks3 |-> Ticks3,
  Arith |-> Arith, Arith2 |-> Arith2, Arith3 |-> Arith3, Arith4 |-> Arith4, Arith5 |-> Arith5, Arith6 |-> Arith6, Mixed |-> Mixed,
  TokArith |-> TokArith, TokParam |-> TokParam, TokHere |-> TokHere, TokCmd |-> TokCmd, TokTick |-> TokTick, TokFor |-> TokFor,
  IterLists |-> IterLists, IterPipes |-> IterPipes, IterWords |-> IterWords, IterHere |-> IterHere, IterToks |-> IterToks,
  FailLists |-> FailLists, FailPipes |-> FailPipes, FailIfs |-> FailIfs, FailLoops |-> FailLoops, FailFors |-> FailFors,
  FailCases |-> FailCases, FailCases2 |-> FailCases2, FailFns |-> FailFns, FailFns2 |-> FailFns2, FailSimple |-> FailSimple,
  FailAssign |-> FailAssign, FailHere |-> FailHere, FailHere2 |-> FailHere2, FailParams |-> FailParams, FailSubst |-> FailSubst,
  FailTicks |-> FailTicks, FailDups |-> FailDups,
  EntryWords |-> EntryWords, EntryRedirs |-> EntryRedirs, EntryReserved |-> EntryReserved, EntryGroups |-> EntryGroups,
  EntryDo |-> EntryDo, EntryBlank |-> EntryBlank, EntryIf |-> EntryIf, EntryLoop |-> EntryLoop, EntryFor |-> EntryFor, EntryCase |-> EntryCase,
  EntryFn |-> EntryFn, EntryLists |-> EntryLists, EntryParams |-> EntryParams, EntryArith |-> EntryArith, EntryTicks |-> EntryTicks
]
===============================================================================
