-------------------------------- MODULE MCLex --------------------------------
(***************************************************************************)
(* All texts of at most MaxLen characters over an alphabet: the lexer      *)
(* machine agrees with the declarative tokenization, and C01 and C02 hold  *)
(* of it.  Each finished behaviour is written out, to be replayed in the   *)
(* implementation.                                                         *)
(***************************************************************************)
EXTENDS LexerMachine, Integers, FiniteSets, Json, CSV, IOUtils

CONSTANTS Alphabet, MaxLen
OutFile == IOEnv.OUT

VARIABLES cs, m, out, building
vars == <<cs, m, out, building>>

Alphabets == [
  ops   |-> <<"<", ">", "-", "&", "|", ";", "$", "7", "a", "\\", "\n", " ">>,
  text  |-> <<"a", "_", "1", ".", "<U+E9>", "<U+301>", " ", "\t", "<U+3000>", "\n", "\\", "$", "#", "=">>,
  every |-> <<"\n","!","~","#","*","?","%","-","=","+",":","@","^","/",",","\\","'","\"","`",";","&","|","(",")",
              "{","}","[","]","$","<",">","0","3","9","a","Z","_",".","<U+E9>","<U+660>"," ","\t","<U+D>","<U+A0>">>,
  small |-> <<"a", "1", "\\", " ", "\n", "<", "$">> ]
A == Alphabets[Alphabet]

Init == cs = <<>> /\ m = LmStart /\ out = <<>> /\ building = TRUE
Extend == /\ building /\ Len(cs) < MaxLen
          /\ \E i \in 1..Len(A) : cs' = Append(cs, A[i])
          /\ UNCHANGED <<m, out, building>>
Run == building /\ building' = FALSE /\ UNCHANGED <<cs, m, out>>
Nones(o) == Cardinality({i \in 1..Len(o) : o[i] = <<"none">>})
Over == Nones(out) = 3
(* What the harness sees of it, with the most characters that may be read. *)
Seen(o, d) == [i \in 1..Len(o) |->
                 IF o[i] = <<"none">> THEN <<o[i], -1>>
                 ELSE << <<"tok", o[i][2], o[i][3], o[i][3], Bytes(o[i][3])>>,
                         IF o[i][2] = "Newline" THEN d[i].c ELSE -1>>]
Step == /\ ~building /\ ~Over
        /\ LET r == LmNext(cs, m)
               o == Append(out, r.x)
           IN /\ m' = r.m /\ out' = o
              /\ Nones(o) = 3 => CSVWrite("%1$s", <<ToJson([mode |-> "lex", cs |-> cs, exp |-> Seen(o, Lex(cs).ts)])>>, OutFile)
        /\ UNCHANGED <<cs, building>>
Next == Extend \/ Run \/ Step
Spec == Init /\ [][Next]_vars

Toks == SelectSeq(out, LAMBDA x : x[1] = "tok")
RECURSIVE AllText(_, _)
AllText(ts, i) == IF i > Len(ts) THEN "" ELSE ts[i][3] \o AllText(ts, i + 1)
L == Lex(cs)

(* The machine's tokens are the declarative ones, in order.                *)
Agree == \A i \in 1..Len(Toks) : i <= Len(L.ts) /\ Toks[i] = <<"tok", L.ts[i].k, L.ts[i].s>>
Complete == ~building /\ out # <<>> /\ out[Len(out)] = <<"none">> => Len(Toks) = Len(L.ts)
(* C01 *)
Lossless == ~building /\ out # <<>> /\ out[Len(out)] = <<"none">> => AllText(Toks, 1) = Cat(cs)
NoEmpty == \A i \in 1..Len(Toks) : Len(Toks[i][3]) > 0
Fused == \A i \in 1..Len(out) : out[i] = <<"none">> => i = Len(out) \/ out[i + 1] = <<"none">>
Hint == ~building => LET h == LmHint(cs, m)
                         left == Len(L.ts) - Len(Toks)
                     IN h[1] <= left /\ left <= h[2]
PromptNl == LET n == Len(Toks)
            IN n > 0 /\ n = Len(out) /\ Toks[n][2] = "Newline" => m.rd <= L.ts[n].c
(* C02: no split of the text into tokens has a longer first token.         *)
RECURSIVE EscAt(_, _)
EscAt(ts, i) == i > 1 /\ ts[i-1].k = "Backslash" /\ ~EscAt(ts, i - 1)
(* The characters a token consists of.                                     *)
CharsOf(i) == SubSeq(cs, (IF i = 1 THEN 0 ELSE L.ts[i-1].c) + 1, L.ts[i].c)
KindOk(i) ==
  LET t == L.ts[i]
      x == CharsOf(i)
      all(P(_)) == \A j \in 1..Len(x) : P(x[j])
  IN
  CASE t.k = "Newline"    -> t.s = "\n"
    [] t.k = "Whitespace" -> all(LAMBDA c : IsWsChar(c) /\ c # "\n")
    [] t.k = "Name"       -> IsNameStart(x[1]) /\ all(IsNameChar)
    [] t.k = "Literal"    -> ~IsNameStart(x[1]) /\ all(IsPlain)
    [] OTHER              -> t.s \in Ops /\ OpKind[t.s] = t.k
Kinds == \A i \in 1..Len(L.ts) : KindOk(i)
(* Extending a token by the next character never gives a longer token,     *)
(* unless a backslash keeps them apart.                                    *)
MaxMunch ==
  \A i \in 1..(Len(L.ts) - 1) :
    LET t == L.ts[i]
        c == cs[t.c + 1]
    IN ~EscAt(L.ts, i) =>
       /\ t.k = "Whitespace" => ~(IsWsChar(c) /\ c # "\n")
       /\ t.k = "Name" => ~IsNameChar(c)
       /\ t.k = "Literal" => ~IsPlain(c)
       /\ t.s \in Ops /\ Len(c) = 1 => (t.s \o c) \notin Ops
EscSingle == \A i \in 1..Len(L.ts) : EscAt(L.ts, i) => L.ts[i].c = L.ts[i-1].c + 1
=============================================================================
