//! Canonical encodings of the library's values (see spec/ShellParser.tla).
use crate::arr;
use crate::json::{n, opt, s, J};
use conch_parser::ast::builder::*;
use conch_parser::ast::{self, Arithmetic, Parameter};
use conch_parser::parse::{ParseError, SourcePos};
use conch_parser::token::{Positional, Token};

pub fn sym(c: char) -> String {
    if c == '\n' || c == '\t' || (c >= ' ' && c <= '~') {
        c.to_string()
    } else {
        format!("<U+{:X}>", c as u32)
    }
}
pub fn unsym(t: &str) -> String {
    let mut out = String::new();
    let mut rest = t;
    while let Some(p) = rest.find("<U+") {
        out.push_str(&rest[..p]);
        let tail = &rest[p + 3..];
        let q = tail.find('>').unwrap();
        out.push(std::char::from_u32(u32::from_str_radix(&tail[..q], 16).unwrap()).unwrap());
        rest = &tail[q + 1..];
    }
    out.push_str(rest);
    out
}
pub fn text(t: &str) -> J {
    J::S(t.chars().map(sym).collect())
}
pub fn chars(t: &str) -> J {
    J::A(t.chars().map(|c| J::S(sym(c))).collect())
}

pub fn pos(p: SourcePos) -> J {
    arr![n(p.byte), n(p.line), n(p.col)]
}

pub fn kind(t: &Token) -> &'static str {
    use Token::*;
    match *t {
        Newline => "Newline",
        ParenOpen => "ParenOpen",
        ParenClose => "ParenClose",
        CurlyOpen => "CurlyOpen",
        CurlyClose => "CurlyClose",
        SquareOpen => "SquareOpen",
        SquareClose => "SquareClose",
        Bang => "Bang",
        Tilde => "Tilde",
        Pound => "Pound",
        Star => "Star",
        Question => "Question",
        Backslash => "Backslash",
        Percent => "Percent",
        Dash => "Dash",
        Equals => "Equals",
        Plus => "Plus",
        Colon => "Colon",
        At => "At",
        Caret => "Caret",
        Slash => "Slash",
        Comma => "Comma",
        SingleQuote => "SingleQuote",
        DoubleQuote => "DoubleQuote",
        Backtick => "Backtick",
        Semi => "Semi",
        Amp => "Amp",
        Pipe => "Pipe",
        AndIf => "AndIf",
        OrIf => "OrIf",
        DSemi => "DSemi",
        Less => "Less",
        Great => "Great",
        DLess => "DLess",
        DGreat => "DGreat",
        GreatAnd => "GreatAnd",
        LessAnd => "LessAnd",
        DLessDash => "DLessDash",
        Clobber => "Clobber",
        LessGreat => "LessGreat",
        Dollar => "Dollar",
        ParamPositional(_) => "ParamPositional",
        Whitespace(_) => "Whitespace",
        Literal(_) => "Literal",
        Name(_) => "Name",
    }
}

pub fn tok(t: &Token) -> J {
    let txt = match *t {
        // taken from the number, not from the text the token claims to have
        Token::ParamPositional(p) => format!("${}", p.as_num()),
        Token::Whitespace(ref w) | Token::Literal(ref w) | Token::Name(ref w) => w.clone(),
        _ => fixed(kind(t)).to_string(),
    };
    arr![s(kind(t)), text(&txt)]
}

/// The source text of the tokens that stand for one fixed piece of text.
pub fn fixed(k: &str) -> &'static str {
    FIXED.iter().find(|e| e.0 == k).map(|e| e.1).unwrap()
}
pub const FIXED: &[(&str, &str)] = &[
    ("Newline", "\n"), ("ParenOpen", "("), ("ParenClose", ")"), ("CurlyOpen", "{"), ("CurlyClose", "}"),
    ("SquareOpen", "["), ("SquareClose", "]"), ("Bang", "!"), ("Tilde", "~"), ("Pound", "#"), ("Star", "*"),
    ("Question", "?"), ("Backslash", "\\"), ("Percent", "%"), ("Dash", "-"), ("Equals", "="), ("Plus", "+"),
    ("Colon", ":"), ("At", "@"), ("Caret", "^"), ("Slash", "/"), ("Comma", ","), ("SingleQuote", "'"),
    ("DoubleQuote", "\""), ("Backtick", "`"), ("Semi", ";"), ("Amp", "&"), ("Pipe", "|"), ("AndIf", "&&"),
    ("OrIf", "||"), ("DSemi", ";;"), ("Less", "<"), ("Great", ">"), ("DLess", "<<"), ("DGreat", ">>"),
    ("GreatAnd", ">&"), ("LessAnd", "<&"), ("DLessDash", "<<-"), ("Clobber", ">|"), ("LessGreat", "<>"),
    ("Dollar", "$"),
];

/// The token of a kind and source text.
pub fn mktok(k: &str, t: &str) -> Token {
    use Token::*;
    match k {
        "Newline" => Newline,
        "ParenOpen" => ParenOpen,
        "ParenClose" => ParenClose,
        "CurlyOpen" => CurlyOpen,
        "CurlyClose" => CurlyClose,
        "SquareOpen" => SquareOpen,
        "SquareClose" => SquareClose,
        "Bang" => Bang,
        "Tilde" => Tilde,
        "Pound" => Pound,
        "Star" => Star,
        "Question" => Question,
        "Backslash" => Backslash,
        "Percent" => Percent,
        "Dash" => Dash,
        "Equals" => Equals,
        "Plus" => Plus,
        "Colon" => Colon,
        "At" => At,
        "Caret" => Caret,
        "Slash" => Slash,
        "Comma" => Comma,
        "SingleQuote" => SingleQuote,
        "DoubleQuote" => DoubleQuote,
        "Backtick" => Backtick,
        "Semi" => Semi,
        "Amp" => Amp,
        "Pipe" => Pipe,
        "AndIf" => AndIf,
        "OrIf" => OrIf,
        "DSemi" => DSemi,
        "Less" => Less,
        "Great" => Great,
        "DLess" => DLess,
        "DGreat" => DGreat,
        "GreatAnd" => GreatAnd,
        "LessAnd" => LessAnd,
        "DLessDash" => DLessDash,
        "Clobber" => Clobber,
        "LessGreat" => LessGreat,
        "Dollar" => Dollar,
        "ParamPositional" => {
            use Positional as P;
            ParamPositional(match &t[1..] {
                "0" => P::Zero,
                "1" => P::One,
                "2" => P::Two,
                "3" => P::Three,
                "4" => P::Four,
                "5" => P::Five,
                "6" => P::Six,
                "7" => P::Seven,
                "8" => P::Eight,
                _ => P::Nine,
            })
        }
        "Whitespace" => Whitespace(t.to_string()),
        "Literal" => Literal(t.to_string()),
        "Name" => Name(t.to_string()),
        _ => panic!("no token kind {}", k),
    }
}

pub fn nl(v: &Newline) -> J {
    match v.0 {
        None => arr![s("n")],
        Some(ref c) => arr![s("c"), text(c)],
    }
}
pub fn nls(v: &[Newline]) -> J {
    J::A(v.iter().map(nl).collect())
}
pub fn onl(v: &Option<Newline>) -> J {
    opt(v.as_ref().map(nl))
}

pub fn ids(v: &[usize]) -> J {
    J::A(v.iter().map(|i| n(*i)).collect())
}
pub fn cg(v: &CommandGroup<usize>) -> J {
    arr![s("cg"), ids(&v.commands), nls(&v.trailing_comments)]
}

pub fn param<T: AsStr>(p: &Parameter<T>) -> J {
    match *p {
        Parameter::At => arr![s("at")],
        Parameter::Star => arr![s("star")],
        Parameter::Pound => arr![s("pound")],
        Parameter::Question => arr![s("quest")],
        Parameter::Dash => arr![s("dash")],
        Parameter::Dollar => arr![s("dollar")],
        Parameter::Bang => arr![s("bang")],
        Parameter::Positional(i) => arr![s("pos"), s(i.to_string())],
        Parameter::Var(ref v) => arr![s("var"), text(v.st())],
    }
}

pub trait AsStr {
    fn st(&self) -> &str;
}
impl AsStr for String {
    fn st(&self) -> &str {
        self
    }
}
impl AsStr for std::rc::Rc<String> {
    fn st(&self) -> &str {
        self
    }
}
impl AsStr for std::sync::Arc<String> {
    fn st(&self) -> &str {
        self
    }
}

pub fn arith<T: AsStr>(a: &Arithmetic<T>) -> J {
    use Arithmetic::*;
    let b = |t: &str, x: &Arithmetic<T>, y: &Arithmetic<T>| arr![s(t), arith(x), arith(y)];
    let u = |t: &str, x: &Arithmetic<T>| arr![s(t), arith(x)];
    let v = |t: &str, x: &T| arr![s(t), text(x.st())];
    match *a {
        Var(ref x) => v("var", x),
        Literal(i) => arr![s("num"), s(i.to_string())],
        Pow(ref x, ref y) => b("pow", x, y),
        PostIncr(ref x) => v("postinc", x),
        PostDecr(ref x) => v("postdec", x),
        PreIncr(ref x) => v("preinc", x),
        PreDecr(ref x) => v("predec", x),
        UnaryPlus(ref x) => u("uplus", x),
        UnaryMinus(ref x) => u("uminus", x),
        LogicalNot(ref x) => u("not", x),
        BitwiseNot(ref x) => u("bnot", x),
        Mult(ref x, ref y) => b("mul", x, y),
        Div(ref x, ref y) => b("div", x, y),
        Modulo(ref x, ref y) => b("mod", x, y),
        Add(ref x, ref y) => b("add", x, y),
        Sub(ref x, ref y) => b("sub", x, y),
        ShiftLeft(ref x, ref y) => b("shl", x, y),
        ShiftRight(ref x, ref y) => b("shr", x, y),
        Less(ref x, ref y) => b("lt", x, y),
        LessEq(ref x, ref y) => b("le", x, y),
        Great(ref x, ref y) => b("gt", x, y),
        GreatEq(ref x, ref y) => b("ge", x, y),
        Eq(ref x, ref y) => b("eq", x, y),
        NotEq(ref x, ref y) => b("ne", x, y),
        BitwiseAnd(ref x, ref y) => b("band", x, y),
        BitwiseXor(ref x, ref y) => b("bxor", x, y),
        BitwiseOr(ref x, ref y) => b("bor", x, y),
        LogicalAnd(ref x, ref y) => b("land", x, y),
        LogicalOr(ref x, ref y) => b("lor", x, y),
        Ternary(ref x, ref y, ref z) => arr![s("tern"), arith(x), arith(y), arith(z)],
        Assign(ref x, ref y) => arr![s("assign"), text(x.st()), arith(y)],
        Sequence(ref v) => arr![s("seq"), J::A(v.iter().map(arith).collect())],
    }
}

pub fn complex(w: &ComplexWordKind<usize>) -> J {
    match *w {
        ComplexWordKind::Single(ref w) => arr![s("s"), wordk(w)],
        ComplexWordKind::Concat(ref v) => arr![s("c"), J::A(v.iter().map(wordk).collect())],
    }
}
fn wordk(w: &WordKind<usize>) -> J {
    match *w {
        WordKind::Simple(ref w) => arr![s("S"), simple(w)],
        WordKind::DoubleQuoted(ref v) => arr![s("D"), J::A(v.iter().map(simple).collect())],
        WordKind::SingleQuoted(ref t) => arr![s("Q"), text(t)],
    }
}
fn simple(w: &SimpleWordKind<usize>) -> J {
    match *w {
        SimpleWordKind::Literal(ref t) => arr![s("lit"), text(t)],
        SimpleWordKind::Escaped(ref t) => arr![s("esc"), text(t)],
        SimpleWordKind::Param(ref p) => arr![s("param"), param(p)],
        SimpleWordKind::CommandSubst(ref c) => arr![s("cmd"), cg(c)],
        SimpleWordKind::Subst(ref x) => arr![s("sub"), subst(x)],
        SimpleWordKind::Star => arr![s("star")],
        SimpleWordKind::Question => arr![s("quest")],
        SimpleWordKind::SquareOpen => arr![s("sqo")],
        SimpleWordKind::SquareClose => arr![s("sqc")],
        SimpleWordKind::Tilde => arr![s("tilde")],
        SimpleWordKind::Colon => arr![s("colon")],
    }
}
fn subst(x: &ParameterSubstitutionKind<ComplexWordKind<usize>, usize>) -> J {
    use ParameterSubstitutionKind::*;
    let ow = |w: &Option<ComplexWordKind<usize>>| opt(w.as_ref().map(complex));
    match *x {
        Command(ref c) => arr![s("cmd"), cg(c)],
        Len(ref p) => arr![s("len"), param(p)],
        Arith(ref a) => arr![s("arith"), opt(a.as_ref().map(arith))],
        Default(c, ref p, ref w) => arr![s("def"), J::B(c), param(p), ow(w)],
        Assign(c, ref p, ref w) => arr![s("asg"), J::B(c), param(p), ow(w)],
        Error(c, ref p, ref w) => arr![s("err"), J::B(c), param(p), ow(w)],
        Alternative(c, ref p, ref w) => arr![s("alt"), J::B(c), param(p), ow(w)],
        RemoveSmallestSuffix(ref p, ref w) => arr![s("rss"), param(p), ow(w)],
        RemoveLargestSuffix(ref p, ref w) => arr![s("rls"), param(p), ow(w)],
        RemoveSmallestPrefix(ref p, ref w) => arr![s("rsp"), param(p), ow(w)],
        RemoveLargestPrefix(ref p, ref w) => arr![s("rlp"), param(p), ow(w)],
    }
}

pub fn fd(v: Option<u16>) -> J {
    opt(v.map(|f| s(f.to_string())))
}

pub fn sep(v: SeparatorKind) -> J {
    s(match v {
        SeparatorKind::Semi => "semi",
        SeparatorKind::Amp => "amp",
        SeparatorKind::Newline => "newline",
        SeparatorKind::Other => "other",
    })
}
pub fn loopk(v: LoopKind) -> J {
    s(match v {
        LoopKind::While => "while",
        LoopKind::Until => "until",
    })
}
pub fn iff(f: &IfFragments<usize>) -> (J, J) {
    (
        J::A(f.conditionals.iter().map(|g| arr![cg(&g.guard), cg(&g.body)]).collect()),
        opt(f.else_branch.as_ref().map(cg)),
    )
}
pub fn forf(f: &ForFragments<usize, usize>) -> Vec<J> {
    vec![
        text(&f.var),
        onl(&f.var_comment),
        opt(f.words.as_ref().map(|w| arr![nls(&w.0), ids(&w.1), onl(&w.2)])),
        nls(&f.pre_body_comments),
        cg(&f.body),
    ]
}
pub fn casef(f: &CaseFragments<usize, usize>) -> Vec<J> {
    vec![
        n(f.word),
        nls(&f.post_word_comments),
        onl(&f.in_comment),
        J::A(
            f.arms
                .iter()
                .map(|a| {
                    arr![
                        nls(&a.patterns.pre_pattern_comments),
                        ids(&a.patterns.pattern_alternatives),
                        onl(&a.patterns.pattern_comment),
                        cg(&a.body),
                        onl(&a.arm_comment)
                    ]
                })
                .collect(),
        ),
        nls(&f.post_arms_comments),
    ]
}

pub fn err<E>(e: &ParseError<E>, custom: impl Fn(&E) -> J) -> J {
    match *e {
        ParseError::BadFd(a, b) => arr![s("BadFd"), pos(a), pos(b)],
        ParseError::BadIdent(ref t, p) => arr![s("BadIdent"), text(t), pos(p)],
        ParseError::BadSubst(ref t, p) => arr![s("BadSubst"), tok(t), pos(p)],
        ParseError::Unmatched(ref t, p) => arr![s("Unmatched"), tok(t), pos(p)],
        ParseError::IncompleteCmd(c, p, k, q) => arr![s("Incomplete"), s(c), pos(p), s(k), pos(q)],
        ParseError::Unexpected(ref t, p) => arr![s("Unexpected"), tok(t), pos(p)],
        ParseError::UnexpectedEOF => arr![s("EOF")],
        ParseError::Custom(ref e) => arr![s("Custom"), custom(e)],
    }
}

// --- the default AST -----------------------------------------------------

/// A node of either default tree that can be encoded.
pub trait Enc {
    fn enc(&self) -> J;
}
impl Enc for conch_parser::ast::builder::Newline {
    fn enc(&self) -> J {
        nl(self)
    }
}
impl<W: Enc> Enc for ast::Redirect<W> {
    fn enc(&self) -> J {
        use ast::Redirect::*;
        let (t, f, w) = match *self {
            Read(f, ref w) => ("read", f, w),
            Write(f, ref w) => ("write", f, w),
            ReadWrite(f, ref w) => ("readwrite", f, w),
            Append(f, ref w) => ("append", f, w),
            Clobber(f, ref w) => ("clobber", f, w),
            Heredoc(f, ref w) => ("heredoc", f, w),
            DupRead(f, ref w) => ("dupread", f, w),
            DupWrite(f, ref w) => ("dupwrite", f, w),
        };
        arr![s("redirect"), s(t), fd(f), w.enc()]
    }
}
fn list<T: Enc>(v: &[T]) -> J {
    J::A(v.iter().map(Enc::enc).collect())
}
fn oenc<T: Enc>(v: &Option<T>) -> J {
    opt(v.as_ref().map(Enc::enc))
}
impl<T: AsStr, W: Enc, C: Enc> Enc for ast::ShellWord<T, W, C> {
    fn enc(&self) -> J {
        match *self {
            ast::ComplexWord::Single(ref w) => arr![s("s"), eword(w)],
            ast::ComplexWord::Concat(ref v) => arr![s("c"), J::A(v.iter().map(eword).collect())],
        }
    }
}
type Sub<T, W, C> = ast::ParameterSubstitution<Parameter<T>, W, C, Arithmetic<T>>;
type Simple<T, W, C> = ast::SimpleWord<T, Parameter<T>, Box<Sub<T, W, C>>>;
fn eword<T: AsStr, W: Enc, C: Enc>(w: &ast::Word<T, Simple<T, W, C>>) -> J {
    match *w {
        ast::Word::Simple(ref w) => arr![s("S"), esimple(w)],
        ast::Word::DoubleQuoted(ref v) => arr![s("D"), J::A(v.iter().map(esimple).collect())],
        ast::Word::SingleQuoted(ref t) => arr![s("Q"), text(t.st())],
    }
}
fn esimple<T: AsStr, W: Enc, C: Enc>(w: &Simple<T, W, C>) -> J {
    use ast::SimpleWord::*;
    match *w {
        Literal(ref t) => arr![s("lit"), text(t.st())],
        Escaped(ref t) => arr![s("esc"), text(t.st())],
        Param(ref p) => arr![s("param"), param(p)],
        Subst(ref x) => arr![s("sub"), esub(x)],
        Star => arr![s("star")],
        Question => arr![s("quest")],
        SquareOpen => arr![s("sqo")],
        SquareClose => arr![s("sqc")],
        Tilde => arr![s("tilde")],
        Colon => arr![s("colon")],
    }
}
fn esub<T: AsStr, W: Enc, C: Enc>(x: &Sub<T, W, C>) -> J {
    use ast::ParameterSubstitution::*;
    match *x {
        Command(ref c) => arr![s("cmd"), list(c)],
        Len(ref p) => arr![s("len"), param(p)],
        Arith(ref a) => arr![s("arith"), opt(a.as_ref().map(arith))],
        Default(c, ref p, ref w) => arr![s("def"), J::B(c), param(p), oenc(w)],
        Assign(c, ref p, ref w) => arr![s("asg"), J::B(c), param(p), oenc(w)],
        Error(c, ref p, ref w) => arr![s("err"), J::B(c), param(p), oenc(w)],
        Alternative(c, ref p, ref w) => arr![s("alt"), J::B(c), param(p), oenc(w)],
        RemoveSmallestSuffix(ref p, ref w) => arr![s("rss"), param(p), oenc(w)],
        RemoveLargestSuffix(ref p, ref w) => arr![s("rls"), param(p), oenc(w)],
        RemoveSmallestPrefix(ref p, ref w) => arr![s("rsp"), param(p), oenc(w)],
        RemoveLargestPrefix(ref p, ref w) => arr![s("rlp"), param(p), oenc(w)],
    }
}
impl<T: AsStr> Enc for ast::TopLevelWord<T> {
    fn enc(&self) -> J {
        self.0.enc()
    }
}
impl<T: AsStr> Enc for ast::AtomicTopLevelWord<T> {
    fn enc(&self) -> J {
        self.0.enc()
    }
}
impl<T: AsStr> Enc for ast::TopLevelCommand<T> {
    fn enc(&self) -> J {
        self.0.enc()
    }
}
impl<T: AsStr> Enc for ast::AtomicTopLevelCommand<T> {
    fn enc(&self) -> J {
        self.0.enc()
    }
}
impl<L: Enc> Enc for ast::Command<L> {
    fn enc(&self) -> J {
        match *self {
            ast::Command::Job(ref l) => arr![s("job"), l.enc()],
            ast::Command::List(ref l) => arr![s("list"), l.enc()],
        }
    }
}
impl<L: Enc> Enc for ast::AndOrList<L> {
    fn enc(&self) -> J {
        arr![
            self.first.enc(),
            J::A(
                self.rest
                    .iter()
                    .map(|e| match *e {
                        ast::AndOr::And(ref c) => arr![s("and"), c.enc()],
                        ast::AndOr::Or(ref c) => arr![s("or"), c.enc()],
                    })
                    .collect()
            )
        ]
    }
}
impl<P: Enc> Enc for ast::ListableCommand<P> {
    fn enc(&self) -> J {
        match *self {
            ast::ListableCommand::Pipe(b, ref v) => arr![s("pipe"), J::B(b), list(v)],
            ast::ListableCommand::Single(ref c) => arr![s("single"), c.enc()],
        }
    }
}
impl<N: AsStr, S: Enc, C: Enc, F: Enc> Enc for ast::PipeableCommand<N, Box<S>, Box<C>, F> {
    fn enc(&self) -> J {
        match *self {
            ast::PipeableCommand::Simple(ref c) => c.enc(),
            ast::PipeableCommand::Compound(ref c) => c.enc(),
            ast::PipeableCommand::FunctionDef(ref m, ref f) => arr![s("fn"), text(m.st()), f.enc()],
        }
    }
}
impl<T: Enc> Enc for std::rc::Rc<T> {
    fn enc(&self) -> J {
        (**self).enc()
    }
}
impl<T: Enc> Enc for std::sync::Arc<T> {
    fn enc(&self) -> J {
        (**self).enc()
    }
}
impl<V: AsStr, W: Enc, R: Enc> Enc for ast::SimpleCommand<V, W, R> {
    fn enc(&self) -> J {
        arr![
            s("simple"),
            J::A(
                self.redirects_or_env_vars
                    .iter()
                    .map(|e| match *e {
                        ast::RedirectOrEnvVar::Redirect(ref r) => arr![s("r"), r.enc()],
                        ast::RedirectOrEnvVar::EnvVar(ref v, ref w) => arr![s("v"), text(v.st()), oenc(w)],
                    })
                    .collect()
            ),
            J::A(
                self.redirects_or_cmd_words
                    .iter()
                    .map(|e| match *e {
                        ast::RedirectOrCmdWord::Redirect(ref r) => arr![s("r"), r.enc()],
                        ast::RedirectOrCmdWord::CmdWord(ref w) => arr![s("w"), w.enc()],
                    })
                    .collect()
            )
        ]
    }
}
impl<T: AsStr, W: Enc, C: Enc, R: Enc> Enc for ast::CompoundCommand<ast::CompoundCommandKind<T, W, C>, R> {
    fn enc(&self) -> J {
        use ast::CompoundCommandKind::*;
        let io = list(&self.io);
        let pair = |t: &str, p: &ast::GuardBodyPair<C>, io| arr![s("loop"), s(t), list(&p.guard), list(&p.body), io];
        match self.kind {
            Brace(ref v) => arr![s("brace"), list(v), io],
            Subshell(ref v) => arr![s("subshell"), list(v), io],
            While(ref p) => pair("while", p, io),
            Until(ref p) => pair("until", p, io),
            If { ref conditionals, ref else_branch } => arr![
                s("if"),
                J::A(conditionals.iter().map(|p| arr![list(&p.guard), list(&p.body)]).collect()),
                opt(else_branch.as_ref().map(|v| list(v))),
                io
            ],
            For { ref var, ref words, ref body } => {
                arr![s("for"), text(var.st()), opt(words.as_ref().map(|v| list(v))), list(body), io]
            }
            Case { ref word, ref arms } => arr![
                s("case"),
                word.enc(),
                J::A(arms.iter().map(|a| arr![list(&a.patterns), list(&a.body)]).collect()),
                io
            ],
        }
    }
}
