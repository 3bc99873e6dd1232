//! What is observable without a parse: displayed forms, tokens, numbers,
//! positions, and the default builder fed with words of any shape.
use crate::arr;
use crate::enc::*;
use crate::gen::Rng;
use crate::json::{n, opt, s, J};
use crate::rec::Fail;
use conch_parser::ast::builder::*;
use conch_parser::ast::Parameter;
use conch_parser::parse::{ParseError, SourcePos};
use conch_parser::token::{Positional, Token};

fn mkparam(p: &J) -> Parameter<String> {
    let a = p.arr();
    match a[0].str() {
        "at" => Parameter::At,
        "star" => Parameter::Star,
        "pound" => Parameter::Pound,
        "quest" => Parameter::Question,
        "dash" => Parameter::Dash,
        "dollar" => Parameter::Dollar,
        "bang" => Parameter::Bang,
        "pos" => Parameter::Positional(a[1].str().parse().unwrap()),
        _ => Parameter::Var(unsym(a[1].str())),
    }
}
fn mkpos(p: &J) -> SourcePos {
    let k = |i: usize| p.arr()[i].num() as usize;
    SourcePos { byte: k(0), line: k(1), col: k(2) }
}
fn mkt(t: &J) -> Token {
    mktok(t.arr()[0].str(), &unsym(t.arr()[1].str()))
}
const CMDS: &[&str] = &["case", "do", "for", "if", "until", "while"];
const KWS: &[&str] = &["esac", "in", "done", "do", "then", "fi"];
fn stat(v: &'static [&'static str], x: &str) -> &'static str {
    v.iter().find(|y| **y == x).unwrap()
}
fn mkerr(e: &J) -> ParseError<Fail> {
    let a = e.arr();
    match a[0].str() {
        "BadFd" => ParseError::BadFd(mkpos(&a[1]), mkpos(&a[2])),
        "BadIdent" => ParseError::BadIdent(unsym(a[1].str()), mkpos(&a[2])),
        "BadSubst" => ParseError::BadSubst(mkt(&a[1]), mkpos(&a[2])),
        "Unmatched" => ParseError::Unmatched(mkt(&a[1]), mkpos(&a[2])),
        "Incomplete" => {
            ParseError::IncompleteCmd(stat(CMDS, a[1].str()), mkpos(&a[2]), stat(KWS, a[3].str()), mkpos(&a[4]))
        }
        "Unexpected" => ParseError::Unexpected(mkt(&a[1]), mkpos(&a[2])),
        "EOF" => ParseError::UnexpectedEOF,
        _ => ParseError::from(Fail(a[1].num() as usize)),
    }
}

fn mksimple<C>(w: &J) -> SimpleWordKind<C> {
    use SimpleWordKind::*;
    let a = w.arr();
    match a[0].str() {
        "lit" => Literal(unsym(a[1].str())),
        "esc" => Escaped(unsym(a[1].str())),
        "param" => Param(mkparam(&a[1])),
        "sub" => Subst(Box::new(mksub(&a[1]))),
        "star" => Star,
        "quest" => Question,
        "sqo" => SquareOpen,
        "sqc" => SquareClose,
        "tilde" => Tilde,
        _ => Colon,
    }
}
fn mksub<C>(x: &J) -> ParameterSubstitutionKind<ComplexWordKind<C>, C> {
    use ParameterSubstitutionKind::*;
    let a = x.arr();
    let colon = || a[1] == J::B(true);
    let ow = |i: usize| a[i].arr().get(0).map(mkword);
    match a[0].str() {
        "len" => Len(mkparam(&a[1])),
        "def" => Default(colon(), mkparam(&a[2]), ow(3)),
        "asg" => Assign(colon(), mkparam(&a[2]), ow(3)),
        "err" => Error(colon(), mkparam(&a[2]), ow(3)),
        "alt" => Alternative(colon(), mkparam(&a[2]), ow(3)),
        "rss" => RemoveSmallestSuffix(mkparam(&a[1]), ow(2)),
        "rls" => RemoveLargestSuffix(mkparam(&a[1]), ow(2)),
        "rsp" => RemoveSmallestPrefix(mkparam(&a[1]), ow(2)),
        _ => RemoveLargestPrefix(mkparam(&a[1]), ow(2)),
    }
}
fn mkpiece<C>(p: &J) -> WordKind<C> {
    let a = p.arr();
    match a[0].str() {
        "S" => WordKind::Simple(mksimple(&a[1])),
        "D" => WordKind::DoubleQuoted(a[1].arr().iter().map(mksimple).collect()),
        _ => WordKind::SingleQuoted(unsym(a[1].str())),
    }
}
fn mkword<C>(w: &J) -> ComplexWordKind<C> {
    let a = w.arr();
    if a[0].str() == "s" {
        ComplexWordKind::Single(mkpiece(&a[1]))
    } else {
        ComplexWordKind::Concat(a[1].arr().iter().map(mkpiece).collect())
    }
}
fn built<B>(mut b: B, w: &J) -> J
where
    B: Builder,
    B::Word: Enc,
{
    b.word(mkword(w)).map(|w| w.enc()).unwrap_or_else(|_| s("error"))
}

fn run1(x: &J) -> Vec<(String, J)> {
    let put = |k: &str, v: J| (k.to_string(), v);
    match x.get("kind").unwrap().str() {
        "param" => {
            let p = mkparam(x.get("p").unwrap());
            let disp = p.to_string();
            let y = J::O(vec![
                put("cs", chars(&disp)),
                put("calls", arr![arr![s("parameter")], arr![s("complete_command")]]),
            ]);
            let alts = J::A(vec![chars(&format!("{:#}", p)), chars(&format!("{}", &&p))]);
            vec![put("disp", chars(&disp)), put("alts", alts), put("out", crate::sess::session(&y))]
        }
        "tok" => {
            let f = |t: &J| {
                let t = mkt(t);
                arr![text(&t.to_string()), text(&format!("{:#}", t)), text(t.as_str()), n(t.len()), J::B(t.is_empty()), J::B(t.is_word_delimiter())]
            };
            vec![put("res", J::A(x.get("toks").unwrap().arr().iter().map(f).collect()))]
        }
        "num" => {
            let f = |i: usize| {
                let p = Positional::from_num(i as u8);
                arr![
                    n(i),
                    opt(p.map(|p| {
                        let k: u8 = p.into();
                        arr![n(p.as_num() as usize), n(k as usize), text(Token::ParamPositional(p).as_str())]
                    }))
                ]
            };
            vec![put("res", J::A((0..256).map(f).collect()))]
        }
        "adv" => {
            let mut p = mkpos(x.get("p").unwrap());
            let mut v = vec![pos(SourcePos::new()), pos(SourcePos::default())];
            for t in x.get("toks").unwrap().arr() {
                p.advance(&mkt(t));
                v.push(pos(p));
            }
            vec![put("res", J::A(v))]
        }
        "err" => {
            use std::error::Error;
            let e = mkerr(x.get("e").unwrap());
            #[allow(deprecated)]
            let cause = e.cause().map_or(String::new(), |c| c.to_string());
            vec![put("disp", text(&e.to_string())), put("alt", text(&format!("{:#}", e))), put("cause", text(&cause))]
        }
        _ => {
            let w = x.get("w").unwrap();
            let a = built(StringBuilder::new(), w);
            let others = vec![
                built(RcBuilder::new(), w),
                built(ArcBuilder::new(), w),
                built(DefaultBuilder::<std::rc::Rc<String>>::new(), w),
                built(AtomicDefaultBuilder::<String>::new(), w),
                built(Box::new(StringBuilder::new()), w),
                built(&mut StringBuilder::new(), w),
            ];
            let differ = others.into_iter().filter(|o| *o != a).collect();
            vec![put("ast", a), put("differ", J::A(differ))]
        }
    }
}
pub fn run(x: &J) -> Vec<(String, J)> {
    match crate::sess::caught(|| run1(x)) {
        Ok(v) => v,
        Err(e) => vec![("panic".to_string(), e)],
    }
}

// --- random sessions -------------------------------------------------------

const NAMES: &[&str] = &["a", "_", "x1", "if", "Z_9", "é", "中x", "done", "in", "U", "a1b2", "function"];
pub fn gparam(r: &mut Rng) -> J {
    match r.below(9) {
        0 => arr![s("at")],
        1 => arr![s("star")],
        2 => arr![s("pound")],
        3 => arr![s("quest")],
        4 => arr![s("dash")],
        5 => arr![s("dollar")],
        6 => arr![s("bang")],
        7 => {
            let k = match r.below(4) {
                0 => r.below(12),
                1 => r.below(300),
                2 => r.next() as u32 as usize,
                _ => *r.pick(&[9, 10, 99, 65535, 65536, 4294967295, 4294967294, 2147483648]),
            };
            arr![s("pos"), s(k.to_string())]
        }
        _ => arr![s("var"), text(*r.pick(NAMES))],
    }
}
pub fn gtok(r: &mut Rng) -> J {
    let f = r.below(FIXED.len() + 12);
    if f < FIXED.len() {
        return arr![s(FIXED[f].0), text(FIXED[f].1)];
    }
    match r.below(4) {
        0 => arr![s("ParamPositional"), s(format!("${}", r.below(10)))],
        1 => arr![s("Whitespace"), text(*r.pick(&[" ", "\t", "  \t", "\u{3000}", " \u{a0} ", "\r"]))],
        2 => arr![s("Name"), text(*r.pick(NAMES))],
        _ => arr![s("Literal"), text(*r.pick(&["1", "12", "0x1F", ".", "1a", "\u{ff11}", "\u{301}", "\u{1f600}", "a\nb", "a\n\nbc", "\n", "if", "9a.b"]))],
    }
}
fn gpos(r: &mut Rng) -> J {
    let m = if r.p(50) { 4 } else { 200 };
    let l = 1 + r.below(m);
    let c = 1 + r.below(m);
    arr![n(r.below(5000)), n(l), n(c)]
}
fn gerr(r: &mut Rng) -> J {
    match r.below(8) {
        0 => arr![s("BadFd"), gpos(r), gpos(r)],
        1 => arr![s("BadIdent"), text(*r.pick(&["1a", "é", "a.b", "12", "\n"])), gpos(r)],
        2 => arr![s("BadSubst"), gtok(r), gpos(r)],
        3 => arr![s("Unmatched"), gtok(r), gpos(r)],
        4 => arr![s("Incomplete"), s(*r.pick(CMDS)), gpos(r), s(*r.pick(KWS)), gpos(r)],
        5 => arr![s("EOF")],
        6 => arr![s("Custom"), n(r.below(100))],
        _ => arr![s("Unexpected"), gtok(r), gpos(r)],
    }
}
fn gsimple(r: &mut Rng, d: usize) -> J {
    match r.below(if d > 0 { 14 } else { 11 }) {
        0..=3 => arr![s("lit"), text(*r.pick(&["a", "b", "", "a b", "\n", "é", "1", "\\"]))],
        4 | 5 => arr![s("esc"), text(*r.pick(&["a", "\\", "\n", "$"]))],
        6 | 7 => arr![s("param"), gparam(r)],
        8 | 9 => arr![s(*r.pick(&["star", "quest", "sqo", "sqc", "tilde", "colon"]))],
        10 => arr![s("sub"), arr![s("len"), gparam(r)]],
        _ => {
            let ow = if r.p(80) { arr![gword(r, d - 1)] } else { arr![] };
            arr![
                s("sub"),
                if r.p(50) {
                    arr![s(*r.pick(&["def", "asg", "err", "alt"])), J::B(r.p(50)), gparam(r), ow]
                } else {
                    arr![s(*r.pick(&["rss", "rls", "rsp", "rlp"])), gparam(r), ow]
                }
            ]
        }
    }
}
fn gpiece(r: &mut Rng, d: usize) -> J {
    match r.below(4) {
        0 | 1 => arr![s("S"), gsimple(r, d)],
        2 => {
            let k = r.below(5);
            arr![s("D"), J::A((0..k).map(|_| gsimple(r, d)).collect())]
        }
        _ => arr![s("Q"), text(*r.pick(&["a", "", "b c", "\n"]))],
    }
}
fn gword(r: &mut Rng, d: usize) -> J {
    if r.p(20) {
        arr![s("s"), gpiece(r, d)]
    } else {
        let k = r.below(6);
        arr![s("c"), J::A((0..k).map(|_| gpiece(r, d)).collect())]
    }
}

pub fn generate(r: &mut Rng, focus: &str) -> Vec<(String, J)> {
    let mut o = vec![("mode".to_string(), s("misc"))];
    let mut put = |k: &str, v: J| o.push((k.to_string(), v));
    let kind = match focus {
        "C05" => "adv",
        "C19" => "bword",
        "C01" | "C02" => *r.pick(&["tok", "num"]),
        _ => *r.pick(&["param", "param", "tok", "err", "err", "err", "num"]),
    };
    put("kind", s(kind));
    match kind {
        "param" => put("p", gparam(r)),
        "tok" | "adv" => {
            let k = 1 + r.below(6);
            let p = gpos(r);
            put("toks", J::A((0..k).map(|_| gtok(r)).collect()));
            put("p", p);
        }
        "err" => put("e", gerr(r)),
        "bword" => put("w", gword(r, 2)),
        _ => (),
    }
    o
}
