//! Runs a session (a source and a history of API calls) against the real code.
use crate::arr;
use crate::enc::*;
use crate::json::{n, opt, s, J};
use crate::rec::{Fail, Log, Rec};
use conch_parser::ast::builder::*;
use conch_parser::lexer::Lexer;
use conch_parser::parse::*;
use conch_parser::token::Token;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

/// A source that counts what is pulled out of it and that is not fused: it
/// yields `None` at its end, and then yields `junk` items.
pub struct Src<T: Clone> {
    items: VecDeque<T>,
    junk: T,
    ended: bool,
    pub pulled: Rc<Cell<usize>>,
    loose: usize,
    pub fused: bool,
}
impl<T: Clone> Src<T> {
    pub fn new(items: Vec<T>, junk: T, loose: usize) -> (Self, Rc<Cell<usize>>) {
        let p = Rc::new(Cell::new(0));
        let src = Src { items: items.into(), junk, ended: false, pulled: p.clone(), loose, fused: false };
        (src, p)
    }
}
impl<T: Clone> Iterator for Src<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        match self.items.pop_front() {
            Some(x) => {
                self.pulled.set(self.pulled.get() + 1);
                Some(x)
            }
            None if self.ended && !self.fused => {
                self.pulled.set(self.pulled.get() + 1);
                Some(self.junk.clone())
            }
            None => {
                self.ended = true;
                None
            }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.ended {
            return (0, None);
        }
        let k = self.items.len();
        match self.loose {
            0 => (k, Some(k)),
            1 => (0, None),
            _ => (k / 2, Some(k + 3)),
        }
    }
}

/// Counts the items of an iterator.
pub struct Count<I>(I, Rc<Cell<usize>>);
impl<I: Iterator> Iterator for Count<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let r = self.0.next();
        if r.is_some() {
            self.1.set(self.1.get() + 1);
        }
        r
    }
}

pub fn text_of(v: &J) -> String {
    v.arr().iter().map(|c| unsym(c.str())).collect()
}
pub fn toks_of(v: &J) -> Vec<Token> {
    v.arr().iter().map(|t| mktok(t.arr()[0].str(), &unsym(t.arr()[1].str()))).collect()
}
fn leak(w: &J) -> Vec<&'static str> {
    w.arr().iter().map(|x| INTERN.with(|t| intern(&mut t.borrow_mut(), x.str()))).collect()
}
thread_local!(static INTERN: RefCell<Vec<&'static str>> = RefCell::new(Vec::new()));
fn intern(t: &mut Vec<&'static str>, x: &str) -> &'static str {
    if let Some(y) = t.iter().find(|y| **y == x) {
        return y;
    }
    let y: &'static str = Box::leak(x.to_string().into_boxed_str());
    t.push(y);
    y
}

fn id(r: ParseResult<usize, Fail>) -> Result<J, ParseError<Fail>> {
    r.map(n)
}
fn oid(r: ParseResult<Option<usize>, Fail>) -> Result<J, ParseError<Fail>> {
    r.map(|v| opt(v.map(n)))
}

/// One call on the parser.
fn call<I: Iterator<Item = Token>, B>(p: &mut Parser<I, B>, op: &J) -> Result<J, ParseError<Fail>>
where
    B: Builder<
        Command = usize,
        CommandList = usize,
        ListableCommand = usize,
        PipeableCommand = usize,
        CompoundCommand = usize,
        Word = usize,
        Redirect = usize,
        Error = Fail,
    >,
{
    let a = op.arr();
    match a[0].str() {
        "complete_command" => oid(p.complete_command()),
        "and_or_list" => id(p.and_or_list()),
        "pipeline" => id(p.pipeline()),
        "command" => id(p.command()),
        "simple_command" => id(p.simple_command()),
        "redirect_list" => p.redirect_list().map(|v| ids(&v)),
        "redirect" => p.redirect().map(|v| {
            opt(v.map(|r| match r {
                Ok(i) => arr![s("r"), n(i)],
                Err(i) => arr![s("w"), n(i)],
            }))
        }),
        "redirect_heredoc" => {
            let fd = a[1].arr().get(0).map(|f| f.str().parse().unwrap());
            id(p.redirect_heredoc(fd))
        }
        "word" => oid(p.word()),
        "word_preserve" => oid(p.word_preserve_trailing_whitespace()),
        "backticked" => id(p.backticked_command_substitution()),
        "parameter" => id(p.parameter()),
        "do_group" => p.do_group().map(|g| cg(&g)),
        "brace_group" => p.brace_group().map(|g| cg(&g)),
        "subshell" => p.subshell().map(|g| cg(&g)),
        "compound_command" => id(p.compound_command()),
        "loop_command" => p.loop_command().map(|(k, g)| arr![loopk(k), cg(&g.guard), cg(&g.body)]),
        "if_command" => p.if_command().map(|f| {
            let (c, e) = iff(&f);
            arr![c, e]
        }),
        "for_command" => p.for_command().map(|f| J::A(forf(&f))),
        "case_command" => p.case_command().map(|f| J::A(casef(&f))),
        "maybe_function" => oid(p.maybe_function_declaration()),
        "function" => id(p.function_declaration()),
        "skip_whitespace" => {
            p.skip_whitespace();
            Ok(arr![])
        }
        "linebreak" => Ok(nls(&p.linebreak())),
        "newline" => Ok(onl(&p.newline())),
        "peek_reserved_token" => {
            let t = toks_of(&a[1]);
            let r = p.peek_reserved_token(&t);
            Ok(opt(r.map(tok)))
        }
        "peek_reserved_word" => {
            let w = leak(&a[1]);
            Ok(s(p.peek_reserved_word(&w).unwrap_or("")))
        }
        "reserved_token" => {
            let t = toks_of(&a[1]);
            p.reserved_token(&t).map(|t| tok(&t))
        }
        "reserved_word" => {
            let w = leak(&a[1]);
            Ok(s(p.reserved_word(&w).unwrap_or("")))
        }
        "command_group" => {
            let (rt, rw) = (toks_of(&a[1]), leak(&a[2]));
            let et = toks_of(&a[3]);
            let cfg = CommandGroupDelimiters { reserved_tokens: &rt, reserved_words: &rw, exact_tokens: &et };
            p.command_group(cfg).map(|g| cg(&g))
        }
        "arithmetic" => p.arithmetic_substitution().map(|e| arith(&e)),
        o => panic!("unknown operation {}", o),
    }
}

pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, J> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = if let Some(m) = e.downcast_ref::<&str>() {
            (*m).to_string()
        } else if let Some(m) = e.downcast_ref::<String>() {
            m.clone()
        } else {
            String::new()
        };
        arr![s("panic"), text(&m)]
    })
}

fn errj(e: &ParseError<Fail>) -> Vec<J> {
    use std::error::Error;
    #[allow(deprecated)]
    let cause = e.cause().map_or(String::new(), |c| c.to_string());
    vec![s("err"), err(e, |f| n(f.0)), text(&e.to_string()), text(&cause)]
}

const MAXREP: usize = 400;

/// One entry of a session's recorded calls.
struct Recorder {
    log: Rc<RefCell<Log>>,
    seen: usize,
    tp: Rc<Cell<usize>>,
    cp: Rc<Cell<usize>>,
    out: Vec<J>,
}
impl Recorder {
    fn put(&mut self, op: J, ret: J, p: J) {
        let log = self.log.borrow();
        let ev = J::A(log.ev[self.seen..].to_vec());
        self.seen = log.ev.len();
        self.out.push(J::O(vec![
            ("op".into(), op),
            ("ev".into(), ev),
            ("ret".into(), ret),
            ("pos".into(), p),
            ("tp".into(), n(self.tp.get())),
            ("cp".into(), n(self.cp.get())),
        ]));
    }
}

/// `on`: go on with the calls after an error.
fn drive<I: Iterator<Item = Token>, B>(iter: I, b: B, calls: &[J], on: bool, r: &mut Recorder)
where
    B: Builder<
        Command = usize,
        CommandList = usize,
        ListableCommand = usize,
        PipeableCommand = usize,
        CompoundCommand = usize,
        Word = usize,
        Redirect = usize,
        Error = Fail,
    >,
{
    let mut p = Parser::with_builder(iter, b);
    r.put(arr![s("start")], arr![s("ok"), arr![]], pos(p.pos()));
    let mut it = None;
    let mut failed = false;
    for (k, c) in calls.iter().enumerate() {
        if c.arr()[0].str() == "into_iter" {
            it = Some(k + 1);
            break;
        }
        let rep = c.arr()[0].str() == "*";
        let op = if rep { arr![s("complete_command")] } else { c.clone() };
        for _ in 0..MAXREP {
            let res = caught(|| call(&mut p, &op));
            let (ret, stop) = match res {
                Err(e) => (e, true),
                Ok(Err(ref e)) => {
                    failed = true;
                    (J::A(errj(e)), !on)
                }
                Ok(Ok(ref v)) => (arr![s("ok"), v.clone()], false),
            };
            let last = ret == arr![s("ok"), arr![]];
            let ps = if stop || failed { arr![] } else { pos(p.pos()) };
            r.put(op.clone(), ret, ps);
            if stop {
                return;
            }
            if !rep || last {
                break;
            }
        }
    }
    if let Some(k) = it {
        let mut i = p.into_iter();
        for c in &calls[k..] {
            let rep = c.arr()[0].str() == "*";
            let mut extra = 3;
            for _ in 0..MAXREP {
                let (ret, fin) = match caught(|| i.next()) {
                    Err(e) => (e, true),
                    Ok(None) => (arr![s("ok"), arr![]], false),
                    Ok(Some(Ok(v))) => (arr![s("ok"), arr![n(v)]], false),
                    Ok(Some(Err(e))) => (J::A(errj(&e)), false),
                };
                let over = ret.arr()[0].str() != "ok" || ret.arr()[1] == arr![];
                r.put(arr![s("next")], ret, arr![]);
                if fin {
                    return;
                }
                if over {
                    extra -= 1;
                }
                if !rep || extra == 0 {
                    break;
                }
            }
        }
    }
}

/// A session on the parser with the recording builder.
pub fn session(x: &J) -> J {
    let fail = x.get("fail").map_or(0, |f| f.num()) as usize;
    let fused = x.get("fused").map_or(false, |f| *f == J::B(true));
    let via = x.get("via").map_or("own", |v| v.str());
    let log = Rc::new(RefCell::new(Log { ev: Vec::new(), fail }));
    let tp = Rc::new(Cell::new(0));
    let calls: Vec<J> = x.get("calls").map_or(vec![arr![s("*")]], |c| c.arr().to_vec());
    let on = x.get("on").map_or(false, |f| *f == J::B(true));
    let mut r = Recorder { log: log.clone(), seen: 0, tp: tp.clone(), cp: Rc::new(Cell::new(0)), out: vec![] };
    let mut rec = Rec(log);
    if let Some(t) = x.get("toks") {
        let (mut src, p) = Src::new(toks_of(t), Token::Semi, 0);
        src.fused = fused;
        r.tp = p;
        match via {
            "box" => drive(src, Box::new(rec), &calls, on, &mut r),
            "ref" => drive(src, &mut rec, &calls, on, &mut r),
            _ => drive(src, rec, &calls, on, &mut r),
        }
    } else {
        let (mut src, cp) = Src::new(text_of(x.get("cs").unwrap()).chars().collect(), 'Z', 0);
        src.fused = fused;
        r.cp = cp;
        let iter = Count(Lexer::new(src), tp);
        match via {
            "box" => drive(iter, Box::new(rec), &calls, on, &mut r),
            "ref" => drive(iter, &mut rec, &calls, on, &mut r),
            _ => drive(iter, rec, &calls, on, &mut r),
        }
    }
    J::A(r.out)
}

/// The lexer alone.
pub fn lex(x: &J) -> J {
    let loose = x.get("loose").map_or(0, |f| f.num()) as usize;
    let (src, cp) = Src::new(text_of(x.get("cs").unwrap()).chars().collect(), 'Z', loose);
    let mut l = Lexer::new(src);
    let mut out = Vec::new();
    let mut nones = 0;
    while nones < 3 && out.len() < 100_000 {
        let h = l.size_hint();
        let hint = arr![n(h.0), opt(h.1.map(n))];
        let r = match caught(|| l.next()) {
            Err(e) => e,
            Ok(None) => {
                nones += 1;
                arr![s("none")]
            }
            Ok(Some(t)) => arr![s("tok"), s(kind(&t)), text(t.as_str()), text(&t.to_string()), n(t.len())],
        };
        let stop = r.arr()[0].str() == "panic";
        out.push(arr![hint, r, n(cp.get())]);
        if stop {
            break;
        }
    }
    J::A(out)
}

fn with_default<B>(src: &str, b: Option<B>, iter: bool) -> J
where
    B: Builder + Default,
    B::Command: Enc,
    B::Error: std::fmt::Debug,
{
    let one = |r: ParseResult<B::Command, B::Error>| match r {
        Ok(c) => arr![s("ok"), c.enc()],
        Err(e) => arr![s("err"), err(&e, |_| arr![])],
    };
    let chars: Vec<char> = src.chars().collect();
    match caught(|| {
        let mut out = Vec::new();
        let lexer = Lexer::new(chars.into_iter());
        let mut p = match b {
            Some(b) => Parser::with_builder(lexer, b),
            None => Parser::new(lexer),
        };
        if iter {
            for r in p.into_iter().take(MAXREP) {
                out.push(one(r));
            }
        } else {
            while let Some(r) = p.complete_command().transpose() {
                let stop = r.is_err();
                out.push(one(r));
                if stop {
                    break;
                }
            }
        }
        out
    }) {
        Ok(v) => J::A(v),
        Err(e) => arr![e],
    }
}

fn with_empty(src: &str) -> J {
    match caught(|| {
        let mut out = Vec::new();
        let p: Parser<_, EmptyBuilder> = Parser::new(Lexer::new(src.chars()));
        for r in p.into_iter().take(MAXREP) {
            out.push(match r {
                Ok(()) => arr![s("ok")],
                Err(e) => arr![s("err"), err(&e, |_| arr![])],
            });
        }
        out
    }) {
        Ok(v) => J::A(v),
        Err(e) => arr![e],
    }
}

/// The default builders: the trees (as `StringBuilder` makes them), whether
/// the other builders agree, and what the empty builder's parse yields.
pub fn default(x: &J) -> Vec<(String, J)> {
    use std::rc::Rc;
    use std::sync::Arc;
    let src = text_of(x.get("cs").unwrap());
    let a = with_default::<StringBuilder>(&src, None, true);
    let others = [
        ("rc", with_default::<RcBuilder>(&src, Some(RcBuilder::new()), true)),
        ("arc", with_default::<ArcBuilder>(&src, Some(ArcBuilder::new()), false)),
        ("default", with_default::<DefaultBuilder<Rc<String>>>(&src, None, false)),
        ("atomic", with_default::<AtomicDefaultBuilder<Arc<String>>>(&src, None, true)),
        ("atomic_string", with_default::<AtomicDefaultBuilder<String>>(&src, None, true)),
        ("boxed", with_default::<Box<StringBuilder>>(&src, Some(Box::new(StringBuilder::new())), true)),
    ];
    let differ = others.iter().filter(|o| o.1 != a).map(|o| arr![s(o.0), o.1.clone()]).collect();
    vec![("ast".into(), a), ("differ".into(), J::A(differ)), ("empty".into(), with_empty(&src))]
}

/// Did the recorded calls do what is expected of them?
pub fn out_as(out: &J, exp: &J) -> bool {
    let (o, e) = (out.arr(), exp.arr());
    let bound = |o: &J, e: &J, k: &str| {
        let m = e.get(k).map_or(-1, |m| m.num());
        m < 0 || o.get(k).unwrap().num() <= m
    };
    o.len() == e.len()
        && o.iter().zip(e).all(|(o, e)| {
            let r = o.get("ret").unwrap().arr();
            o.get("op") == e.get("op")
                && o.get("ev") == e.get("ev")
                && &r[..r.len().min(2)] == e.get("ret").unwrap().arr()
                && (e.get("pos").unwrap().arr().is_empty() || o.get("pos") == e.get("pos"))
                && bound(o, e, "tp")
                && bound(o, e, "cp")
        })
}

/// Did the lexer yield the expected [result, most characters read] pairs,
/// with true size hints?
pub fn lex_as(out: &J, exp: &J) -> bool {
    let (o, e) = (out.arr(), exp.arr());
    let toks = e.iter().filter(|x| x.arr()[0].arr()[0].str() == "tok").count() as i64;
    o.len() == e.len()
        && o.iter().zip(e).enumerate().all(|(i, (o, e))| {
            let (o, e) = (o.arr(), e.arr());
            let (hint, left) = (o[0].arr(), (toks - i as i64).max(0));
            o[1] == e[0]
                && (e[1].num() < 0 || o[2].num() <= e[1].num())
                && hint[0].num() <= left
                && hint[1].arr().get(0).map_or(true, |h| left <= h.num())
        })
}

/// Did the default builders all make the expected trees?
pub fn default_as(out: &[(String, J)], exp: &J) -> bool {
    let empty = exp.arr().iter().map(|r| if r.arr()[0].str() == "ok" { arr![s("ok")] } else { r.clone() }).collect();
    out[0].1 == *exp && out[1].1 == J::A(vec![]) && out[2].1 == J::A(empty)
}
