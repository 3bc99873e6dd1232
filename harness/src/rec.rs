//! A builder that records every call made to it.  A value it returns is the
//! number of the call that produced it.
use crate::arr;
use crate::enc::*;
use crate::json::{n, opt, s, J};
use conch_parser::ast::builder::*;
use conch_parser::ast::{AndOr, RedirectOrCmdWord, RedirectOrEnvVar};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Debug, Default)]
pub struct Log {
    pub ev: Vec<J>,
    pub fail: usize,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Fail(pub usize);
impl std::fmt::Display for Fail {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "custom error {}", self.0)
    }
}
impl std::error::Error for Fail {}

#[derive(Debug, Clone)]
pub struct Rec(pub Rc<RefCell<Log>>);

impl Rec {
    fn put(&mut self, ev: J) -> Result<usize, Fail> {
        let mut log = self.0.borrow_mut();
        log.ev.push(ev);
        let k = log.ev.len();
        if k == log.fail {
            Err(Fail(k))
        } else {
            Ok(k)
        }
    }
}

impl Builder for Rec {
    type Command = usize;
    type CommandList = usize;
    type ListableCommand = usize;
    type PipeableCommand = usize;
    type CompoundCommand = usize;
    type Word = usize;
    type Redirect = usize;
    type Error = Fail;

    fn complete_command(
        &mut self,
        pre: Vec<Newline>,
        list: usize,
        separator: SeparatorKind,
        c: Option<Newline>,
    ) -> Result<usize, Fail> {
        self.put(arr![s("complete"), nls(&pre), n(list), sep(separator), onl(&c)])
    }
    fn and_or_list(&mut self, first: usize, rest: Vec<(Vec<Newline>, AndOr<usize>)>) -> Result<usize, Fail> {
        let rest = rest
            .iter()
            .map(|(c, a)| match *a {
                AndOr::And(i) => arr![nls(c), s("and"), n(i)],
                AndOr::Or(i) => arr![nls(c), s("or"), n(i)],
            })
            .collect();
        self.put(arr![s("andor"), n(first), J::A(rest)])
    }
    fn pipeline(&mut self, bang: bool, cmds: Vec<(Vec<Newline>, usize)>) -> Result<usize, Fail> {
        let c = cmds.iter().map(|(c, i)| arr![nls(c), n(*i)]).collect();
        self.put(arr![s("pipeline"), J::B(bang), J::A(c)])
    }
    fn simple_command(
        &mut self,
        vars: Vec<RedirectOrEnvVar<usize, String, usize>>,
        args: Vec<RedirectOrCmdWord<usize, usize>>,
    ) -> Result<usize, Fail> {
        let v = vars
            .iter()
            .map(|e| match e {
                RedirectOrEnvVar::Redirect(i) => arr![s("r"), n(*i)],
                RedirectOrEnvVar::EnvVar(v, w) => arr![s("v"), text(v), opt(w.map(n))],
            })
            .collect();
        let a = args
            .iter()
            .map(|e| match e {
                RedirectOrCmdWord::Redirect(i) => arr![s("r"), n(*i)],
                RedirectOrCmdWord::CmdWord(i) => arr![s("w"), n(*i)],
            })
            .collect();
        self.put(arr![s("simple"), J::A(v), J::A(a)])
    }
    fn brace_group(&mut self, c: CommandGroup<usize>, r: Vec<usize>) -> Result<usize, Fail> {
        self.put(arr![s("brace"), cg(&c), ids(&r)])
    }
    fn subshell(&mut self, c: CommandGroup<usize>, r: Vec<usize>) -> Result<usize, Fail> {
        self.put(arr![s("subshell"), cg(&c), ids(&r)])
    }
    fn loop_command(&mut self, k: LoopKind, p: GuardBodyPairGroup<usize>, r: Vec<usize>) -> Result<usize, Fail> {
        self.put(arr![s("loop"), loopk(k), cg(&p.guard), cg(&p.body), ids(&r)])
    }
    fn if_command(&mut self, f: IfFragments<usize>, r: Vec<usize>) -> Result<usize, Fail> {
        let (c, e) = iff(&f);
        self.put(arr![s("if"), c, e, ids(&r)])
    }
    fn for_command(&mut self, f: ForFragments<usize, usize>, r: Vec<usize>) -> Result<usize, Fail> {
        let mut v = vec![s("for")];
        v.extend(forf(&f));
        v.push(ids(&r));
        self.put(J::A(v))
    }
    fn case_command(&mut self, f: CaseFragments<usize, usize>, r: Vec<usize>) -> Result<usize, Fail> {
        let mut v = vec![s("case")];
        v.extend(casef(&f));
        v.push(ids(&r));
        self.put(J::A(v))
    }
    fn compound_command_into_pipeable(&mut self, c: usize) -> Result<usize, Fail> {
        self.put(arr![s("pipeable"), n(c)])
    }
    fn function_declaration(&mut self, name: String, c: Vec<Newline>, body: usize) -> Result<usize, Fail> {
        self.put(arr![s("fn"), text(&name), nls(&c), n(body)])
    }
    fn comments(&mut self, c: Vec<Newline>) -> Result<(), Fail> {
        self.put(arr![s("comments"), nls(&c)]).map(|_| ())
    }
    fn word(&mut self, w: ComplexWordKind<usize>) -> Result<usize, Fail> {
        self.put(arr![s("word"), complex(&w)])
    }
    fn redirect(&mut self, k: RedirectKind<usize>) -> Result<usize, Fail> {
        use RedirectKind::*;
        let (t, f, w) = match k {
            Read(f, w) => ("read", f, w),
            Write(f, w) => ("write", f, w),
            ReadWrite(f, w) => ("readwrite", f, w),
            Append(f, w) => ("append", f, w),
            Clobber(f, w) => ("clobber", f, w),
            Heredoc(f, w) => ("heredoc", f, w),
            DupRead(f, w) => ("dupread", f, w),
            DupWrite(f, w) => ("dupwrite", f, w),
        };
        self.put(arr![s("redirect"), s(t), fd(f), n(w)])
    }
}
