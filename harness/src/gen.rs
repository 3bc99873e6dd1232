//! Seeded random sessions.  Each property has its own mix of constructs
//! (`Mix`); the sources are grammatical, slightly broken, or fragment soup.
use crate::arr;
use crate::enc::*;
use crate::json::{n, s, J};

pub struct Rng(u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn p(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    fn weighted(&mut self, w: &[usize]) -> usize {
        let mut k = self.below(w.iter().sum::<usize>().max(1));
        for (i, x) in w.iter().enumerate() {
            if k < *x {
                return i;
            }
            k -= x;
        }
        0
    }
}

/// Weights of the constructs.
#[derive(Clone)]
struct Mix {
    // commands: simple, compound, function
    cmd: [usize; 3],
    // compounds: brace, subshell, loop, if, for, case
    comp: [usize; 6],
    // word pieces: plain, reserved, glob, escape, single, double, parameter,
    // ${..}, $(..), backquote, arithmetic, unicode, odd
    piece: [usize; 13],
    redirect: usize,
    heredoc: usize,
    assign: usize,
    comment: usize,
    andor: usize,
    pipe: usize,
    amp: usize,
    unicode: usize,
    depth: usize,
    // how the source is made: grammar, damaged grammar, soup
    src: [usize; 3],
    soup: &'static [&'static str],
    lines: usize,
    // percentage of sessions on an external token stream
    toks: usize,
    // percentage of sessions whose builder fails
    fail: usize,
    // percentage of sessions that iterate, that call entry points
    iter: usize,
    hist: usize,
    modes: &'static [&'static str],
}

const GENERAL: &[&str] = &[
    "a", "b", "1", "x=", "if", "then", "elif", "else", "fi", "while", "until", "do", "done", "for", "in", "case",
    "esac", "{", "}", "(", ")", ";", ";;", "&", "&&", "|", "||", "!", "\n", " ", " ", " ", "#c", "function", "f()",
    ">", "<", ">&", "<<E\n", "E\n", "$x", "$", "${", "`", "\"", "'", "\\", "*", "$(", "$((", "))", "=", "\t", "é",
];
const LISTS: &[&str] = &["a", "b", " ", "&&", "||", "|", ";", "&", "!", "\n", "#c\n", "(", ")", "! ", "a ", ";;", "\\\n"];
const COMPOUND: &[&str] = &[
    "if ", "then ", "elif ", "else ", "fi", "while ", "until ", "do ", "done", "for ", "in ", "case ", "esac", "{ ",
    "} ", "(", ")", ";", "; ", ";;", "\n", " ", "a", "x", "'fi'", "\\done", "fi\"\"", "|", "&", "#c\n", ">f", "2>&1",
];
const FUNCS: &[&str] =
    &["f", "g1", "1f", "f-g", "function", "function ", "()", "( )", "(", ")", " ", "\t", "\n", "{ a; }", "(a)", "if a; then b; fi", ";", "#c\n", "\\\n", "if", ">f", "$f", "a"];
const SIMPLE: &[&str] = &[
    "a", "b=", "c=d", "e+=", "=", " ", " ", "1", "2", "65535", "65536", "007", "\"2\"", "\\2", ">", "<", ">>", ">|",
    "<>", "<&", ">&", "-", "f", "$x", "#", "#c\n", "\\\n", ";", "'q'", "~", ":", "&", "\t", "- ", "-1",
];
const HEREDOCS: &[&str] = &[
    "<<E", "<<-E", "<< E", "<<'E'", "<<\\E", "<<\"E\"", "<<-\"E\"", "\n", "\n", "E\n", "\tE\n", "E", "a ", "\t", " ",
    "$x", "\\", "`a`", "\"", "'", "E E\n", "|b", ";c", "#c", "(", ")", "$(", "é", "${x}", "\\E\n", "3", "&&\n", "E\\\n",
];
const WORDS: &[&str] = &[
    "a", "b", "\\", "'", "\"", "*", "?", "[", "]", "~", ":", "$x", "$", "#", " ", "\n", "\t", "`", "{", "}", "!", "%",
    "-", "=", "+", "@", "^", "/", ",", "1", "é", ";", "\\\n", "\\$", "\\\"", "$1", "''", "\"\"",
];
const PARAMS: &[&str] = &[
    "${", "${", "$", "}", "}", "#", "##", "%", "%%", ":", "-", "=", "?", "+", ":-", ":=", ":?", ":+", "x", "1", "10",
    "4294967295", "4294967296", "@", "*", "!", "$", "0", "w", " ", "\n", "'}'", "\"}\"", "\\}", "{", "\"", "$y", "a",
];
const SUBST: &[&str] = &[
    "$(", "$(", ")", ")", "`", "`", "\\`", "\\\\", "\\$", "a", " ", "\n", ";", "#c\n", "x", "$x", "\"", "'", "(", "${x",
    "}", "((", "\\\\\\`", "|b", "$", "1", "\\", "<<E\n", "E\n",
];
const ARITH: &[&str] = &[
    "1", "2", "0", "010", "0x1f", "x", "y", "$x", "+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "!=", "&", "|",
    "^", "&&", "||", "?", ":", "=", "+=", ",", "(", ")", " ", " ", "!", "~", "**", "<<", ">>", "++", "--", "*=", "<<=",
];
const LEX: &[&str] = &[
    "a", "b1", "_", "1", "0", "é", "\u{301}", "\u{ff11}", "\u{3000}", "\u{1f600}", "\r", " ", "\t", "\n", "\\", "$", "$1",
    "<", ">", "<<", "<<-", "-", "&", "|", ";", "'", "\"", "`", "#", "!", "{", "(", "=", ".", "\u{a0}", "\\<", "\\&", "$$",
];

const LEXMODES: &[&str] = &["lex", "lex", "lex", "lex", "lex", "lex", "lex", "lex", "lex", "misc"];
const LEXMODES2: &[&str] = &["parse", "parse", "parse", "parse", "parse", "parse", "parse", "parse", "misc"];

fn mix(focus: &str) -> Mix {
    let base = Mix {
        cmd: [10, 5, 1],
        comp: [2, 2, 2, 2, 2, 2],
        piece: [30, 3, 3, 3, 4, 5, 4, 4, 3, 3, 2, 2, 3],
        redirect: 15,
        heredoc: 8,
        assign: 15,
        comment: 15,
        andor: 20,
        pipe: 20,
        amp: 15,
        unicode: 5,
        depth: 3,
        src: [55, 25, 20],
        soup: GENERAL,
        lines: 3,
        toks: 5,
        fail: 0,
        iter: 10,
        hist: 10,
        modes: &["parse"],
    };
    let plain = [30, 2, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1];
    match focus {
        "C01" | "C02" => Mix { src: [20, 10, 70], soup: LEX, modes: LEXMODES, unicode: 20, ..base },
        "C03" => Mix { src: [10, 45, 45], toks: 30, iter: 15, hist: 25, ..base },
        "C04" => Mix { iter: 85, hist: 5, src: [50, 30, 20], lines: 4, toks: 20, ..base },
        "C05" => Mix {
            modes: LEXMODES2,
            unicode: 30, heredoc: 15, piece: [20, 3, 2, 3, 3, 5, 3, 4, 4, 10, 2, 10, 2], src: [60, 30, 10], hist: 20, ..base
        },
        "C06" => Mix { src: [15, 70, 15], depth: 3, ..base },
        "C07" => Mix { src: [85, 10, 5], depth: 4, hist: 15, ..base },
        "C08" => Mix { comment: 60, cmd: [8, 8, 2], piece: plain, src: [80, 12, 8], heredoc: 10, iter: 20, lines: 4, ..base },
        "C09" => Mix { fail: 85, src: [85, 10, 5], iter: 30, hist: 15, ..base },
        "C10" => Mix { andor: 45, pipe: 45, amp: 35, piece: plain, heredoc: 3, soup: LISTS, src: [50, 20, 30], lines: 4, ..base },
        "C11" => Mix { cmd: [6, 12, 1], piece: [30, 15, 1, 2, 2, 2, 1, 1, 1, 1, 0, 0, 1], soup: COMPOUND, src: [50, 30, 20], hist: 20, ..base },
        "C12" => Mix { cmd: [6, 3, 10], piece: plain, soup: FUNCS, src: [40, 20, 40], hist: 25, ..base },
        "C13" => Mix { cmd: [20, 2, 0], redirect: 50, assign: 50, heredoc: 4, andor: 5, pipe: 5, soup: SIMPLE, src: [45, 15, 40], hist: 25, ..base },
        "C14" => Mix { cmd: [16, 3, 0], redirect: 15, heredoc: 60, soup: HEREDOCS, src: [60, 10, 30], depth: 2, hist: 15, ..base },
        "C15" => Mix {
            cmd: [20, 1, 0], piece: [15, 3, 10, 12, 12, 14, 4, 3, 2, 2, 1, 4, 14], soup: WORDS, src: [40, 15, 45], depth: 2, hist: 25, ..base
        },
        "C16" => Mix {
            cmd: [20, 1, 0], piece: [10, 1, 2, 3, 3, 8, 15, 40, 2, 2, 1, 2, 5], soup: PARAMS, src: [45, 15, 40], hist: 30, ..base
        },
        "C17" => Mix {
            cmd: [12, 3, 0], piece: [14, 1, 1, 3, 2, 8, 3, 5, 16, 20, 1, 1, 2], soup: SUBST, src: [55, 15, 30], depth: 4, hist: 20, heredoc: 12, ..base
        },
        "C18" => Mix {
            cmd: [20, 0, 0], piece: [10, 0, 0, 0, 0, 3, 1, 1, 0, 0, 60, 0, 0], soup: ARITH, src: [60, 15, 25], depth: 3, hist: 50, redirect: 3, assign: 3, lines: 1, ..base
        },
        "C19" => Mix {
            modes: &["default", "default", "default", "misc"], piece: [20, 2, 8, 6, 14, 16, 6, 10, 4, 4, 3, 3, 5], src: [80, 12, 8], amp: 30, toks: 0, depth: 3, ..base
        },
        "C20" => Mix { modes: &["parse", "parse", "misc"], src: [10, 75, 15], unicode: 12, hist: 15, ..base },
        "C21" => Mix { heredoc: 15, comment: 25, src: [75, 15, 10], lines: 6, iter: 40, hist: 0, toks: 10, ..base },
        "C22" => Mix { hist: 95, src: [75, 10, 15], iter: 5, depth: 2, lines: 2, toks: 15, ..base },
        _ => base,
    }
}

struct Here {
    delim: String,
    strip: bool,
    quoted: bool,
}

struct G<'a> {
    r: &'a mut Rng,
    m: Mix,
    pend: Vec<Here>,
    o: String,
    d: usize,
}

const NAMES: &[&str] = &["a", "b", "foo", "bar", "x1", "_y", "echo", "cat"];
const WORDSET: &[&str] = &["a", "b", "foo", "bar", "x1", "1", "42", "a.b", "-n", "foo-bar", "./x", "a=b", "k=", "x:y", "{a,b}", "%s", "a#b", "+x", "^", "@", "!x", "}x", "{x"];
const RESERVED: &[&str] = &["if", "then", "elif", "else", "fi", "while", "until", "do", "done", "for", "in", "case", "esac", "{", "}", "!", "function"];
const UNI: &[&str] = &["é", "\u{4e2d}", "\u{1f600}", "\u{301}", "\u{ff11}", "e\u{301}", "\u{2003}", "\u{a0}", "\u{10400}"];
const COMMENTS: &[&str] = &["#", "# c", "#!x", "# it's", "#\"q", "# `b", "# $( {", "## x #", "# é", "# then fi", "#c \\", "# a; b", "#<<E", "# t \t", "#c\r"];

impl<'a> G<'a> {
    fn put(&mut self, t: &str) {
        self.o.push_str(t);
    }
    fn ws(&mut self) {
        let t = match self.r.below(20) {
            0 => "  ",
            1 => "\t",
            2 => " \\\n",
            3 => "\\\n ",
            _ => " ",
        };
        self.put(t);
    }
    fn ows(&mut self) {
        if self.r.p(30) {
            self.ws();
        }
    }
    fn nl(&mut self) {
        self.put("\n");
        self.bodies();
    }
    fn bodies(&mut self) {
        let hs = std::mem::replace(&mut self.pend, vec![]);
        let quit = hs.len();
        for (k, h) in hs.into_iter().enumerate() {
            let lines = self.r.below(4);
            for _ in 0..lines {
                if h.strip || self.r.p(8) {
                    let t = *self.r.pick(&["\t", "\t\t", "\t ", " \t", "", "\t\\\t"]);
                    self.put(t);
                }
                self.body_line(&h);
                self.put("\n");
            }
            if h.strip && self.r.p(50) {
                self.put("\t");
            }
            if k + 1 == quit && self.r.p(4) {
                continue; // never closed
            }
            let d = h.delim.clone();
            self.put(&d);
            if self.r.p(3) {
                self.put("\r");
            }
            if self.r.p(3) {
                self.put(" ");
            }
            self.put("\n");
        }
    }
    fn body_line(&mut self, h: &Here) {
        let k = self.r.below(4);
        for _ in 0..k {
            match self.r.below(14) {
                0 => self.put("text"),
                1 => self.put(" "),
                2 => self.put("$x"),
                3 if self.d > 0 => self.param_subst(),
                4 if self.d > 0 => self.cmd_subst(),
                5 if self.d > 0 => self.backquote(),
                6 => {
                    let t = *self.r.pick(&["\\$", "\\\\", "\\\"", "\\a", "\\`", "\\\n", "\\"]);
                    self.put(t)
                }
                7 => {
                    let t = *self.r.pick(&["\"", "'", "#x", "(", "}", ";", "&", "\t", "é", "\""]);
                    self.put(t)
                }
                8 => {
                    let d = h.delim.clone();
                    self.put(&d);
                    self.put(" ")
                }
                9 if h.quoted => self.put("$(x `"),
                10 if self.d > 0 => self.arith_subst(),
                _ => self.put("w"),
            }
        }
    }
    fn heredoc(&mut self) {
        if self.r.p(25) {
            let f = *self.r.pick(&["3", "0", "12"]);
            self.put(f);
        }
        let strip = self.r.p(35);
        self.put(if strip { "<<-" } else { "<<" });
        if self.r.p(30) {
            self.put(" ");
        }
        let (src, delim, quoted) = *self.r.pick(&[
            ("E", "E", false), ("EOF", "EOF", false), ("E", "E", false), ("x1", "x1", false), ("a.b", "a.b", false),
            ("'E'", "E", true), ("\"E\"", "E", true), ("\\E", "E", true), ("E\"O\"F", "EOF", true), ("'a b'", "a b", true),
            ("$x", "$x", false), ("é", "é", false), ("\"a\\\"b\"", "a\"b", true), ("}", "}", false), ("`a`", "`a`", true),
            ("$(a)", "$(a)", false), ("-", "-", false), ("\"\"", "", true), ("''", "", true), ("'E\"'", "E\"", true), ("E#", "E#", false),
        ]);
        self.put(src);
        self.pend.push(Here { delim: delim.to_string(), strip, quoted });
    }

    fn word(&mut self) {
        let n = match self.r.below(10) {
            0..=5 => 1,
            6..=7 => 2,
            8 => 3,
            _ => 1 + self.r.below(5),
        };
        for _ in 0..n {
            self.piece();
        }
    }
    fn piece(&mut self) {
        let mut w = self.m.piece;
        if self.d == 0 {
            for k in &[5, 7, 8, 9, 10] {
                w[*k] = 0;
            }
        }
        if self.r.p(self.m.unicode / 2) {
            let t = *self.r.pick(UNI);
            return self.put(t);
        }
        match self.r.weighted(&w) {
            1 => {
                let t = *self.r.pick(RESERVED);
                self.put(t)
            }
            2 => {
                let t = *self.r.pick(&["*", "?", "[", "]", "~", ":", "[a-z]", "**", "~/x"]);
                self.put(t)
            }
            3 => {
                let t = *self.r.pick(&["\\a", "\\ ", "\\;", "\\\\", "\\$", "\\\"", "\\'", "\\#", "\\foo", "\\`", "\\<", "\\1", "\\é"]);
                self.put(t)
            }
            4 => {
                let t = *self.r.pick(&["''", "'a'", "'a b'", "'$x'", "'\\'", "'\"'", "'`'", "'#'", "'\n'", "'é'", "';'", "'1'"]);
                self.put(t)
            }
            5 => self.double(),
            6 => {
                let t = *self.r.pick(&["$x", "$1", "$0", "$@", "$*", "$#", "$?", "$-", "$$", "$!", "$foo_1", "$", "$9x", "$10"]);
                self.put(t)
            }
            7 => self.param_subst(),
            8 => self.cmd_subst(),
            9 => self.backquote(),
            10 => self.arith_subst(),
            11 => {
                let t = *self.r.pick(UNI);
                self.put(t)
            }
            12 => {
                let t = *self.r.pick(&["!", "%", "-", "=", "+", "@", "^", "/", ",", "{", "}", "#", "1", "\\\n"]);
                self.put(t)
            }
            _ => {
                let t = *self.r.pick(WORDSET);
                self.put(t)
            }
        }
    }
    fn double(&mut self) {
        self.put("\"");
        let k = self.r.below(4);
        for _ in 0..k {
            match self.r.below(12) {
                0 => self.put("a"),
                1 => self.put(" "),
                2 => self.put("$x"),
                3 | 4 if self.d > 0 => {
                    self.d -= 1;
                    match self.r.below(4) {
                        0 => self.param_subst(),
                        1 => self.cmd_subst(),
                        2 => self.backquote(),
                        _ => self.arith_subst(),
                    }
                    self.d += 1
                }
                5 | 6 => {
                    let t = *self.r.pick(&["\\$", "\\\\", "\\\"", "\\a", "\\`", "\\\n", "\\'"]);
                    self.put(t)
                }
                7 | 8 => {
                    let t = *self.r.pick(&["'", "#", "(", ")", ";", "*", "~", "{", "}", "\n", "&", "é", "<", "1", "$", "[", ":", "a'b"]);
                    self.put(t)
                }
                _ => self.put("foo"),
            }
        }
        self.put("\"");
    }
    fn param_name(&mut self) {
        let t = *self.r.pick(&["x", "foo", "1", "10", "0", "@", "*", "#", "?", "-", "$", "!", "_a1", "4294967295", "007"]);
        self.put(t)
    }
    fn param_subst(&mut self) {
        let d = self.d;
        self.d = d.saturating_sub(1);
        self.put("${");
        match self.r.below(8) {
            0 => self.param_name(),
            1 => {
                self.put("#");
                self.param_name()
            }
            _ => {
                self.param_name();
                let t = *self.r.pick(&[":-", "-", ":=", "=", ":?", "?", ":+", "+", "%", "%%", "#", "##"]);
                self.put(t);
                let k = self.r.below(4);
                for _ in 0..k {
                    match self.r.below(10) {
                        0 => self.put(" "),
                        1 => {
                            let t = *self.r.pick(&["#", ";", "\n", "(", ")", "|", "<", "&&", "\\}", "'}'", "\"}\"", "\\\n", "{"]);
                            self.put(t)
                        }
                        2 if self.d == 0 => self.put("w"),
                        _ => self.piece(),
                    }
                }
            }
        }
        self.put("}");
        self.d = d;
    }
    /// A nested script with here-documents of its own.
    fn nested(&mut self) -> String {
        let d = self.d;
        self.d = d.saturating_sub(1);
        let pend = std::mem::replace(&mut self.pend, vec![]);
        let o = std::mem::replace(&mut self.o, String::new());
        if self.r.p(90) {
            let k = 1 + self.r.below(2);
            self.cmds(k, false);
        }
        if self.r.p(self.m.comment / 3) {
            let t = *self.r.pick(&[" # c", "\n# c", "\n\n"]);
            self.put(t);
            self.nl();
        }
        if !self.pend.is_empty() {
            self.nl();
        }
        let t = std::mem::replace(&mut self.o, o);
        self.pend = pend;
        self.d = d;
        t
    }
    fn cmd_subst(&mut self) {
        let t = self.nested();
        self.put("$(");
        if t.starts_with('(') {
            self.put(" ");
        }
        self.put(&t);
        self.put(")");
    }
    fn backquote(&mut self) {
        let t = self.nested();
        let always = self.r.p(30);
        self.put("`");
        let cs: Vec<char> = t.chars().collect();
        for (k, c) in cs.iter().enumerate() {
            match c {
                '`' => self.put("\\`"),
                '\\' => {
                    // needed only where the backslash would be removed
                    if always || k + 1 == cs.len() || matches!(cs[k + 1], '$' | '`' | '\\') {
                        self.put("\\\\")
                    } else {
                        self.put("\\")
                    }
                }
                '$' if always || self.r.p(20) => self.put("\\$"),
                c => self.o.push(*c),
            }
        }
        self.put("`");
    }
    fn arith_subst(&mut self) {
        self.put("$((");
        if self.r.p(95) {
            let d = 1 + self.r.below(4);
            self.arith(d);
        }
        self.ows();
        self.put("))");
    }
    fn asp(&mut self) {
        if self.r.p(25) {
            self.put(" ");
        }
    }
    fn arith(&mut self, d: usize) {
        self.asp();
        if d == 0 {
            let upto = if self.r.p(90) { 19 } else { 22 };
            let t = *self.r.pick(&[
                "1", "2", "42", "0", "010", "0x1F", "x", "y", "$x", "foo", "9223372036854775807", "0x7fffffffffffffff", "0777", "x++", "y--", "$x ++", "0X0",
                "00", "100000", "0x", "9223372036854775808", "08", "0xg", "01777777777777777777777",
            ][..upto]);
            return self.put(t);
        }
        match self.r.below(16) {
            0 => {
                self.put("(");
                self.arith(d - 1);
                self.asp();
                self.put(")")
            }
            1 => {
                let t = *self.r.pick(&["!", "~", "+", "-", "- ", "+-", "-+", "!~"]);
                self.put(t);
                self.arith(d - 1)
            }
            2 => {
                let t = *self.r.pick(&["++x", "--y", "++ x", "--$x"]);
                self.put(t)
            }
            3 => {
                let t = *self.r.pick(&["x", "y", "$x", "foo "]);
                self.put(t);
                let t = *self.r.pick(&["=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "|=", "^="]);
                self.put(t);
                self.arith(d - 1)
            }
            4 => {
                self.arith(d - 1);
                self.asp();
                self.put("?");
                self.arith(d - 1);
                self.asp();
                self.put(":");
                self.arith(d - 1)
            }
            5 => {
                self.arith(d - 1);
                self.put(",");
                self.arith(d - 1)
            }
            _ => {
                self.arith(d - 1);
                self.asp();
                let t = *self.r.pick(&[
                    "+", "-", "*", "/", "%", "**", "<", ">", "<=", ">=", "==", "!=", "&", "|", "^", "&&", "||", "<<", ">>",
                ]);
                self.put(t);
                self.arith(d - 1)
            }
        }
    }

    fn redirect(&mut self) {
        if self.r.p(self.m.heredoc) && self.d > 0 {
            return self.heredoc();
        }
        if self.r.p(35) {
            let upto = if self.r.p(85) { 5 } else { 10 };
            let f = *self.r.pick(&["0", "1", "2", "10", "65535", "65536", "007", "99999999999", "\\2", "'3'"][..upto]);
            self.put(f);
        }
        if self.r.p(35) {
            let t = *self.r.pick(&[">&", "<&"]);
            self.put(t);
            self.ows();
            if self.r.p(80) {
                let t = *self.r.pick(&["1", "-", "2", "$x", "\"1\"", "`a`", "12", "\\3", "'4'"]);
                self.put(t);
            } else {
                self.word();
            }
        } else {
            let t = *self.r.pick(&[">", "<", ">>", ">|", "<>"]);
            self.put(t);
            self.ows();
            self.word();
        }
    }
    fn assign(&mut self) {
        let t = *self.r.pick(NAMES);
        self.put(t);
        self.put("=");
        if self.r.p(80) {
            if self.r.p(5) {
                self.put("#");
            }
            self.word();
        }
    }
    fn simple(&mut self) {
        let mut parts = 0;
        while self.r.p(self.m.assign) && parts < 3 {
            self.assign();
            self.ws();
            parts += 1;
        }
        while self.r.p(self.m.redirect / 2) && parts < 3 {
            self.redirect();
            self.ws();
            parts += 1;
        }
        if parts > 0 && self.r.p(20) {
            return;
        }
        if self.r.p(70) {
            let t = *self.r.pick(NAMES);
            self.put(t);
        } else {
            self.word();
        }
        let k = self.r.below(3);
        for _ in 0..k {
            self.ws();
            if self.r.p(self.m.redirect) {
                self.redirect();
            } else if self.r.p(self.m.assign / 3) {
                self.assign();
            } else {
                self.word();
            }
        }
        if self.r.p(self.m.heredoc / 2) && self.d > 0 {
            self.ws();
            self.heredoc();
        }
        self.ows();
    }
    fn comment(&mut self) {
        if self.m.unicode > 10 || self.r.p(95) {
            let t = *self.r.pick(COMMENTS);
            self.put(t);
        } else {
            self.put("#");
        }
        self.nl();
    }
    /// A place where newlines and comments may stand.
    fn breaks(&mut self) {
        self.put(" ");
        let mut k = 0;
        while k < 3 && self.r.p(self.m.comment) {
            if self.r.p(50) {
                self.comment();
            } else {
                self.nl();
            }
            self.ows();
            k += 1;
        }
    }
    /// An optional newline or comment after a token.
    fn newline_op(&mut self) {
        self.put(" ");
        if self.r.p(self.m.comment) {
            if self.r.p(50) {
                self.comment();
            } else {
                self.nl();
            }
        }
    }
    fn sep(&mut self) {
        if self.r.p(self.m.amp) {
            self.put("&");
        } else if self.r.p(50) {
            self.put(";");
        } else {
            if self.r.p(self.m.comment) {
                self.put(" ");
                return self.comment();
            }
            return self.nl();
        }
        if self.r.p(40) {
            self.put(" ");
        }
        if self.r.p(15) {
            self.nl();
        }
    }
    fn cmds(&mut self, k: usize, closed: bool) {
        for i in 0..k {
            if self.r.p(self.m.comment / 2) {
                self.breaks();
            }
            self.andor();
            if i + 1 < k || closed || self.r.p(30) {
                self.sep();
            }
        }
        if closed && self.r.p(self.m.comment) {
            self.breaks();
        }
    }
    fn andor(&mut self) {
        self.pipeline();
        while self.r.p(self.m.andor) {
            self.ows();
            let t = *self.r.pick(&["&&", "||"]);
            self.put(t);
            self.breaks();
            self.pipeline();
        }
    }
    fn pipeline(&mut self) {
        if self.r.p(12) {
            self.put("!");
            self.ws();
        }
        self.command();
        while self.r.p(self.m.pipe) {
            self.ows();
            self.put("|");
            self.breaks();
            self.command();
        }
    }
    fn command(&mut self) {
        let w = if self.d == 0 { [1, 0, 0] } else { self.m.cmd };
        match self.r.weighted(&w) {
            0 => self.simple(),
            1 => self.compound(true),
            _ => self.function(),
        }
    }
    fn function(&mut self) {
        let kw = self.r.p(50);
        if kw {
            self.put("function ");
            self.ows();
        }
        let upto = if self.r.p(92) { 6 } else { 8 };
        let t = *self.r.pick(&["f", "g", "foo", "x_1", "f", "f", "1f", "a-b"][..upto]);
        self.put(t);
        if self.r.p(40) {
            self.put(" ");
        }
        if !kw || self.r.p(50) {
            let t = *self.r.pick(&["()", "()", "( )", "(\t)"]);
            self.put(t);
        } else {
            self.put(" ");
        }
        self.ows();
        self.breaks();
        self.compound(true);
    }
    fn body(&mut self) {
        self.put(" ");
        let k = 1 + self.r.below(2);
        self.cmds(k, true);
        self.ows();
    }
    fn compound(&mut self, redirects: bool) {
        let d = self.d;
        self.d = d.saturating_sub(1);
        let k = self.m.comp;
        match self.r.weighted(&k) {
            0 => {
                self.put("{");
                self.body();
                self.put("}");
            }
            1 => {
                self.put("(");
                let k = 1 + self.r.below(2);
                let closed = self.r.p(40);
                self.cmds(k, closed);
                if !self.pend.is_empty() {
                    self.nl();
                }
                self.put(")");
            }
            2 => {
                let t = *self.r.pick(&["while", "until"]);
                self.put(t);
                self.body();
                self.put("do");
                self.body();
                self.put("done");
            }
            3 => {
                self.put("if");
                self.body();
                self.put("then");
                self.body();
                while self.r.p(25) {
                    self.put("elif");
                    self.body();
                    self.put("then");
                    self.body();
                }
                if self.r.p(35) {
                    self.put("else");
                    self.body();
                }
                self.put("fi");
            }
            4 => {
                self.put("for ");
                let t = *self.r.pick(NAMES);
                self.put(t);
                match self.r.below(4) {
                    0 => {
                        self.ows();
                        self.put(";");
                        self.breaks();
                    }
                    1 => {
                        self.put(" ");
                        self.breaks();
                    }
                    _ => {
                        self.newline_op();
                        self.breaks();
                        self.put("in");
                        let k = self.r.below(3);
                        for _ in 0..k {
                            self.ws();
                            self.word();
                        }
                        self.ows();
                        if self.r.p(50) {
                            self.put(";");
                            self.newline_op();
                        } else {
                            self.put(" ");
                            if self.r.p(self.m.comment) {
                                self.comment();
                            } else {
                                self.nl();
                            }
                        }
                        self.breaks();
                    }
                }
                self.put("do");
                self.body();
                self.put("done");
            }
            _ => {
                self.put("case ");
                self.word();
                self.breaks();
                self.put("in ");
                self.newline_op();
                let arms = self.r.below(3);
                for i in 0..arms {
                    self.breaks();
                    if self.r.p(40) {
                        self.put("(");
                        self.ows();
                    }
                    self.word();
                    while self.r.p(25) {
                        self.ows();
                        self.put("|");
                        self.ows();
                        self.word();
                    }
                    self.ows();
                    self.put(")");
                    self.newline_op();
                    if self.r.p(80) {
                        let last = i + 1 == arms && self.r.p(40);
                        let k = 1 + self.r.below(2);
                        self.cmds(k, last);
                        if last {
                            self.breaks();
                            break;
                        }
                    }
                    self.ows();
                    self.put(";;");
                    self.newline_op();
                }
                self.breaks();
                self.put("esac");
            }
        }
        while redirects && self.r.p(self.m.redirect) {
            self.ows();
            self.redirect();
        }
        self.ows();
        self.d = d;
    }
    fn script(&mut self) {
        let k = 1 + self.r.below(self.m.lines);
        for _ in 0..k {
            if self.r.p(self.m.comment) {
                self.breaks();
            }
            self.andor();
            self.sep();
        }
        if self.r.p(self.m.comment) {
            self.breaks();
        }
        if !self.pend.is_empty() {
            self.nl();
        }
        if self.r.p(30) && self.o.ends_with('\n') {
            self.o.pop();
        }
    }
}

fn soup(r: &mut Rng, m: &Mix) -> String {
    let mut o = String::new();
    let k = 1 + r.below(14);
    for _ in 0..k {
        let f = if r.p(85) { *r.pick(m.soup) } else { *r.pick(GENERAL) };
        o.push_str(f);
        if r.p(15) {
            o.push(' ');
        }
    }
    if r.p(50) {
        o.push('\n');
    }
    o
}

fn damage(r: &mut Rng, m: &Mix, t: &str) -> String {
    let mut cs: Vec<char> = t.chars().collect();
    let k = 1 + r.below(2);
    for _ in 0..k {
        if cs.is_empty() {
            break;
        }
        let i = r.below(cs.len());
        match r.below(7) {
            0 => cs.truncate(i + 1),
            1 | 2 => {
                cs.remove(i);
            }
            3 => {
                let j = (i + 1 + r.below(6)).min(cs.len());
                cs.drain(i..j);
            }
            4 => {
                let j = (i + 1 + r.below(6)).min(cs.len());
                let part: Vec<char> = cs[i..j].to_vec();
                let at = r.below(cs.len());
                for (x, c) in part.into_iter().enumerate() {
                    cs.insert(at + x, c);
                }
            }
            _ => {
                let f = if r.p(60) { *r.pick(m.soup) } else { *r.pick(GENERAL) };
                for (x, c) in f.chars().enumerate() {
                    cs.insert(i + x, c);
                }
            }
        }
    }
    cs.into_iter().collect()
}

fn build(r: &mut Rng, m: &Mix, f: impl FnOnce(&mut G)) -> String {
    let d = m.depth;
    let d = r.below(d + 1);
    let mut g = G { r, m: m.clone(), pend: vec![], o: String::new(), d };
    f(&mut g);
    if !g.pend.is_empty() {
        g.nl();
    }
    g.o
}

/// A source text of at most `max` characters.
fn source(r: &mut Rng, m: &Mix, max: usize) -> String {
    loop {
        let t = match r.weighted(&m.src) {
            0 => build(r, m, |g| g.script()),
            1 => {
                let t = build(r, m, |g| g.script());
                damage(r, m, &t)
            }
            _ => soup(r, m),
        };
        if t.chars().count() <= max {
            return t;
        }
    }
}

const STR: &[&str] = &[];

fn words(w: &[&str]) -> J {
    J::A(w.iter().map(|x| s(*x)).collect())
}
fn toks(w: &[(&str, &str)]) -> J {
    J::A(w.iter().map(|x| arr![s(x.0), s(x.1)]).collect())
}

/// A call history and the text it is meant for.
fn history(r: &mut Rng, m: &Mix) -> (Vec<J>, String) {
    let mut text = String::new();
    let mut calls = Vec::new();
    let k = 1 + r.below(4);
    for _ in 0..k {
        let mut kind = r.below(34);
        let share: &[usize] = match r.below(3) {
            0 => &[],
            _ => focus_ops(m),
        };
        if !share.is_empty() {
            kind = *r.pick(share);
        }
        let m1 = Mix { depth: 1 + r.below(2), ..m.clone() };
        let only = |c: usize| {
            let mut x = m1.clone();
            x.comp = [0; 6];
            x.comp[c] = 1;
            x
        };
        let redirects = r.p(30);
        let op0 = |o: &str| arr![s(o)];
        let blank = if r.p(25) { *r.pick(&[" ", "\t", "\\\n", "  "]) } else { "" };
        let (op, t) = match kind {
            0 => (op0("complete_command"), build(r, &m1, |g| g.script())),
            1 => (op0("and_or_list"), build(r, &m1, |g| g.andor())),
            2 => (op0("pipeline"), build(r, &m1, |g| g.pipeline())),
            3 => (op0("command"), build(r, &m1, |g| g.command())),
            4 => (op0("simple_command"), build(r, &m1, |g| g.simple())),
            5 => (op0("redirect_list"), build(r, &m1, |g| {
                let k = g.r.below(4);
                for _ in 0..k {
                    g.redirect();
                    g.ows();
                }
            })),
            6 => (op0("redirect"), build(r, &m1, |g| if g.r.p(80) { g.redirect() } else { g.word() })),
            7 => {
                let fd = if r.p(40) { arr![s("5")] } else { arr![] };
                let t = build(r, &m1, |g| g.heredoc());
                (arr![s("redirect_heredoc"), fd], t.trim_start_matches(|c: char| c.is_ascii_digit()).to_string())
            }
            8 => (op0("word"), build(r, &m1, |g| g.word())),
            9 => (op0("word_preserve"), build(r, &m1, |g| g.word())),
            10 => (op0("backticked"), build(r, &m1, |g| g.backquote())),
            11 => (op0("parameter"), build(r, &m1, |g| match g.r.below(5) {
                0 => g.cmd_subst(),
                1 => g.arith_subst(),
                2 => g.piece(),
                _ => g.param_subst(),
            })),
            12 => (op0("do_group"), build(r, &m1, |g| {
                g.put("do");
                g.body();
                g.put("done")
            })),
            13 => (op0("brace_group"), build(r, &only(0), |g| g.compound(false))),
            14 => (op0("subshell"), build(r, &only(1), |g| g.compound(false))),
            15 => (op0("compound_command"), build(r, &m1, |g| g.compound(true))),
            16 => (op0("loop_command"), build(r, &only(2), |g| g.compound(false))),
            17 => (op0("if_command"), build(r, &only(3), |g| g.compound(false))),
            18 => (op0("for_command"), build(r, &only(4), |g| g.compound(false))),
            19 => (op0("case_command"), build(r, &only(5), |g| g.compound(false))),
            20 => (op0("maybe_function"), build(r, &m1, |g| if g.r.p(60) { g.function() } else { g.command() })),
            21 => (op0("function"), build(r, &m1, |g| g.function())),
            22 => (op0("skip_whitespace"), r.pick(&[" ", " \\\n ", "", "\t", "  "]).to_string()),
            23 => (op0("linebreak"), r.pick(&["\n", "#c\n", "\n\n#c\n", "", " \n", "# é\n \n"]).to_string()),
            24 => (op0("newline"), r.pick(&["\n", "#c\n", "", " \n", "\n\n"]).to_string()),
            25 => {
                let t = *r.pick(&[("CurlyOpen", "{"), ("CurlyClose", "}"), ("Whitespace", " "), ("Dash", "-"), ("Name", "foo"), ("ParamPositional", "$1")]);
                let t2 = *r.pick(&[("Bang", "!"), ("Name", "a"), ("Literal", "1"), ("Whitespace", "\t"), ("Dash", "-")]);
                let l = if r.p(60) { toks(&[t, t2]) } else { toks(&[t]) };
                (arr![s(if r.p(50) { "peek_reserved_token" } else { "reserved_token" }), l],
                 format!("{}{}", if r.p(70) { t.1 } else { t2.1 }, r.pick(&[" ", "", "x", ";", "\n"])))
            }
            26 | 27 => {
                let w = *r.pick(RESERVED);
                let w2 = *r.pick(&["foo", "a", "do", "in"]);
                let l = if r.p(60) { words(&[w, w2]) } else if r.p(90) { words(&[w]) } else { words(STR) };
                (arr![s(if kind == 26 { "peek_reserved_word" } else { "reserved_word" }), l],
                 format!("{}{}", if r.p(70) { w } else { w2 }, r.pick(&[" ", "", "x", ";", "\n", "'x'"])))
            }
            28 => {
                let (a, b, c, end) = match r.below(5) {
                    0 => (toks(&[("CurlyClose", "}")]), words(STR), toks(&[]), "}"),
                    1 => (toks(&[]), words(&["done", "fi"]), toks(&[]), "fi"),
                    2 => (toks(&[]), words(STR), toks(&[("DSemi", ";;"), ("ParenClose", ")")]), ";;"),
                    3 => (toks(&[]), words(&["foo"]), toks(&[("ParenClose", ")")]), "foo"),
                    _ => (toks(&[]), words(STR), toks(&[]), ""),
                };
                let t = build(r, &m1, |g| g.body());
                (arr![s("command_group"), a, b, c], format!("{}{}{}", t, end, if r.p(50) { " " } else { "" }))
            }
            29 => {
                let d = 1 + r.below(4);
                (op0("arithmetic"), build(r, &m1, |g| g.arith(d)))
            }
            30 => (arr![s("*")], build(r, &m1, |g| g.script())),
            31 => (arr![s("peek_reserved_word"), words(&["function", "if"])], String::new()),
            32 => (arr![s("peek_reserved_token"), toks(&[("CurlyOpen", "{"), ("ParenOpen", "(")])], String::new()),
            _ => (op0("maybe_function"), String::new()),
        };
        text.push_str(blank);
        text.push_str(&t);
        if r.p(70) {
            text.push_str(*r.pick(&[" ", ";", "\n", " ", "\n"]));
        }
        if r.p(25) {
            let l = match r.below(4) {
                0 => arr![s("skip_whitespace")],
                1 => arr![s("linebreak")],
                2 => arr![s("peek_reserved_word"), words(RESERVED)],
                _ => arr![s("newline")],
            };
            calls.push(l);
        }
        calls.push(op);
    }
    if r.p(70) {
        calls.push(arr![s("*")]);
    }
    if r.p(25) {
        calls.push(arr![s("into_iter")]);
        calls.push(arr![s("*")]);
    }
    if r.p(20) {
        text = damage(r, m, &text);
    }
    (calls, text)
}

fn focus_ops(m: &Mix) -> &'static [usize] {
    let p = m.soup.as_ptr();
    if p == COMPOUND.as_ptr() {
        &[12, 13, 14, 15, 16, 17, 18, 19, 28]
    } else if p == FUNCS.as_ptr() {
        &[20, 21, 3, 33]
    } else if p == SIMPLE.as_ptr() {
        &[4, 5, 6, 6, 4]
    } else if p == HEREDOCS.as_ptr() {
        &[7, 6, 4]
    } else if p == WORDS.as_ptr() {
        &[8, 9]
    } else if p == PARAMS.as_ptr() {
        &[11, 11, 8]
    } else if p == SUBST.as_ptr() {
        &[10, 11]
    } else if p == ARITH.as_ptr() {
        &[29]
    } else {
        &[]
    }
}

/// A simple tokenizer, so that token streams do not depend on the lexer
/// under test; `odd` makes it split and rename tokens.
fn tokens(r: &mut Rng, t: &str, odd: usize) -> Vec<(String, String)> {
    let cs: Vec<char> = t.chars().collect();
    let mut out: Vec<(String, String)> = Vec::new();
    let mut i = 0;
    let run = |i: usize, f: &dyn Fn(char) -> bool| cs[i..].iter().take_while(|c| f(**c)).count();
    let special = |c: char| FIXED.iter().any(|e| e.1.len() == 1 && e.1.starts_with(c));
    while i < cs.len() {
        let c = cs[i];
        let mut k;
        let kind: &str;
        if c == '$' && i + 1 < cs.len() && cs[i + 1].is_ascii_digit() {
            kind = "ParamPositional";
            k = 2;
        } else if special(c) {
            let rest: String = cs[i..(i + 3).min(cs.len())].iter().collect();
            let e = FIXED.iter().filter(|e| rest.starts_with(e.1)).max_by_key(|e| e.1.len()).unwrap();
            kind = e.0;
            k = e.1.len();
        } else if c.is_whitespace() {
            kind = "Whitespace";
            k = run(i, &|c| c.is_whitespace() && c != '\n');
        } else if c.is_alphabetic() || c == '_' {
            kind = "Name";
            k = run(i, &|c| c.is_alphabetic() || c == '_' || c.is_ascii_digit());
        } else {
            kind = "Literal";
            k = run(i, &|c| !c.is_whitespace() && !special(c));
        }
        let mut kd = kind.to_string();
        if k > 1 && matches!(kind, "Name" | "Literal" | "Whitespace") && r.p(odd / 2) {
            k = 1 + r.below(k - 1);
        }
        if matches!(kind, "Name") && r.p(odd / 2) {
            kd = "Literal".to_string();
        }
        out.push((kd, cs[i..i + k].iter().collect()));
        i += k;
    }
    if r.p(odd) {
        // a few changes to the stream itself
        let n = 1 + r.below(2);
        for _ in 0..n {
            let at = r.below(out.len() + 1);
            match r.below(4) {
                0 if at < out.len() => {
                    out.remove(at);
                }
                1 if at < out.len() => {
                    let x = out[at].clone();
                    out.insert(at, x);
                }
                2 => {
                    let b = r.below(out.len() + 1);
                    if at < out.len() && b < out.len() {
                        out.swap(at, b);
                    }
                }
                _ => {
                    let e = *r.pick(&[
                        ("Name", "if"), ("Literal", "if"), ("Literal", "foo"), ("Literal", "12"), ("Whitespace", "  "), ("Name", "f"),
                        ("ParamPositional", "$7"), ("Newline", "\n"), ("Literal", "done"), ("Literal", "a b"), ("Name", "é"),
                    ]);
                    out.insert(at, (e.0.to_string(), e.1.to_string()));
                }
            }
        }
    }
    out
}

pub fn generate(focus: &str, seed: u64, count: usize, max: usize) {
    use std::io::Write;
    let m = mix(focus);
    let mut r = Rng(seed.wrapping_mul(0x2545_f491_4f6c_dd1d) ^ focus.bytes().fold(7, |a, b| a * 131 + u64::from(b)));
    let stdout = std::io::stdout();
    let mut out = std::io::BufWriter::new(stdout.lock());
    for _ in 0..count {
        let mode = *r.pick(m.modes);
        if mode == "misc" {
            writeln!(out, "{}", J::O(crate::misc::generate(&mut r, focus))).unwrap();
            continue;
        }
        let mut o: Vec<(String, J)> = Vec::new();
        let mut put = |k: &str, v: J| o.push((k.to_string(), v));
        if mode != "parse" {
            let t = source(&mut r, &m, max);
            put("mode", s(mode));
            put("cs", chars(&t));
            if mode == "lex" {
                put("loose", n(r.below(3)));
            }
        } else {
            let (calls, t) = if r.p(m.hist) {
                let mut x = history(&mut r, &m);
                while x.1.chars().count() > max {
                    x = history(&mut r, &m);
                }
                x
            } else if r.p(m.iter) {
                let mut c = vec![];
                if r.p(30) {
                    c.push(arr![s("complete_command")]);
                }
                c.push(arr![s("into_iter")]);
                c.push(arr![s("*")]);
                (c, source(&mut r, &m, max))
            } else {
                (vec![arr![s("*")]], source(&mut r, &m, max))
            };
            if r.p(m.toks) {
                let odd = if r.p(50) { 30 } else { 0 };
                let ts = tokens(&mut r, &t, odd);
                put("toks", J::A(ts.iter().map(|x| arr![s(x.0.clone()), text(&x.1)]).collect()));
            } else {
                put("cs", chars(&t));
            }
            if focus == "C03" && r.p(40) && !calls.contains(&arr![s("into_iter")]) {
                put("on", J::B(true));
            }
            put("calls", J::A(calls));
            if r.p(m.fail) {
                let top = if r.p(60) { 8 } else { 40 };
                let k = 1 + r.below(top);
                put("fail", n(k));
            }
            if r.p(15) {
                let v = *r.pick(&["ref", "box"]);
                put("via", s(v));
            }
        }
        writeln!(out, "{}", J::O(o)).unwrap();
    }
    out.flush().unwrap();
}
