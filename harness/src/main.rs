//! Drives the real code and writes what it did as JSON lines.
//!
//! vh run CUR            run the sessions on stdin; one that does what its
//!                       "exp" says is answered by a line "="
//! vh gen FOCUS SEED N MAX  write N random sessions of at most MAX characters
//!
//! CUR names a file that holds the session being run.
mod enc;
mod gen;
mod json;
mod misc;
mod rec;
mod sess;

use json::J;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};

static STARTED: AtomicU64 = AtomicU64::new(0);

/// The CPU time this process has used, in hundredths of a second.
fn cpu() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap();
    let f: Vec<&str> = s[s.rfind(')').unwrap() + 2..].split(' ').collect();
    f[11].parse::<u64>().unwrap() + f[12].parse::<u64>().unwrap()
}

fn run(cur: &str) {
    use std::io::{Seek, SeekFrom};
    let mut cur = std::fs::File::create(cur).unwrap();
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = std::io::BufWriter::new(stdout.lock());
    let mut n = 0;
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.is_empty() {
            continue;
        }
        cur.seek(SeekFrom::Start(0)).unwrap();
        cur.write_all(line.as_bytes()).unwrap();
        cur.set_len(line.len() as u64).unwrap();
        n += 1;
        STARTED.store(n, Ordering::SeqCst);
        let x = match json::parse(&line) {
            J::S(ref t) => json::parse(t),
            x => x,
        };
        let mut o: Vec<(String, J)> = match x {
            J::O(ref v) => v.iter().filter(|f| f.0 != "exp").cloned().collect(),
            _ => panic!("object expected"),
        };
        match x.get("mode").map_or("parse", |m| m.str()) {
            "lex" => {
                let l = sess::lex(&x);
                if x.get("exp").map_or(false, |e| sess::lex_as(&l, e)) {
                    writeln!(out, "=").unwrap();
                    out.flush().unwrap();
                    STARTED.store(0, Ordering::SeqCst);
                    continue;
                }
                o.push(("lex".into(), l))
            }
            "default" => {
                let l = sess::default(&x);
                if x.get("exp").map_or(false, |e| sess::default_as(&l, e)) {
                    writeln!(out, "=").unwrap();
                    out.flush().unwrap();
                    STARTED.store(0, Ordering::SeqCst);
                    continue;
                }
                o.extend(l)
            }
            "misc" => o.extend(misc::run(&x)),
            _ => {
                let l = sess::session(&x);
                if x.get("exp").map_or(false, |e| sess::out_as(&l, e)) {
                    writeln!(out, "=").unwrap();
                    out.flush().unwrap();
                    STARTED.store(0, Ordering::SeqCst);
                    continue;
                }
                o.push(("out".into(), l))
            }
        }
        STARTED.store(0, Ordering::SeqCst);
        writeln!(out, "{}", J::O(o)).unwrap();
        out.flush().unwrap();
    }
    out.flush().unwrap();
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        "run" => {
            std::thread::spawn(|| {
                let mut since = (0, 0);
                loop {
                    std::thread::sleep(std::time::Duration::from_millis(500));
                    let t = STARTED.load(Ordering::SeqCst);
                    if t == 0 || t != since.0 {
                        since = (t, cpu());
                    } else if cpu() > since.1 + 500 {
                        std::process::exit(9);
                    }
                }
            });
            let cur = args[2].clone();
            // the usual size of a main thread's stack
            let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || run(&cur)).unwrap();
            if h.join().is_err() {
                std::process::exit(8);
            }
        }
        "gen" => {
            let k = |i: usize| args[i].parse::<usize>().unwrap();
            gen::generate(&args[2], k(3) as u64, k(4), k(5))
        },
        a => panic!("unknown command {}", a),
    }
}
