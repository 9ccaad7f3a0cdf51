mod checks;
mod gen;
mod refparse;
mod reflex;
mod tree;

use gen::*;
use lolcode_ast::lexer::{Keywords, NumberToken, Position, Range, Token, TokenType as TT, TokenValue};
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{:02x}", b)).collect()
}
fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect();
    String::from_utf8_lossy(&b).into()
}
fn enc(t: &TT) -> String {
    match t {
        TT::Identifier(s) => format!("I:{}", hex(s)),
        TT::Symbol(s) => format!("S:{}", hex(s)),
        TT::Keyword(k) => format!("K:{:?}", k),
        TT::Value(TokenValue::Number(NumberToken::Int(i))) => format!("VI:{}", i),
        TT::Value(TokenValue::Number(NumberToken::Float(i))) => format!("VF:{:?}", i),
        TT::Value(TokenValue::String(s)) => format!("VS:{}", hex(s)),
        TT::Value(TokenValue::Boolean(b)) => format!("VB:{}", b),
        TT::Value(TokenValue::NOOB) => "VN:".into(),
        TT::CommentSingleLine(s) => format!("C1:{}", hex(s)),
        TT::CommentMultiLine(s) => format!("C2:{}", hex(s)),
        TT::BukkitSlotAccess => "Z:".into(),
        TT::Ellipsis => "E:".into(),
        TT::Comma => "P:".into(),
        TT::ExclamationMark => "X:".into(),
        TT::QuestionMark => "Q:".into(),
    }
}
fn dec(s: &str) -> TT {
    let (a, b) = s.split_once(':').unwrap();
    match a {
        "I" => TT::Identifier(unhex(b)),
        "S" => TT::Symbol(unhex(b)),
        "K" => TT::Keyword(reflex::KEYWORDS.iter().find(|k| format!("{:?}", k.0) == b).map_or(Keywords::A, |k| k.0.clone())),
        "VI" => TT::Value(TokenValue::Number(NumberToken::Int(b.parse().unwrap()))),
        "VF" => TT::Value(TokenValue::Number(NumberToken::Float(b.parse().unwrap()))),
        "VS" => TT::Value(TokenValue::String(unhex(b))),
        "VB" => TT::Value(TokenValue::Boolean(b == "true")),
        "VN" => TT::Value(TokenValue::NOOB),
        "C1" => TT::CommentSingleLine(unhex(b)),
        "C2" => TT::CommentMultiLine(unhex(b)),
        "Z" => TT::BukkitSlotAccess,
        "E" => TT::Ellipsis,
        "P" => TT::Comma,
        "X" => TT::ExclamationMark,
        _ => TT::QuestionMark,
    }
}
fn write_input(i: &Input) -> String {
    match i {
        Input::Text(s) => format!("# text: {:?}\ntext {}\n", s, hex(s)),
        Input::Toks(v) => {
            let mut o = String::from("# tokens: line column bytes chars of both ends, kind\n");
            for (k, t) in v.iter().enumerate() {
                let (a, b) = (&t.range.0, &t.range.1);
                o.push_str(&format!("token {} {} {} {} {} {} {} {} {}   # t{} {}\n", a.line, a.column, a.bytes, a.chars, b.line, b.column, b.bytes, b.chars, enc(&t.token_type), k, spell(&t.token_type).escape_debug()));
            }
            o
        }
    }
}
fn read_input(s: &str) -> Option<(String, Input)> {
    let mut id = String::new();
    let mut toks = vec![];
    let mut text = None;
    let mut is_text = false;
    for l in s.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        match w.first() {
            Some(&"property") => id = w[1].into(),
            Some(&"text") => {
                is_text = true;
                text = Some(unhex(w.get(1).unwrap_or(&"")));
            }
            Some(&"token") => {
                let f = |i: usize| w[i].parse::<i32>().unwrap();
                let q = |i: usize| Position { line: f(i), column: f(i + 1), bytes: f(i + 2), chars: f(i + 3) };
                toks.push(Token { token_type: dec(w[9]), range: Range(q(1), q(5)) });
            }
            _ => {}
        }
    }
    if id.is_empty() {
        return None;
    }
    Some((id, if is_text { Input::Text(text.unwrap()) } else { Input::Toks(toks) }))
}

fn make(id: &str, i: u64, seed: u64, d: &Dict) -> Input {
    if checks::LEX.contains(&id) { Input::Text(text(i, seed, d)) } else { Input::Toks(tokens(i, seed, d)) }
}
fn run(id: &str, inp: &Input) -> Option<String> {
    match catch_unwind(AssertUnwindSafe(|| checks::check(id, inp))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Some(format!("panic: {}", m))
        }
    }
}
fn shrink(id: &str, mut inp: Input, mut msg: String) -> (Input, String) {
    let t0 = Instant::now();
    let len = |i: &Input| match i {
        Input::Text(s) => s.chars().count(),
        Input::Toks(v) => v.len(),
    };
    let cut = |i: &Input, a: usize, n: usize| match i {
        Input::Text(s) => Input::Text(s.chars().enumerate().filter(|(k, _)| *k < a || *k >= a + n).map(|x| x.1).collect()),
        Input::Toks(v) => Input::Toks(v.iter().enumerate().filter(|(k, _)| *k < a || *k >= a + n).map(|x| x.1.clone()).collect()),
    };
    let mut n = len(&inp) / 2;
    while n > 0 {
        let mut a = 0;
        let mut any = false;
        while a < len(&inp) {
            if t0.elapsed() > Duration::from_secs(8) {
                return (inp, msg);
            }
            let c = cut(&inp, a, n);
            match run(id, &c) {
                Some(m) => {
                    inp = c;
                    msg = m;
                    any = true;
                }
                None => a += n,
            }
        }
        if !(any && n == 1) {
            n /= 2;
        }
    }
    (inp, msg)
}

fn worker(id: String, seconds: u64, cases: u64, seed: u64, k: u64, w: u64, file: String, src: String) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let h = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            let d = dict(&src);
            let f = std::fs::OpenOptions::new().write(true).create(true).open(&file).unwrap();
            let t0 = Instant::now();
            let mut i = k;
            let mut done = 0u64;
            while i < cases && t0.elapsed() < Duration::from_secs(seconds) {
                f.write_at(&(i + 1).to_le_bytes(), 0).unwrap();
                let inp = make(&id, i, seed, &d);
                if let Some(m) = run(&id, &inp) {
                    let (inp, m) = shrink(&id, inp, m);
                    println!("property {}\nmessage {}\nseed {} case {}\n{}", id, m.replace('\n', " "), seed, i, write_input(&inp));
                    return 1;
                }
                done += 1;
                i += w;
            }
            println!("done {}", done);
            0
        })
        .unwrap();
    h.join().unwrap_or(3)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::env::var("HARNESS_SRC").unwrap_or("/repo/src".into());
    match a.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            let g = |i: usize| a[i].parse::<u64>().unwrap();
            std::process::exit(worker(a[2].clone(), g(3), g(4), g(5), g(6), g(7), a[8].clone(), src));
        }
        Some("replay") => {
            let mut s = String::new();
            std::fs::File::open(&a[2]).unwrap().read_to_string(&mut s).unwrap();
            let (id, inp) = match read_input(&s) {
                Some(x) => x,
                None => std::process::exit(2),
            };
            let h = std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || {
                    if let Input::Toks(t) = &inp {
                        if a.iter().any(|x| x == "-v") {
                            let b = lolcode_ast::parse(t.clone());
                            println!("{}", tree::parse_debug(&format!("{:?}", b), &tree::token_index(t)).map_or("?".into(), |t| t.show()));
                        }
                    }
                    match run(&id, &inp) {
                        Some(m) => {
                            println!("{} fails: {}", id, m);
                            1
                        }
                        None => {
                            println!("{} holds", id);
                            0
                        }
                    }
                })
                .unwrap();
            std::process::exit(h.join().unwrap_or(3));
        }
        Some("run") => {
            // run ID SECONDS CASES SEED WORKERS REPLAYFILE
            let (id, secs, cases, seed, w, replay) = (&a[2], &a[3], &a[4], &a[5], a[6].parse::<u64>().unwrap(), &a[7]);
            let me = std::env::current_exe().unwrap();
            let dir = std::env::temp_dir().join(format!("harness.{}", std::process::id()));
            std::fs::create_dir_all(&dir).unwrap();
            let mut kids = vec![];
            for k in 0..w {
                let f = dir.join(format!("case{}", k));
                let out = dir.join(format!("out{}", k));
                let c = std::process::Command::new("sh")
                    .arg("-c")
                    .arg("ulimit -v 4000000; exec \"$0\" \"$@\"")
                    .arg(&me)
                    .args(["worker", id, secs, cases, seed, &k.to_string(), &w.to_string()])
                    .arg(&f)
                    .stdout(std::fs::File::create(&out).unwrap())
                    .stderr(std::process::Stdio::null())
                    .spawn()
                    .unwrap();
                kids.push((c, f, out, 0u64, Instant::now(), false));
            }
            let mut done = 0u64;
            let mut bad: Option<String> = None;
            let case = |f: &std::path::Path| -> u64 {
                std::fs::read(f).ok().filter(|b| b.len() >= 8).map_or(0, |b| u64::from_le_bytes(b[..8].try_into().unwrap()))
            };
            let limit: u64 = std::env::var("HARNESS_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(25);
            'all: loop {
                let mut alive = false;
                for (c, f, out, last, since, over) in kids.iter_mut() {
                    if *over {
                        continue;
                    }
                    let at = case(f);
                    if at != *last {
                        *last = at;
                        *since = Instant::now();
                    }
                    let describe = |what: &str| {
                        let d = dict(&src);
                        let i = at.saturating_sub(1);
                        let s = seed.parse::<u64>().unwrap();
                        format!("property {}\nmessage {}\nseed {} case {}\n{}", id, what, s, i, write_input(&make(id, i, s, &d)))
                    };
                    match c.try_wait().unwrap() {
                        Some(st) => {
                            *over = true;
                            let o = std::fs::read_to_string(&out).unwrap_or_default();
                            if st.code() == Some(0) {
                                done += o.split_whitespace().nth(1).and_then(|s| s.parse().ok()).unwrap_or(0);
                            } else if st.code() == Some(1) && o.starts_with("property") {
                                bad = Some(o);
                                break 'all;
                            } else if at > 0 {
                                bad = Some(describe(&format!("the process died ({})", st)));
                                break 'all;
                            }
                        }
                        None => {
                            alive = true;
                            if at > 0 && since.elapsed() > Duration::from_secs(limit) {
                                // hang (or an 8 s shrink in progress, which is shorter than the limit)
                                bad = Some(describe("no result within the time limit: it does not terminate"));
                                break 'all;
                            }
                        }
                    }
                }
                if !alive {
                    break;
                }
                std::thread::sleep(Duration::from_millis(30));
            }
            for (c, ..) in kids.iter_mut() {
                let _ = c.kill();
                let _ = c.wait();
            }
            let _ = std::fs::remove_dir_all(&dir);
            match bad {
                Some(b) => {
                    std::fs::File::create(replay).unwrap().write_all(b.as_bytes()).unwrap();
                    println!("fail {}", b.lines().nth(1).unwrap_or(""));
                    std::process::exit(1);
                }
                None => println!("ok {}", done),
            }
        }
        _ => std::process::exit(2),
    }
}
