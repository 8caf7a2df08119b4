//! Runs the real library on inputs and records what it observes, one JSON line per case.
//! It contains no expectation about any result: that is the specification's part.
//!
//! usage: harness [--threads N | --fresh | --console] < cases > observations
//!
//! case line:    id mode flags pre fb fn post [extra]
//!   mode        der | cert | ext | name | valid | bits | sum | prim | sess | pair | mem | time |
//!               made
//!   flags       letters: t record texts, p record printing, q also of the parts, z leave the input out of the record,
//!               c record only that the calls returned and how many callbacks there were, - none
//!   pre, post   hexadecimal octets, "-" for none; the input is pre, fn times fb, post
//!   extra       mode specific, see below
//!
//! With --threads N the cases are run by N threads at once, every thread runs all of them, each
//! in another order.  With --fresh every case is run by a thread of its own.

mod base;
mod cert;
mod console;
mod der;
mod json;
#[cfg(feature = "made")]
mod made;
mod mem;
mod pair;
mod prim;
mod print;
mod session;
mod work;

use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

#[global_allocator]
static MEMORY: mem::Counted = mem::Counted;

pub struct Case {
    pub id: String,
    pub mode: String,
    pub texts: bool,
    pub printing: bool,
    pub parts: bool,
    pub silent: bool,
    pub compact: bool,
    pub pre: Vec<u8>,
    pub fill: u8,
    pub count: usize,
    pub post: Vec<u8>,
    pub extra: Vec<String>,
}

fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return Vec::new();
    }
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex"))
        .collect()
}

impl Case {
    fn parse(line: &str) -> Case {
        let f: Vec<&str> = line.split_whitespace().collect();
        Case {
            id: f[0].to_string(),
            mode: f[1].to_string(),
            texts: f[2].contains('t'),
            printing: f[2].contains('p') || f[2].contains('q'),
            parts: f[2].contains('q'),
            silent: f[2].contains('z'),
            compact: f[2].contains('c'),
            pre: unhex(f[3]),
            fill: f[4].parse().expect("fill"),
            count: f[5].parse().expect("count"),
            post: unhex(f[6]),
            extra: f[7..].iter().map(|s| s.to_string()).collect(),
        }
    }

    fn len(&self) -> usize {
        self.pre.len() + self.count + self.post.len()
    }
}

/// The input lies inside a larger buffer: what is around it must not matter.
pub struct Arena {
    buf: Vec<u8>,
    turn: usize,
}

const MARGIN: usize = 64;

impl Arena {
    fn new() -> Arena {
        Arena {
            buf: Vec::new(),
            turn: 0,
        }
    }

    fn place(&mut self, case: &Case) -> &[u8] {
        // surroundings that look like more elements of the input
        const AROUND: [&[u8]; 4] = [&[0x05, 0x00], &[0x30, 0x03, 0x02, 0x01], &[0x00], &[0xFF]];
        let around = AROUND[self.turn % AROUND.len()];
        self.turn += 1;
        let n = case.len();
        self.buf.clear();
        if self.buf.capacity() > 1 << 20 && n < 1 << 16 {
            self.buf = Vec::new();
        }
        self.buf.extend((0..MARGIN).map(|i| around[i % around.len()]));
        self.buf.extend_from_slice(&case.pre);
        self.buf.resize(self.buf.len() + case.count, case.fill);
        self.buf.extend_from_slice(&case.post);
        self.buf.extend((0..MARGIN).map(|i| around[i % around.len()]));
        &self.buf[MARGIN..MARGIN + n]
    }
}

fn run(case: &Case, arena: &mut Arena) -> String {
    let input = arena.place(case);
    let base = input.as_ptr() as usize;
    let at = json::Place {
        base,
        len: input.len(),
    };
    let mut log = String::new();
    let result = catch_unwind(AssertUnwindSafe(|| match case.mode.as_str() {
        "der" => der::run(case, input, at, &mut log),
        "sum" => der::summary(input, &mut log),
        "bits" => der::bits(case, input, &mut log),
        "cert" => cert::run_cert(case, input, at, &mut log),
        "name" => cert::run_name(case, input, at, &mut log),
        "ext" => cert::run_ext(case, input, at, &mut log),
        "valid" => cert::run_valid(case, input, &mut log),
        #[cfg(feature = "made")]
        "made" => made::run(case, input, at, &mut log),
        "mem" => mem::run(case, input, &mut log),
        "pair" => pair::run(case, input, &mut log),
        "prim" => prim::run(case, input, &mut log),
        "sess" => session::run(case, input, &mut log),
        "time" => work::run(case, input, &mut log),
        other => panic!("unknown mode {other}"),
    }));
    let panicked = result.is_err();
    if case.compact {
        let count = match case.mode.as_str() {
            "der" => log.matches("\"e\":").count(),
            _ => 0,
        };
        return format!(
            "{{\"id\":\"{}\",\"m\":\"{}\",\"n\":{},\"o\":{{\"p\":{},\"n\":{}}}}}\n",
            case.id,
            case.mode,
            input.len(),
            panicked as u8,
            count
        );
    }
    let observed = match case.mode.as_str() {
        // the callbacks before a panic are observations
        "der" => {
            if panicked {
                der::close_events(&mut log);
            }
            log
        }
        _ if panicked => "{\"p\":1}".to_string(),
        _ => log,
    };
    let mut out = String::with_capacity(observed.len() + 64);
    out.push_str("{\"id\":\"");
    out.push_str(&case.id);
    out.push_str("\",\"m\":\"");
    out.push_str(&case.mode);
    out.push_str("\",\"t\":");
    out.push_str(if case.texts { "1" } else { "0" });
    out.push_str(",\"pr\":");
    out.push_str(if case.parts { "2" } else if case.printing { "1" } else { "0" });
    if !case.silent {
        out.push_str(",\"x\":{\"pre\":");
        json::bytes(&mut out, &case.pre);
        out.push_str(&format!(
            ",\"fb\":{},\"fn\":{},\"post\":",
            case.fill, case.count
        ));
        json::bytes(&mut out, &case.post);
        out.push('}');
    }
    out.push_str(",\"y\":[");
    out.push_str(&case.extra.join(","));
    out.push_str("],\"o\":");
    out.push_str(&observed);
    out.push_str("}\n");
    out
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let threads: usize = match args.iter().position(|a| a == "--threads") {
        Some(i) => args[i + 1].parse().expect("threads"),
        None => 0,
    };
    let stdin = std::io::stdin();
    if args.iter().any(|a| a == "--console") {
        for (turn, line) in stdin.lock().lines().enumerate() {
            console::run(&Case::parse(&line.expect("stdin")), turn);
        }
        print!("\n\0\n");
        return;
    }
    let stdout = std::io::stdout();
    if args.iter().any(|a| a == "--fresh") {
        for line in stdin.lock().lines() {
            let case = Case::parse(&line.expect("stdin"));
            let thread = std::thread::spawn(move || run(&case, &mut Arena::new()));
            let text = thread.join().expect("thread");
            stdout.lock().write_all(text.as_bytes()).expect("stdout");
        }
        return;
    }
    if threads == 0 {
        let mut arena = Arena::new();
        for line in stdin.lock().lines() {
            let line = line.expect("stdin");
            if line.is_empty() {
                continue;
            }
            let text = run(&Case::parse(&line), &mut arena);
            let mut out = stdout.lock();
            // one write per case: if the next one kills the process it is identifiable
            out.write_all(text.as_bytes()).expect("stdout");
            out.flush().expect("stdout");
        }
        return;
    }
    let cases: Arc<Vec<Case>> = Arc::new(
        stdin
            .lock()
            .lines()
            .map(|l| Case::parse(&l.expect("stdin")))
            .collect(),
    );
    let out = Arc::new(Mutex::new(stdout));
    let start = Arc::new(std::sync::Barrier::new(threads));
    let handles: Vec<_> = (0..threads)
        .map(|t| {
            let cases = cases.clone();
            let out = out.clone();
            let start = start.clone();
            std::thread::spawn(move || {
                let mut arena = Arena::new();
                let n = cases.len();
                let mut text = String::new();
                start.wait();
                for i in 0..n {
                    let k = match t % 3 {
                        0 => i,
                        1 => n - 1 - i,
                        _ => (i + t * n / threads) % n,
                    };
                    text.push_str(&run(&cases[k], &mut arena));
                }
                out.lock().unwrap().write_all(text.as_bytes()).expect("stdout");
            })
        })
        .collect();
    for h in handles {
        h.join().expect("thread");
    }
}
