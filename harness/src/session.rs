//! Clients that hold several certificates and interleave decodes.
//!   input   the inputs of the pool, one after the other
//!   extra   number of inputs, their lengths, then triples of operation and two arguments
//!           (see Session.tla)
//! Every operation is recorded as a fingerprint of its outcome in full, or in full (flag t).

use crate::json::Place;
use crate::{base, cert, der, print};
use crate::Case;
use rx509::der::{parse_all, ASNError, ASNType, ParseHandler};
use rx509::x509::ext::Extension;
use rx509::x509::printer::{LinePrinter, Printable};
use rx509::x509::Certificate;
use std::collections::BTreeSet;
use std::fmt::Write;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A certificate and the buffer it borrows from, which is used again for the next one.
#[derive(Default)]
struct Slot {
    cert: Option<Certificate<'static>>,
    buf: Vec<u8>,
}

impl Slot {
    fn at(&self) -> Place {
        Place {
            base: self.buf.as_ptr() as usize,
            len: self.buf.len(),
        }
    }

    fn load(&mut self, input: &[u8], out: &mut String) {
        self.cert = None;
        self.buf.clear();
        self.buf.extend_from_slice(input);
        // the buffer is not touched before the certificate is gone
        let bytes: &'static [u8] =
            unsafe { std::slice::from_raw_parts(self.buf.as_ptr(), self.buf.len()) };
        let result = Certificate::parse(bytes);
        cert::outcome(out, self.at(), &result);
        out.push('}');
        self.cert = result.ok();
    }
}

fn note(full: bool, text: String) -> String {
    if text.is_empty() {
        return "\"\"".to_string();
    }
    if full {
        return text;
    }
    let print = |salt: u64| {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        salt.hash(&mut h);
        text.hash(&mut h);
        h.finish()
    };
    format!("\"{:016x}{:016x}\"", print(1), print(2))
}

/// A client that has had enough after this many calls: it does not return from the next one or,
/// if it is polite, tells whoever writes to it of an error from then on.
struct Tired {
    left: usize,
    polite: bool,
}

impl Tired {
    fn after(calls: usize) -> Tired {
        Tired {
            left: calls,
            polite: calls % 3 == 2,
        }
    }

    fn turn(&mut self) -> std::fmt::Result {
        if self.left > 0 {
            self.left -= 1;
            return Ok(());
        }
        if !self.polite {
            std::panic::resume_unwind(Box::new(()));
        }
        Err(std::fmt::Error)
    }
}
/// what is formatted is written to the client piece by piece
impl std::fmt::Write for Tired {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        self.turn()
    }
}
impl ParseHandler for Tired {
    fn begin_constructed(&mut self) {
        let _ = self.turn();
    }
    fn end_constructed(&mut self) {
        let _ = self.turn();
    }
    fn on_type(&mut self, asn: &ASNType) {
        let _ = write!(self, "{asn}");
    }
    fn on_error(&mut self, err: &ASNError) {
        let _ = write!(self, "{err}");
    }
}
impl LinePrinter for Tired {
    fn begin_type(&mut self) {
        let _ = self.turn();
    }
    fn begin_line(&mut self) {
        let _ = self.turn();
    }
    fn print_fmt(&mut self, args: &core::fmt::Arguments) {
        let _ = self.write_fmt(*args);
    }
    fn print_str(&mut self, _: &str) {
        let _ = self.turn();
    }
    fn println_fmt(&mut self, args: &core::fmt::Arguments) {
        let _ = self.write_fmt(*args);
    }
    fn println_str(&mut self, _: &str) {
        let _ = self.turn();
    }
    fn end_type(&mut self) {
        let _ = self.turn();
    }
}

fn give_up(input: &[u8], at: usize) {
    let mut tired = Tired::after(at);
    let _ = catch_unwind(AssertUnwindSafe(|| parse_all(input, &mut tired)));
}

/// every way of decoding, once
fn again(input: &[u8]) {
    let _ = parse_all(input, &mut Tired::after(usize::MAX));
    if let Ok(c) = Certificate::parse(input) {
        let _ = c.tbs_certificate.value.issuer.parse();
        let _ = c.tbs_certificate.value.subject.parse();
        if let Some(e) = &c.tbs_certificate.value.extensions {
            let _ = e.parse();
        }
    }
    let _ = base::name(input).parse();
    let _ = Extension::parse(input);
}

pub fn run(case: &Case, input: &[u8], out: &mut String) {
    let n: Vec<usize> = case.extra.iter().map(|s| s.parse().expect("extra")).collect();
    let mut pool: Vec<&[u8]> = Vec::new();
    let mut rest = input;
    for len in &n[1..=n[0]] {
        let (a, b) = rest.split_at(*len);
        pool.push(a);
        rest = b;
    }
    let place = |i: usize| Place {
        base: pool[i].as_ptr() as usize,
        len: pool[i].len(),
    };
    let mut slots: Vec<Slot> = Vec::new();
    let mut log: Vec<String> = Vec::new();
    for op in n[1 + n[0]..].chunks(3) {
        let (a, b) = (op[1], op[2]);
        let mut s = String::new();
        if (op[0] < 7 || op[0] == 12) && slots.len() <= a {
            slots.resize_with(a + 1, Slot::default);
        }
        match op[0] {
            0 => slots[a].load(pool[b], &mut s),
            1..=5 => {
                let at = slots[a].at();
                match &slots[a].cert {
                    None => {}
                    Some(c) => match op[0] {
                        1 => cert::fields(&mut s, at, c),
                        2 => cert::name_of(&mut s, at, &c.tbs_certificate.value.issuer),
                        3 => cert::name_of(&mut s, at, &c.tbs_certificate.value.subject),
                        4 => cert::extensions_of(&mut s, at, c),
                        _ => print::record(&mut s, c),
                    },
                }
            }
            6 => slots[a].cert = None,
            7 => der::walk(true, pool[b], place(b), &mut s, &mut || {}),
            8 => cert::name_of(&mut s, place(b), &base::name(pool[b])),
            11 => give_up(pool[b], a),
            12 => {
                if let Some(c) = &slots[a].cert {
                    let mut tired = Tired::after(b);
                    let _ = catch_unwind(AssertUnwindSafe(|| c.print(&mut tired)));
                }
            }
            13 => {
                for _ in 0..[40, 66000][a] {
                    again(pool[b]);
                }
                der::walk(true, pool[b], place(b), &mut s, &mut || {});
            }
            9 => cert::extension_of(&mut s, place(b), &Extension::parse(pool[b]).map(|e| vec![e])),
            _ => {
                // b is decoded inside callbacks of the decode of a: the first ones and some later
                let mut inner = BTreeSet::new();
                let mut turn = 0;
                der::walk(true, pool[a], place(a), &mut s, &mut || {
                    turn += 1;
                    if turn > 6 && (turn % 16 != 0 || turn > 200) {
                        return;
                    }
                    let mut t = String::new();
                    der::walk(true, pool[b], place(b), &mut t, &mut || {});
                    inner.insert(t);
                });
                log.push(note(case.texts, s));
                log.push(format!(
                    "[{}]",
                    inner.into_iter().map(|t| note(case.texts, t)).collect::<Vec<_>>().join(",")
                ));
                continue;
            }
        }
        log.push(note(case.texts, s));
        log.push("[]".to_string());
    }
    out.push_str("{\"p\":0,\"log\":[");
    out.push_str(&log.join(","));
    out.push_str("]}");
}
