//! The memory of a call, counted by the allocator.  Every input is decoded twice: what is made
//! once and kept is not there the second time.
//!   extra[0]  0 generic decode, with what was held at most before every callback
//!             1 certificate  2 extension  3 name  4 list of extensions
//!             5 generic decode, only as a whole
//! The record: h before every callback and the return, peak of the call, held while its result
//! was there, left after the result was dropped, kept by all first calls so far.

use crate::json;
use crate::Case;
use rx509::der::*;
use rx509::x509::ext::Extension;
use rx509::x509::Certificate;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static COUNTING: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static HIGH: Cell<i64> = const { Cell::new(0) };
    static KEPT: Cell<i64> = const { Cell::new(0) };
}

pub struct Counted;

fn note(change: i64) {
    let _ = COUNTING.try_with(|c| {
        if c.get() {
            LIVE.with(|l| {
                l.set(l.get() + change);
                HIGH.with(|h| h.set(h.get().max(l.get())));
            });
        }
    });
}

unsafe impl GlobalAlloc for Counted {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        note(layout.size() as i64);
        System.alloc(layout)
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        note(layout.size() as i64);
        System.alloc_zeroed(layout)
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        note(-(layout.size() as i64));
        System.dealloc(p, layout)
    }
    unsafe fn realloc(&self, p: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        note(size as i64 - layout.size() as i64);
        System.realloc(p, layout, size)
    }
}

/// Counts as long as it lives, or does not count.
struct Scope(bool);
impl Scope {
    fn new(counting: bool) -> Scope {
        Scope(COUNTING.with(|c| c.replace(counting)))
    }
}
impl Drop for Scope {
    fn drop(&mut self) {
        COUNTING.with(|c| c.set(self.0));
    }
}

/// What was held at most since the last time this was asked.
fn high() -> i64 {
    LIVE.with(|l| HIGH.with(|h| h.replace(l.get())))
}

struct Steps<'a> {
    highs: &'a mut Vec<i64>,
    each: bool,
    limit: usize,
}

impl<'a> Steps<'a> {
    fn step(&mut self) {
        let _still = Scope::new(false);
        if self.each {
            assert!(self.highs.len() < self.limit, "callbacks without end");
            self.highs.push(high());
        }
    }
}

impl<'a> ParseHandler for Steps<'a> {
    fn begin_constructed(&mut self) {
        self.step();
    }
    fn end_constructed(&mut self) {
        self.step();
    }
    fn on_type(&mut self, _: &ASNType) {
        self.step();
    }
    fn on_error(&mut self, _: &ASNError) {
        self.step();
    }
}

#[derive(Default)]
struct Account {
    highs: Vec<i64>,
    peak: i64,
    held: i64,
    left: i64,
}

fn held<T>(account: &mut Account, call: impl FnOnce() -> T) {
    LIVE.with(|l| l.set(0));
    high();
    {
        let _counting = Scope::new(true);
        let result = call();
        account.held = LIVE.with(|l| l.get());
        drop(result);
    }
    account.peak = high();
    account.left = LIVE.with(|l| l.get());
}

fn once(call: u32, input: &[u8]) -> Account {
    let mut a = Account::default();
    match call {
        0 | 5 => {
            let mut highs = Vec::new();
            let limit = 4 * input.len() + 64;
            let each = call == 0;
            held(&mut a, || {
                let mut steps = Steps {
                    highs: &mut highs,
                    each,
                    limit,
                };
                let result = parse_all(input, &mut steps);
                steps.step();
                result
            });
            if each {
                a.peak = highs.iter().copied().fold(a.peak, i64::max);
            }
            a.highs = highs;
        }
        1 => held(&mut a, || Certificate::parse(input)),
        2 => held(&mut a, || Extension::parse(input)),
        3 => {
            let name = crate::base::name(input);
            held(&mut a, || name.parse().map(|_| ()));
        }
        4 => {
            if let Ok(c) = Certificate::parse(input) {
                if let Some(e) = &c.tbs_certificate.value.extensions {
                    held(&mut a, || e.parse());
                }
            }
        }
        other => panic!("unknown call {other}"),
    }
    a
}

pub fn run(case: &Case, input: &[u8], out: &mut String) {
    let call = case.extra[0].parse().expect("extra");
    let first = once(call, input);
    let kept = KEPT.with(|k| {
        k.set(k.get() + first.left);
        k.get()
    });
    let second = once(call, input);
    out.push_str("{\"p\":0,\"h\":");
    json::list(out, second.highs.iter(), |o, v| json::int(o, *v));
    for (name, v) in [
        ("peak", second.peak),
        ("held", second.held),
        ("left", second.left),
        ("kept", kept),
    ] {
        out.push_str(&format!(",\"{name}\":"));
        json::int(out, v);
    }
    out.push('}');
}
