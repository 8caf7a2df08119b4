//! Clients of the console's line printer.  What they print goes to standard output, between
//! marker lines: a line starting with a zero octet and the identifier of the case, one starting
//! with "!" if the case panicked.
//!   extra: blocks open before with each of two printers, then pairs of operation and text (see Console.tla)

use crate::Case;
use rx509::x509::printer::{ConsoleLinePrinter, LinePrinter};
use std::panic::{catch_unwind, AssertUnwindSafe};

const TEXTS: [&str; 6] = ["", "", "a b", "\u{e9} ", "x\ny", "{}"];

pub fn run(case: &Case, turn: usize) {
    let n: Vec<usize> = case.extra.iter().map(|s| s.parse().expect("extra")).collect();
    print!("\n\0{}\n", case.id);
    let result = catch_unwind(AssertUnwindSafe(|| {
        let mut printers = [ConsoleLinePrinter::new(), ConsoleLinePrinter::default()];
        let mut at = turn % 2;
        for k in 0..2 {
            for _ in 0..n[k] {
                printers[at ^ k].begin_type();
            }
        }
        for call in n[2..].chunks(2) {
            let text = TEXTS[call[1]];
            let p: &mut dyn LinePrinter = &mut printers[at];
            match call[0] {
                0 => p.begin_type(),
                1 => p.end_type(),
                2 => p.begin_line(),
                3 => p.print_str(text),
                4 => p.print_fmt(&format_args!("{}", text)),
                7 => at = 1 - at,
                5 => p.println_fmt(&format_args!("{}", text)),
                _ => p.println_str(text),
            }
        }
    }));
    if result.is_err() {
        print!("\n\0!\n");
    }
}
