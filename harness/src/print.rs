//! A LinePrinter recording rendered lines: [indentation, text].

use crate::json;
use rx509::x509::printer::{LinePrinter, Printable};

#[derive(Default)]
pub struct Lines {
    depth: i64,
    lowest: i64,
    indent: i64,
    text: Vec<u8>,
    lines: Vec<(i64, Vec<u8>)>,
}

impl Lines {
    fn put(&mut self, s: &str) {
        for b in s.bytes() {
            if b == b'\n' {
                self.newline();
            } else {
                self.text.push(b);
            }
        }
    }
    fn newline(&mut self) {
        let text = std::mem::take(&mut self.text);
        self.lines.push((self.indent, text));
        self.indent = 0;
    }
}

impl LinePrinter for Lines {
    fn begin_type(&mut self) {
        self.depth += 1;
    }
    fn begin_line(&mut self) {
        if self.text.is_empty() {
            self.indent += self.depth;
        } else {
            for _ in 0..self.depth {
                self.put("  ");
            }
        }
    }
    fn print_fmt(&mut self, fmt: &core::fmt::Arguments) {
        self.put(&fmt.to_string());
    }
    fn print_str(&mut self, s: &str) {
        self.put(s);
    }
    fn println_fmt(&mut self, fmt: &core::fmt::Arguments) {
        self.put(&fmt.to_string());
        self.newline();
    }
    fn println_str(&mut self, line: &str) {
        self.put(line);
        self.newline();
    }
    fn end_type(&mut self) {
        self.depth -= 1;
        self.lowest = self.lowest.min(self.depth);
    }
}

/// {"depth": left open, "low": lowest depth, "rest": text without line end, "l": lines}
pub fn record(out: &mut String, what: &dyn Printable) {
    record_within(out, 0, what)
}

/// the same, with blocks of the client around it, which the depths recorded do not count
pub fn record_within(out: &mut String, blocks: i64, what: &dyn Printable) {
    let mut p = Lines {
        depth: blocks,
        lowest: blocks,
        ..Default::default()
    };
    what.print(&mut p);
    p.depth -= blocks;
    p.lowest -= blocks;
    out.push_str(&format!(
        "{{\"depth\":{},\"low\":{},\"rest\":{},\"l\":",
        p.depth,
        p.lowest,
        p.text.len()
    ));
    json::list(out, p.lines.iter(), |o, (indent, text)| {
        o.push_str(&format!("[{},", indent));
        json::bytes(o, text);
        o.push(']');
    });
    out.push('}');
}
