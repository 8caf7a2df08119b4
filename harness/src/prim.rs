//! Values constructed through the public constructors instead of being decoded.
//!   extra[0] = 1  integer from the input octets
//!   extra[0] = 2  object identifier from extra[1..]
//!   extra[0] = 3  bit string of the input octets with extra[1] unused bits
//!   extra[0] = 4  identifier octet
//!   extra[0] = 5  the present instant, between two readings of the clock

use crate::json;
use crate::Case;
use rx509::der::*;

pub fn run(case: &Case, input: &[u8], out: &mut String) {
    let arg = |i: usize| case.extra[i].parse::<u32>().expect("extra");
    out.push_str("{\"p\":0,\"v\":");
    match arg(0) {
        1 => {
            let i = ASNInteger::new(input);
            crate::der::int_view(out, &i);
            out.push_str(",\"s\":");
            json::bytes(out, i.to_string().as_bytes());
        }
        2 => {
            let values: Vec<u32> = (1..case.extra.len()).map(arg).collect();
            let oid = ASNObjectIdentifier::new(values);
            crate::der::arcs(out, &oid);
            out.push_str(",\"s\":");
            json::bytes(out, oid.to_string().as_bytes());
        }
        3 => {
            let b = ASNBitString::new(arg(1) as u8, input);
            crate::der::bit_view(out, &b);
            out.push_str(",\"s\":[]");
        }
        4 => {
            let id = Identifier::from(input[0]);
            let class = match id.class {
                TagClass::Universal => 0,
                TagClass::Application => 1,
                TagClass::ContextSpecific => 2,
                TagClass::Private => 3,
                #[allow(unreachable_patterns)]
                _ => 4,
            };
            let pc = match id.pc {
                PC::Primitive => 0,
                PC::Constructed => 1,
                #[allow(unreachable_patterns)]
                _ => 2,
            };
            out.push_str(&format!("[{},{},{}],\"s\":[]", class, pc, id.tag));
        }
        5 => {
            let clock = || {
                let t = std::time::SystemTime::now();
                t.duration_since(std::time::UNIX_EPOCH).expect("clock").as_secs()
            };
            // in the given eighth of a second
            let eighth = arg(1);
            let t = std::time::SystemTime::now();
            let into = t.duration_since(std::time::UNIX_EPOCH).expect("clock").subsec_millis();
            let wait = (eighth * 125 + 30 + 1000 - into) % 1000;
            std::thread::sleep(std::time::Duration::from_millis(wait as u64));
            let before = clock();
            let now = UtcTime::now();
            let after = clock();
            let times = match now {
                Ok(t) => vec![before, t.value, after],
                Err(_) => vec![],
            };
            json::list(out, times.iter(), |o, t| json::time(o, *t));
            out.push_str(",\"s\":[]");
        }
        _ => panic!("unknown primitive"),
    }
    out.push('}');
}
