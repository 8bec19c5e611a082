//! Which parts of a triple a predicate is decided by (C27).
use crate::{lexicon::{at, values::*}, targets::{leak, word}, *};
use cfg_expr::{TargetPredicate as TP, expr::TargetMatcher, targets as t};
use target_lexicon as lex;

fn custom(s: &'static str) -> lex::Vendor {
    lex::Vendor::Custom(lex::CustomVendor::Static(s))
}
/// a vendor that does not decide the os; how = bytes of a custom one, 97 a listed one, 98 unknown
fn vendor(how: usize) -> lex::Vendor {
    match how {
        98 => lex::Vendor::Unknown,
        97 => {
            let v = VENDORS[choice(VENDORS.len())].clone();
            assume(v != custom("nuttx") && v != custom("rtems"));
            v
        }
        n => {
            let w = word(n);
            assume(w != "nuttx" && w != "rtems");
            custom(leak(w))
        }
    }
}
/// params: 1 = kind, 2 = length of the value, 3 = vendor of the second triple, 4 = vendor of the first: 0 any, 1 nuttx, 2 rtems
pub fn separate() {
    let (kind, n) = (param(1), param(2) as usize);
    let mut x = lex::Triple::unknown();
    x.architecture = at(ARCHS);
    x.operating_system = at(OSES);
    x.environment = at(ENVS);
    x.binary_format = at(FORMATS);
    let special = param(4);
    x.vendor = match special {
        1 => custom("nuttx"),
        2 => custom("rtems"),
        _ => lex::Vendor::Unknown,
    };
    // everything the predicate should not look at is made anew
    let mut y = x.clone();
    y.binary_format = at(FORMATS);
    if matches!(kind, 0 | 3 | 5 | 6) {
        y.operating_system = at(OSES);
        y.environment = if kind == 6 { x.environment } else { at(ENVS) };
    }
    if matches!(kind, 1..=4) {
        let i = byte() as usize;
        assume(i < ARCHS.len());
        y.architecture = ARCHS[i];
        use lex::Architecture as A;
        match kind {
            2 => assume((x.architecture == A::Avr) == (y.architecture == A::Avr)),
            4 => {
                let web = |a| matches!(a, A::Asmjs | A::Wasm32 | A::Wasm64);
                assume(web(x.architecture) == web(y.architecture));
            }
            _ => (),
        }
    }
    if kind == 3 {
        x.vendor = vendor(param(3) as usize);
        y.vendor = x.vendor.clone();
    } else if special == 0 || matches!(kind, 0 | 5 | 6) {
        y.vendor = vendor(param(3) as usize);
    }
    observe(1);
    let ask = |p: TP| {
        let (a, b) = (x.matches(&p), y.matches(&p));
        observe(a as u64 | (b as u64) << 1);
        chk(27, 1, a == b);
        cover(if a { 1 } else { 2 });
    };
    match kind {
        0 => ask(TP::Arch(t::Arch::new(word(n)))),
        1 => ask(TP::Os(t::Os::new(word(n)))),
        2 => ask(TP::Env(t::Env::new(word(n)))),
        3 => ask(TP::Vendor(t::Vendor::new(word(n)))),
        4 => ask(TP::Family(t::Family::new(word(n)))),
        5 => {
            ask(TP::Endian(t::Endian::big));
            ask(TP::Endian(t::Endian::little));
        }
        _ => ask(TP::PointerWidth(byte())),
    }
}
