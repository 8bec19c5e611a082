//! Matching parsed target-lexicon triples.
use crate::{spec::eq, targets::{leak, rustc, word}, *};
use cfg_expr::{TargetPredicate as TP, expr::TargetMatcher, targets as t};
use target_lexicon as lex;

#[path = "../gen/lexicon.rs"]
pub mod values;
use values::*;

/// w is one of the words
pub fn among(w: &str, words: &[&str]) -> bool {
    let mut r = false;
    for x in words {
        r |= eq(w.as_bytes(), x.as_bytes());
    }
    r
}
/// params: 1 = kind, 2 = length of the value
pub fn agree() {
    let all = t::ALL_BUILTINS;
    let b = &all[choice(all.len())];
    let Ok(l) = b.triple.as_str().parse::<lex::Triple>() else {
        cover(9);
        return;
    };
    observe(1);
    let one = |p: TP, vocab: bool, except: bool| {
        let x = b.matches(&p);
        let y = l.matches(&p);
        let z = p.matches(&l);
        observe(x as u64 | (y as u64) << 1);
        chk(15, 1, !x || y || except);
        chk(15, 2, x || !vocab || !y || except);
        chk(15, 3, y == z);
        cover(if x { 1 } else { 2 });
    };
    let n = param(2) as usize;
    // values rustc uses, and what this description has (a value of a newer rustc is neither)
    let value = |words: &[&str], own: Option<&str>| {
        let w = word(n);
        let v = among(&w, words);
        let o = match own {
            Some(o) => eq(w.as_bytes(), o.as_bytes()),
            None => false,
        };
        assume(v | o);
        (w, v)
    };
    match param(1) {
        0 => {
            let (w, v) = value(rustc::ARCH, Some(b.arch.as_str()));
            one(TP::Arch(t::Arch::new(w)), v, false)
        }
        1 => {
            let (w, v) = value(rustc::OS, b.os.as_ref().map(|x| x.as_str()));
            one(TP::Os(t::Os::new(w)), v, false)
        }
        2 => {
            let (w, v) = value(rustc::ENV, b.env.as_ref().map(|x| x.as_str()));
            one(TP::Env(t::Env::new(w)), v, false)
        }
        3 => {
            let (w, v) = value(rustc::VENDOR, b.vendor.as_ref().map(|x| x.as_str()));
            let e = b.triple.as_str() == "mips64-openwrt-linux-musl";
            one(TP::Vendor(t::Vendor::new(w)), v, e)
        }
        4 => {
            let (w, v) = value(rustc::FAMILY, None);
            one(TP::Family(t::Family::new(w)), v, false)
        }
        5 => {
            one(TP::Endian(t::Endian::big), true, false);
            one(TP::Endian(t::Endian::little), true, false);
        }
        _ => {
            let w = byte();
            let v = (w == 16) | (w == 32) | (w == 64);
            one(TP::PointerWidth(w), v, false)
        }
    }
}

pub fn at<T: Copy>(l: &[T]) -> T {
    let i = byte() as usize;
    assume(i < l.len());
    l[i]
}
/// any triple: each field any value of the type; params 3, 4 = how the custom vendor and the rest are made
fn any_triple() -> lex::Triple {
    let mut x = lex::Triple::unknown();
    x.architecture = at(ARCHS);
    x.operating_system = at(OSES);
    x.environment = at(ENVS);
    x.binary_format = at(FORMATS);
    let n = param(3) as usize;
    x.vendor = if n < 90 {
        lex::Vendor::Custom(lex::CustomVendor::Static(leak(word(n))))
    } else if n == 99 {
        VENDORS[choice(VENDORS.len())].clone()
    } else {
        lex::Vendor::Unknown
    };
    x
}
/// params: 1 = kind, 2 = length of the value, 3 = bytes of a custom vendor (99: each listed vendor, 98: unknown)
pub fn total() {
    let x = any_triple();
    let n = param(2) as usize;
    observe(1);
    let ask = |p: TP| {
        let a = x.matches(&p);
        chk(16, 1, a == p.matches(&x));
        observe(a as u64);
        a
    };
    match param(1) {
        0 => {
            ask(TP::Arch(t::Arch::new(word(n))));
        }
        1 => {
            ask(TP::Os(t::Os::new(word(n))));
        }
        2 => {
            ask(TP::Env(t::Env::new(word(n))));
        }
        3 => {
            ask(TP::Vendor(t::Vendor::new(word(n))));
        }
        4 => {
            ask(TP::Family(t::Family::new(word(n))));
        }
        5 => {
            let a = ask(TP::Abi(t::Abi::new(word(n))));
            chk(16, 2, !a);
        }
        6 => {
            let a = ask(TP::Panic(t::Panic::new(word(n))));
            chk(16, 3, !a);
        }
        7 => {
            let a = ask(TP::HasAtomic(t::HasAtomic::Pointer));
            let b = ask(TP::HasAtomic(t::HasAtomic::IntegerSize(byte() as u16 | (byte() as u16) << 8)));
            chk(16, 4, !a & !b);
        }
        8 => {
            let a = ask(TP::Endian(t::Endian::big));
            let b = ask(TP::Endian(t::Endian::little));
            chk(16, 5, !(a & b));
        }
        9 => {
            let (v, w) = (byte(), byte());
            let a = ask(TP::PointerWidth(v));
            let b = ask(TP::PointerWidth(w));
            chk(16, 6, !(a & b) | (v == w));
        }
        11 | 14 => {
            // two different values rustc uses for one kind
            let (words, mk): (&[&str], fn(&'static str) -> TP) = match param(1) {
                11 => (rustc::ARCH, |s| TP::Arch(t::Arch::new(s))),
                _ => (rustc::VENDOR, |s| TP::Vendor(t::Vendor::new(s))),
            };
            let i = choice(words.len());
            let a = ask(mk(words[i]));
            if a {
                for (j, w) in words.iter().enumerate() {
                    if j != i {
                        let b = x.matches(&mk(w));
                        chk(16, 8, !b);
                    }
                }
            }
        }
        _ => {
            let a = ask(TP::Family(t::Family::unix));
            let b = ask(TP::Family(t::Family::windows));
            chk(16, 7, !(a & b));
            if a { cover(2) }
            if b { cover(3) }
        }
    }
    cover(1);
}

// ------------------------------------------------------------------ C23
/// a vendor that is nearly one that has a meaning, asked for every such one
fn near_vendor() {
    let mut names: Vec<String> = ["esp", "esp32", "esp32s2", "esp32s3", "nuttx", "rtems"].iter().chain(rustc::VENDOR).map(|s| s.to_string()).collect();
    names.extend(VENDORS.iter().map(|v| v.to_string()));
    let mut text = names[choice(names.len())].clone().into_bytes();
    let at = choice(text.len() + 1);
    match choice(4) {
        // one letter in front, amid or behind
        0 => text.insert(at, byte()),
        1 if at < text.len() => text[at] = byte(),
        2 if at < text.len() => {
            text.remove(at);
        }
        // cut, or as it is
        _ => text.truncate(at),
    }
    let Ok(text) = String::from_utf8(text) else { return };
    let Ok(v) = text.parse::<lex::Vendor>() else { return };
    let b = &t::ALL_BUILTINS[choice(8) * 36 % t::ALL_BUILTINS.len()];
    let Ok(mut y) = b.triple.as_str().parse::<lex::Triple>() else { return };
    y.vendor = v;
    let s = text.as_str();
    if among(s, &["nuttx", "rtems"]) {
        return;
    }
    let esp = among(s, &["esp", "esp32", "esp32s2", "esp32s3"]);
    observe(esp as u64);
    for w in &names {
        let own = eq(w.as_bytes(), s.as_bytes()) | (esp & eq(w.as_bytes(), b"espressif"));
        let got = y.matches(&TP::Vendor(t::Vendor::new(w.clone())));
        chk(23, 2, got == own);
        if got { cover(5) }
    }
    cover(2);
}
/// a built-in triple with another vendor or an Apple version
/// params: 1 = kind, 2 = length of the value, 3 = length of the new vendor (99: a version, 98: unknown, 97: each known vendor)
pub fn variant() {
    if param(1) == 7 {
        return near_vendor();
    }
    let all = t::ALL_BUILTINS;
    // the vendor predicate on some targets only, with more vendors
    let vendor = param(1) == 3 && param(3) != 99;
    let i = if vendor { choice(8) * 36 } else { choice(all.len()) };
    let b = &all[i % all.len()];
    let Ok(x) = b.triple.as_str().parse::<lex::Triple>() else { return };
    let own = |v: &lex::Vendor, names: &[&str]| match v {
        lex::Vendor::Custom(c) => among(c.as_str(), names),
        _ => false,
    };
    // the vendor decides the os of these
    if own(&x.vendor, &["nuttx", "rtems"]) {
        return;
    }
    let mut y = x.clone();
    let n = param(2) as usize;
    let mut esp = false;
    let mut text = String::new();
    if param(3) == 99 {
        let v = Some(lex::DeploymentTarget { major: byte() as u16 | (byte() as u16) << 8, minor: byte(), patch: byte() });
        use lex::OperatingSystem as O;
        y.operating_system = match x.operating_system {
            O::Darwin(_) => O::Darwin(v),
            O::IOS(_) => O::IOS(v),
            O::TvOS(_) => O::TvOS(v),
            O::VisionOS(_) => O::VisionOS(v),
            O::WatchOS(_) => O::WatchOS(v),
            _ => return,
        };
        cover(1);
    } else {
        y.vendor = if param(3) == 98 {
            text.push_str("unknown");
            lex::Vendor::Unknown
        } else if param(3) == 97 {
            let k = if vendor { choice(VENDORS.len()) } else { i * 7 + choice(2) };
            let v = VENDORS[k % VENDORS.len()].clone();
            text = v.to_string();
            v
        } else {
            text = word(param(3) as usize);
            // only what can stand in the text of a triple
            if vendor {
                let Ok(v) = text.parse::<lex::Vendor>() else { return };
                v
            } else {
                // and anything else: it does not matter here
                lex::Vendor::Custom(lex::CustomVendor::Static(leak(text.clone())))
            }
        };
        if own(&y.vendor, &["nuttx", "rtems"]) {
            return;
        }
        esp = own(&y.vendor, &["esp", "esp32", "esp32s2", "esp32s3"]);
        cover(2);
    }
    observe(1);
    let ask = |p: TP| {
        let (a, b) = (x.matches(&p), y.matches(&p));
        observe(a as u64 | (b as u64) << 1);
        chk(23, 1, a == b);
        cover(if a { 3 } else { 4 });
    };
    match param(1) {
        0 => ask(TP::Arch(t::Arch::new(word(n)))),
        1 => {
            let w = word(n);
            // long names with versions are left out
            for v in ["darwin", "ios", "macosx", "tvos", "visionos", "watchos", "xros"] {
                if n > v.len().max(5) {
                    assume(!eq(&w.as_bytes()[..v.len()], v.as_bytes()));
                }
            }
            ask(TP::Os(t::Os::new(w)))
        }
        2 => ask(TP::Env(t::Env::new(word(n)))),
        3 => {
            let w = word(n);
            if param(3) == 99 {
                return ask(TP::Vendor(t::Vendor::new(w)));
            }
            // it is the vendor that is written
            let own = eq(w.as_bytes(), text.as_bytes()) | (esp & eq(w.as_bytes(), b"espressif"));
            let got = y.matches(&TP::Vendor(t::Vendor::new(w)));
            observe(got as u64);
            chk(23, 2, got == own);
            cover(if got { 5 } else { 6 });
        }
        4 => ask(TP::Family(t::Family::new(word(n)))),
        5 => {
            ask(TP::Endian(t::Endian::big));
            ask(TP::Endian(t::Endian::little));
        }
        _ => ask(TP::PointerWidth(byte())),
    }
}
