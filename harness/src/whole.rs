//! Equality and order of descriptions, predicates and errors (C24); a whole
//! expression evaluated on the built-in targets (C25).
use crate::{spec::eq, targets::{rustc, word, Fact}, *};
use cfg_expr::{expr::{lexer::Token, Predicate as P, TargetPredicate as TP}, error::{ParseError, Reason}, targets::*, Expression};
use std::{cmp::Ordering, hash::{Hash, Hasher}};

// ------------------------------------------------------------------ C24
/// a hash that says something about every byte it is given
struct Fold(u64);
impl Hasher for Fold {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.0 = self.0.rotate_left(8) ^ *c as u64;
        }
        self.0 = self.0.rotate_left(1) ^ b.len() as u64;
    }
}
fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = Fold(0);
    t.hash(&mut h);
    h.0
}
fn opt(n: usize) -> Option<String> {
    if choice(2) == 0 { None } else { Some(word(n)) }
}
/// gives field `k` of a description a value that is not determined
fn vary(t: &mut TargetInfo, k: usize, n: usize) {
    match k {
        0 => t.triple = Triple::new(word(n)),
        1 => t.os = opt(n).map(Os::new),
        2 => t.abi = opt(n).map(Abi::new),
        3 => t.arch = Arch::new(word(n)),
        4 => t.env = opt(n).map(Env::new),
        5 => t.vendor = opt(n).map(Vendor::new),
        6 => t.families = Families::new((0..choice(2)).map(|_| Family::new(word(n)))),
        7 => t.pointer_width = byte(),
        8 => t.endian = [Endian::big, Endian::little][choice(2)],
        9 => {
            t.has_atomics = HasAtomics::new((0..choice(3)).map(|i| if i == 1 { HasAtomic::Pointer } else { HasAtomic::IntegerSize(byte() as u16 | (byte() as u16) << 8) }))
        }
        _ => t.panic = Panic::new(word(n)),
    }
}
/// every part is the same
fn parts(a: &TargetInfo, b: &TargetInfo) -> bool {
    fn o<T: AsRef<str>>(a: &Option<T>, b: &Option<T>) -> bool {
        match (a, b) {
            (None, None) => true,
            (Some(a), Some(b)) => eq(a.as_ref().as_bytes(), b.as_ref().as_bytes()),
            _ => false,
        }
    }
    let s = |a: &str, b: &str| eq(a.as_bytes(), b.as_bytes());
    let mut r = s(a.triple.as_str(), b.triple.as_str()) & s(a.arch.as_str(), b.arch.as_str()) & s(a.panic.as_str(), b.panic.as_str());
    r &= o(&a.os, &b.os) & o(&a.abi, &b.abi) & o(&a.env, &b.env) & o(&a.vendor, &b.vendor);
    r &= (a.pointer_width == b.pointer_width) & (matches!(a.endian, Endian::big) == matches!(b.endian, Endian::big));
    r &= a.families.len() == b.families.len() && a.families.iter().zip(b.families.iter()).all(|(x, y)| s(x.as_str(), y.as_str()));
    r &= a.has_atomics.len() == b.has_atomics.len()
        && a.has_atomics.iter().zip(b.has_atomics.iter()).all(|(x, y)| match (x, y) {
            (HasAtomic::Pointer, HasAtomic::Pointer) => true,
            (HasAtomic::IntegerSize(x), HasAtomic::IntegerSize(y)) => x == y,
            _ => false,
        });
    r
}
/// params: 1, 2 = the fields that are not determined, 3 = length of texts, 4 = descriptions compared (2 or 3)
pub fn descriptions() {
    let (j, k, n) = (param(1) as usize, param(2) as usize, param(3) as usize);
    let base = get_builtin_target_by_triple("wasm32-unknown-emscripten").unwrap();
    let mut l: Vec<TargetInfo> = (0..param(4)).map(|_| base.clone()).collect();
    for t in &mut l {
        vary(t, j, n);
        if k != j {
            vary(t, k, n);
        }
    }
    let (a, b) = (&l[0], &l[1]);
    let same = parts(a, b);
    let c = a.cmp(b);
    observe(c as u64 & 3);
    chk(24, 1, (a == b) == same);
    chk(24, 2, (a != b) != same);
    chk(24, 3, (c == Ordering::Equal) == same);
    chk(24, 4, b.cmp(a) == c.reverse());
    chk(24, 5, a.partial_cmp(b) == Some(c));
    if same {
        cover(1);
        chk(24, 6, hash(a) == hash(b));
        chk(24, 7, a.clone() == *b);
    } else {
        cover(2);
    }
    if let Some(d) = l.get(2) {
        let (x, y) = (b.cmp(d), a.cmp(d));
        if c != Ordering::Greater && x != Ordering::Greater {
            cover(3);
            chk(24, 8, y != Ordering::Greater);
            chk(24, 9, (y == Ordering::Equal) == (c == Ordering::Equal && x == Ordering::Equal));
        }
    }
}
fn target(k: usize, s: &str, n: u16) -> TP {
    let s = s.to_owned();
    match k {
        0 => TP::Abi(Abi::new(s)),
        1 => TP::Arch(Arch::new(s)),
        2 => TP::Env(Env::new(s)),
        3 => TP::Family(Family::new(s)),
        4 => TP::Os(Os::new(s)),
        5 => TP::Panic(Panic::new(s)),
        6 => TP::Vendor(Vendor::new(s)),
        7 => TP::Endian(if n & 1 == 0 { Endian::big } else { Endian::little }),
        8 => TP::PointerWidth(n as u8),
        9 => TP::HasAtomic(HasAtomic::Pointer),
        _ => TP::HasAtomic(HasAtomic::IntegerSize(n)),
    }
}
/// what kinds 7 to 10 keep of the number
fn kept(k: usize, n: u16) -> u16 {
    match k {
        7 => n & 1,
        8 => n & 255,
        9 => 0,
        _ => n,
    }
}
fn predicate<'a>(k: usize, s: &'a str, t: &'a str, n: u16) -> P<'a> {
    match k {
        11 => P::Test,
        12 => P::DebugAssertions,
        13 => P::ProcMacro,
        14 => P::Feature(s),
        15 => P::TargetFeature(s),
        16 => P::Flag(s),
        17 => P::KeyValue { key: s, val: t },
        _ => P::Target(target(k, s, n)),
    }
}
pub fn reason(k: usize, n: usize) -> Reason {
    match k {
        0 => Reason::InvalidCharacters,
        1 => Reason::UnclosedParens,
        2 => Reason::UnopenedParens,
        3 => Reason::UnclosedQuotes,
        4 => Reason::UnopenedQuotes,
        5 => Reason::Empty,
        6 => Reason::InvalidInteger,
        7 => Reason::MultipleRootPredicates,
        8 => Reason::InvalidHasAtomic,
        9 => Reason::UnknownBuiltin,
        _ => Reason::InvalidNot(n),
    }
}
fn token<'a>(k: usize, s: &'a str) -> Token<'a> {
    match k {
        0 => Token::Equals,
        1 => Token::All,
        2 => Token::Any,
        3 => Token::Not,
        4 => Token::OpenParen,
        5 => Token::CloseParen,
        6 => Token::Comma,
        7 => Token::Key(s),
        _ => Token::Value(s),
    }
}
/// params: 1 = 0 predicates, 1 errors, 2 tokens; 2, 3 = lengths of the texts
pub fn parts_of() {
    let (n, m) = (param(2) as usize, param(3) as usize);
    let (s, t) = (word(n), word(m));
    let same_text = eq(s.as_bytes(), t.as_bytes());
    let (same, got, again) = match param(1) {
        0 => {
            let (j, k) = (choice(18), choice(18));
            // the other text of a key and value
            let (u, v) = (word(1), word(1));
            let two = || byte() as u16 | (byte() as u16) << 8;
            let (x, y) = (two(), two());
            let (a, b) = (predicate(j, &s, &u, x), predicate(k, &t, &v, y));
            let same = j == k && match j {
                0..=6 | 14..=16 => same_text,
                7..=10 => kept(j, x) == kept(j, y),
                17 => same_text & eq(u.as_bytes(), v.as_bytes()),
                _ => true,
            };
            if j < 11 && k < 11 {
                let (x, y) = (target(j, &s, x), target(k, &t, y));
                chk(24, 11, (x == y) == same);
                chk(24, 12, x.clone() == x);
            }
            (same, a == b, a != b)
        }
        1 => {
            let (j, k) = (choice(11), choice(11));
            let (x, y, z, w) = (byte() as usize, byte() as usize, byte() as usize, byte() as usize);
            let (p, q) = (byte() as usize, byte() as usize);
            let a = ParseError { original: s.clone(), span: x..y, reason: reason(j, p) };
            let b = ParseError { original: t.clone(), span: z..w, reason: reason(k, q) };
            let same_reason = j == k && (j != 10 || p == q);
            chk(24, 13, (a.reason == b.reason) == same_reason);
            (same_text & (x == z) & (y == w) & same_reason, a == b, a != b)
        }
        _ => {
            let (j, k) = (choice(9), choice(9));
            let (a, b) = (token(j, &s), token(k, &t));
            (j == k && (j < 7 || same_text), a == b, a != b || a.clone() != a)
        }
    };
    observe(got as u64);
    chk(24, 14, got == same);
    chk(24, 15, again != same);
    cover(if same { 4 } else { 5 });
}

// ------------------------------------------------------------------ C25
const KEYS: [&str; 10] = [
    "target_os", "target_env", "target_abi", "target_vendor", "target_arch", "panic", "target_family", "target_pointer_width",
    "target_endian", "target_has_atomic",
];
/// what rustc answers, if it is known
fn answer(f: &Fact, k: usize, v: &str) -> Option<bool> {
    let is = |x: Option<&str>| x.map(|x| eq(x.as_bytes(), v.as_bytes()));
    let number = || v.bytes().fold(0u64, |n, c| n.wrapping_mul(10).wrapping_add(c.wrapping_sub(b'0') as u64 & 255));
    match k {
        0 => is(f.os),
        1 => is(f.env),
        2 => is(f.abi),
        3 => is(f.vendor),
        4 => is(f.arch),
        5 => is(f.panic),
        6 => {
            let mut r = false;
            for x in f.families {
                r |= eq(x.as_bytes(), v.as_bytes());
            }
            Some(r)
        }
        7 => Some(number() == f.width as u64),
        8 => Some(eq(v.as_bytes(), if f.big { b"big" } else { b"little" })),
        9 => {
            let (ints, ptr) = f.atomics?;
            if eq(v.as_bytes(), b"ptr") {
                return Some(ptr);
            }
            let n = number();
            let mut r = false;
            for x in ints {
                r |= *x as u64 == n;
            }
            Some(r)
        }
        10 => answer(f, 6, "unix"),
        _ => answer(f, 6, "windows"),
    }
}
/// a value the grammar takes for this key
fn value(k: usize, n: usize) -> String {
    match k {
        8 => return ["big", "little"][choice(2)].to_owned(),
        7 | 9 => {
            if k == 9 && n == 0 {
                return "ptr".to_owned();
            }
            let mut v = vec![0u8; n];
            bytes(&mut v);
            for c in &v {
                assume((*c >= b'0') & (*c <= b'9'));
            }
            return unsafe { String::from_utf8_unchecked(v) };
        }
        _ => {}
    }
    let w = word(n);
    for c in w.bytes() {
        assume(c != b'"');
    }
    w
}
/// params: 1 = key, 2 = length of its value, 3 = shape, 4, 5 = another key and the length of its value
pub fn whole() {
    let (k, n) = (param(1) as usize, param(2) as usize);
    let v = value(k, n);
    let o = |k: usize, v: &str| if k < 10 { format!("{} = \"{v}\"", KEYS[k]) } else { ["unix", "windows"][k - 10].to_owned() };
    let x = o(k, &v);
    let (l, w) = (param(4) as usize, if param(3) >= 5 { value(param(4) as usize, param(5) as usize) } else { String::new() });
    let y = o(l, &w);
    let text = match param(3) {
        0 => x,
        1 => format!("cfg({x})"),
        2 => format!("not({x})"),
        3 => format!("cfg(all(unix, {x}, not(windows)))"),
        4 => format!("any(windows, not({x}), all(unix, not(unix)))"),
        5 => format!("all({x}, {y})"),
        6 => format!("any(not({x}), {y})"),
        7 => format!("not(any(all({x}, not({y})), all(not({x}), {y})))"),
        _ => format!("any(all(unix, {x}), all(not(unix), {y}))"),
    };
    let e = match Expression::parse(&text) {
        Ok(e) => e,
        Err(_) => {
            // only a number can be too large
            chk(25, 1, matches!(k, 7 | 9) && n > 2 || param(3) >= 5 && matches!(l, 7 | 9) && param(5) > 2);
            return;
        }
    };
    cover(1);
    let mut seen = 0u64;
    for f in rustc::FACTS {
        let Some(a) = answer(f, k, &v) else { continue };
        let b = if param(3) >= 5 {
            match answer(f, l, &w) {
                Some(b) => b,
                None => continue,
            }
        } else {
            false
        };
        let (unix, windows) = (answer(f, 10, "").unwrap(), answer(f, 11, "").unwrap());
        let want = match param(3) {
            0 | 1 => a,
            2 => !a,
            3 => unix & a & !windows,
            4 => windows | !a,
            5 => a & b,
            6 => !a | b,
            7 => a == b,
            _ => (unix & a) | (!unix & b),
        };
        let t = get_builtin_target_by_triple(f.triple);
        let Some(t) = t else {
            chk(25, 2, false);
            continue;
        };
        let got: bool = e.eval(|p| match p {
            P::Target(tp) => tp.matches(t),
            _ => {
                chk(25, 3, false);
                false
            }
        });
        seen = seen.rotate_left(1) ^ got as u64;
        chk(25, 4, got == want);
        let known: Option<bool> = e.eval(|p| match p {
            P::Target(tp) => Some(tp.matches(t)),
            _ => None,
        });
        chk(25, 5, known == Some(want));
        cover(if want { 2 } else { 3 });
    }
    observe(seen);
}
