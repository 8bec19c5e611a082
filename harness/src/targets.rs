//! Target descriptions: lookup, matching, names, sets and the built-in table.
use crate::{spec::{eq, uint}, *};
use cfg_expr::{expr::TargetMatcher, TargetPredicate as TP, targets::*};
use std::hash::{Hash, Hasher};

#[path = "../gen/rustc.rs"]
pub mod rustc;
/// what rustc prints for a target (None: differs between 1.86 and the installed rustc)
pub struct Fact {
    pub triple: &'static str,
    pub os: Option<&'static str>,
    pub abi: Option<&'static str>,
    pub arch: Option<&'static str>,
    pub env: Option<&'static str>,
    pub vendor: Option<&'static str>,
    pub panic: Option<&'static str>,
    pub big: bool,
    pub width: u8,
    pub families: &'static [&'static str],
    pub atomics: Option<(&'static [u16], bool)>,
}

/// n arbitrary bytes that are ASCII (n > 4), or UTF-8 of any kind (n <= 4);
/// n = 1000 * L + 10 * P + W: W such bytes behind (P = 0), before (1) or amid (2) L times `x`
pub fn word(n: usize) -> String {
    if n >= 1000 {
        let (l, w) = (n / 1000, word(n % 10));
        let front = match n / 10 % 10 {
            0 => l,
            1 => 0,
            _ => l / 2,
        };
        let mut s = String::with_capacity(l + 16);
        for i in 0..=l {
            if i == front {
                s.push_str(&w);
            }
            if i < l {
                s.push('x');
            }
        }
        return s;
    }
    let mut v = vec![0u8; n];
    bytes(&mut v);
    if n > 4 {
        for c in &v {
            assume(*c < 0x80);
        }
        return unsafe { String::from_utf8_unchecked(v) };
    }
    match String::from_utf8(v) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            String::new()
        }
    }
}
pub fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}
/// a symbolic bool
pub fn flip() -> bool {
    byte() & 1 == 1
}

// ------------------------------------------------------------------ C13
/// params: 1 = length; 2 = 1: a two-byte character somewhere
pub fn lookup() {
    let n = param(1) as usize;
    let s;
    if param(2) == 1 {
        let mut v = vec![0u8; n];
        bytes(&mut v);
        let at = choice(n - 1);
        for (i, c) in v.iter().enumerate() {
            assume(if i == at { (*c >= 0xc2) & (*c <= 0xdf) } else if i == at + 1 { (*c >= 0x80) & (*c <= 0xbf) } else { *c < 0x80 });
        }
        s = unsafe { String::from_utf8_unchecked(v) };
    } else {
        s = word(n);
    }
    let r = get_builtin_target_by_triple(&s);
    match r {
        Some(t) => {
            cover(1);
            observe(1);
            chk(13, 1, eq(t.triple.as_str().as_bytes(), s.as_bytes()));
            // it is the listed entry, not a copy with other fields
            let mut found = false;
            for b in ALL_BUILTINS {
                if b.triple.as_str().len() == n {
                    found |= eq(b.triple.as_str().as_bytes(), s.as_bytes()) & std::ptr::eq(b, t);
                }
            }
            // constants may be duplicated in memory: equal contents are as good
            chk(13, 2, found || ALL_BUILTINS.iter().any(|b| b == t));
        }
        None => {
            cover(2);
            observe(0);
            let mut same = false;
            for b in ALL_BUILTINS {
                if b.triple.as_str().len() == n {
                    same |= eq(b.triple.as_str().as_bytes(), s.as_bytes());
                }
            }
            chk(13, 3, !same);
            let mut known = false;
            for f in rustc::FACTS {
                if f.triple.len() == n {
                    known |= eq(f.triple.as_bytes(), s.as_bytes());
                }
            }
            chk(13, 5, !known);
        }
    }
}
/// triples are unique (whatever their order)
pub fn unique() {
    let i = choice(ALL_BUILTINS.len());
    let t = &ALL_BUILTINS[i].triple;
    observe(i as u64);
    for (j, b) in ALL_BUILTINS.iter().enumerate() {
        if i != j {
            chk(13, 4, b.triple != *t && b.triple.as_str() != t.as_str());
        }
    }
    let g = get_builtin_target_by_triple(t.as_str());
    chk(13, 6, g.is_some_and(|g| g == &ALL_BUILTINS[i]));
    cover(3);
}

// ------------------------------------------------------------------ C14
fn says(t: &TargetInfo, p: &TP, want: bool) {
    let a = t.matches(p);
    let b = p.matches(t);
    observe(a as u64);
    chk(14, 1, a == want);
    chk(14, 2, b == want);
    if want {
        cover(1)
    } else {
        cover(2)
    }
}
fn opt(l: usize) -> Option<String> {
    if l == 99 { None } else { Some(word(l)) }
}
fn base() -> TargetInfo {
    let n = ALL_BUILTINS.len();
    // param 4: 0 one target, 1 a few different ones, 2 every one
    let i = match param(4) {
        0 => 20,
        1 => choice(8) * 37 + 3,
        _ => choice(n),
    };
    ALL_BUILTINS[i % n].clone()
}
macro_rules! own {
    ($k:ident, $s:expr) => {
        if param(5) == 1 { $k::new_const(leak($s)) } else { $k::new($s) }
    };
}
/// params: 1 = kind, 2 = length of the field (99 absent, 98 as built in, 97 absent or any length up to param 6),
/// 3 = length of the value (97 any up to param 6), 4 = base, 5 = static names
pub fn info() {
    let kind = param(1);
    let mut t = base();
    let (mut fl, mut vl) = (param(2) as usize, param(3) as usize);
    let most = param(6) as usize;
    if fl == 97 {
        fl = choice(most + 2);
        if fl == most + 1 {
            fl = 99;
        }
    }
    if vl == 97 {
        vl = choice(most + 1);
    }
    macro_rules! optional {
        ($field:ident, $k:ident, $absent:expr) => {{
            if fl != 98 {
                t.$field = opt(fl).map($k::new);
            }
            let v = word(vl);
            let want = match &t.$field {
                Some(x) => eq(x.as_str().as_bytes(), v.as_bytes()),
                None => eq($absent, v.as_bytes()),
            };
            says(&t, &TP::$k(own!($k, v)), want);
        }};
    }
    macro_rules! plain {
        ($field:ident, $k:ident) => {{
            if fl == 99 {
                return;
            }
            if fl != 98 {
                t.$field = $k::new(word(fl));
            }
            let v = word(vl);
            let want = eq(t.$field.as_str().as_bytes(), v.as_bytes());
            says(&t, &TP::$k(own!($k, v)), want);
        }};
    }
    match kind {
        0 => optional!(os, Os, b"none"),
        1 => optional!(env, Env, b""),
        2 => optional!(abi, Abi, b""),
        3 => optional!(vendor, Vendor, b"unknown"),
        4 => plain!(arch, Arch),
        5 => plain!(panic, Panic),
        6 => {
            let w = byte();
            if fl != 98 {
                t.pointer_width = byte();
            }
            let want = t.pointer_width == w;
            says(&t, &TP::PointerWidth(w), want);
        }
        7 => {
            let e = |b: bool| if b { Endian::big } else { Endian::little };
            if fl != 98 {
                t.endian = e(flip());
            }
            let v = e(flip());
            let want = t.endian as u8 == v as u8;
            says(&t, &TP::Endian(v), want);
        }
        8 => {
            // fl = number of families; lengths by choice
            if fl != 98 {
                let mut l = vec![];
                for _ in 0..fl {
                    let n = choice(3) + vl.saturating_sub(1);
                    l.push(Family::new(word(n)));
                }
                t.families = Families::new(l);
            }
            let v = word(vl);
            let mut want = false;
            for f in t.families.iter() {
                want |= eq(f.as_str().as_bytes(), v.as_bytes());
            }
            says(&t, &TP::Family(own!(Family, v)), want);
        }
        _ => {
            // fl = number of atomics
            if fl != 98 {
                let mut l = vec![];
                for _ in 0..fl {
                    l.push(atomic());
                }
                t.has_atomics = HasAtomics::new(l);
            }
            let v = atomic();
            let mut want = false;
            for a in t.has_atomics.iter() {
                want |= same_atomic(*a, v);
            }
            says(&t, &TP::HasAtomic(v), want);
        }
    }
}
fn same_atomic(a: HasAtomic, b: HasAtomic) -> bool {
    match (a, b) {
        (HasAtomic::Pointer, HasAtomic::Pointer) => true,
        (HasAtomic::IntegerSize(x), HasAtomic::IntegerSize(y)) => x == y,
        _ => false,
    }
}
fn atomic() -> HasAtomic {
    if choice(2) == 1 {
        HasAtomic::Pointer
    } else {
        HasAtomic::IntegerSize(byte() as u16 | (byte() as u16) << 8)
    }
}

// ------------------------------------------------------------------ C17
/// params: 1 = length of the text, 2 = zeros in front of it
pub fn atomic_text() {
    let n = param(1) as usize;
    let mut s = "0".repeat(param(2) as usize);
    s.push_str(&word(n));
    let r: Result<HasAtomic, _> = s.parse();
    let want = uint(s.as_bytes(), 65535);
    let ptr = eq(s.as_bytes(), b"ptr");
    match r {
        Ok(HasAtomic::Pointer) => {
            cover(1);
            observe(1);
            chk(17, 1, ptr);
        }
        Ok(HasAtomic::IntegerSize(v)) => {
            cover(2);
            observe(2 + v as u64);
            chk(17, 2, want == Some(v as u32));
        }
        Ok(_) => chk(17, 3, false),
        Err(e) => {
            cover(3);
            observe(0);
            chk(17, 4, !ptr && want.is_none());
            // the message quotes the text
            let m = format!("{e}");
            let (m, q) = (m.as_bytes(), s.as_bytes());
            let mut found = false;
            let mut i = 0;
            while i + q.len() <= m.len() {
                found |= eq(&m[i..i + q.len()], q);
                i += 1;
            }
            chk(17, 5, found);
        }
    }
}
/// param 1 = high byte of the number (256: ptr)
pub fn atomic_display() {
    let a = if param(1) == 256 {
        HasAtomic::Pointer
    } else {
        let lo = concretize(byte() as u64) as u16;
        HasAtomic::IntegerSize((choice(256) as u16) << 8 | lo)
    };
    let s = a.to_string();
    observe(s.len() as u64);
    let r: Result<HasAtomic, _> = s.parse();
    chk(17, 6, r.is_ok_and(|b| same_atomic(a, b) && a == b));
    let ptr = eq(s.as_bytes(), b"ptr");
    chk(17, 7, ptr == (a == HasAtomic::Pointer));
    cover(4);
}

// ------------------------------------------------------------------ C18
/// everything hashed, byte by byte
pub struct Rec(pub Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
pub fn rec<T: Hash + ?Sized>(t: &T) -> Vec<u8> {
    let mut r = Rec(Vec::new());
    t.hash(&mut r);
    r.0
}
fn less_eq(a: &[u8], b: &[u8]) -> bool {
    let mut i = 0;
    loop {
        if i == a.len() {
            return true;
        }
        if i == b.len() {
            return false;
        }
        if a[i] != b[i] {
            return a[i] < b[i];
        }
        i += 1;
    }
}
/// the k-th permutation of n things
fn permute<T: Clone>(l: &[T], mut k: usize) -> Vec<T> {
    let mut rest: Vec<T> = l.to_vec();
    let mut out = vec![];
    while !rest.is_empty() {
        let i = k % rest.len();
        k /= rest.len();
        out.push(rest.remove(i));
    }
    out
}
fn fact(n: usize) -> usize {
    if n < 2 { 1 } else { n * fact(n - 1) }
}
macro_rules! set_laws {
    ($name:ident, $set:ident, $elem:ty, $make:expr, $same:expr, $le:expr, $show:expr, $arg:expr) => {
        /// params: 1 = elements, 2 = elements of the second list, 3 = size of an element, 4 = extra fixed elements,
        /// 5 = part: 0 order and storage, 1 membership, 2 display, 3 another list
        pub fn $name() {
            let (n, m) = (param(1) as usize, param(2) as usize);
            let same: fn(&$elem, &$elem) -> bool = $same;
            let le: fn(&$elem, &$elem) -> bool = $le;
            let mut l: Vec<$elem> = (0..n).map(|_| $make()).collect();
            let extra = param(4) as usize;
            for i in 0..extra {
                // a spread of fixed elements, out of order
                l.push(fixed::<$elem>((i * 7 + 3) % extra));
            }
            let perms = if extra > 0 { 4 } else { fact(n) };
            let part = param(5);
            let k = if part == 0 { choice(perms) } else { 0 };
            let mut p = if extra > 0 {
                let mut p = l.clone();
                match k {
                    0 => p.reverse(),
                    1 => p.rotate_left(1),
                    2 => p.rotate_left(n),
                    _ => {
                        let q = p.len();
                        p.swap(0, q - 1);
                        p.swap(1, q / 2)
                    }
                }
                p
            } else {
                permute(&l, k)
            };
            let a = $set::new(l.clone());
            let b = $set::new(p.drain(..));
            if part == 0 {
            chk(18, 1, a == b);
            chk(18, 2, rec(&a) == rec(&b));
            chk(18, 3, a.cmp(&b) == std::cmp::Ordering::Equal && a.partial_cmp(&b) == Some(std::cmp::Ordering::Equal));
            // sorted, same elements
            chk(18, 4, a.len() == l.len());
            let mut sorted = true;
            for w in a.windows(2) {
                sorted &= le(&w[0], &w[1]);
            }
            chk(18, 5, sorted);
            for x in &l {
                let mut c = 0u32;
                for y in a.iter() {
                    c += same(x, y) as u32;
                }
                let mut d = 0u32;
                for y in &l {
                    d += same(x, y) as u32;
                }
                chk(18, 6, c == d);
                chk(18, 7, a.contains($arg(x)));
            }
            }
            // static storage
            let st: &'static [$elem] = Box::leak(a.to_vec().into_boxed_slice());
            let s = $set::new_const(st);
            if part == 0 {
            chk(18, 8, s == a && a == s && rec(&s) == rec(&a) && s.cmp(&a) == std::cmp::Ordering::Equal);
            chk(18, 9, s.as_ref().len() == a.as_ref().len());
            for (x, y) in s.iter().zip(a.as_ref().iter()) {
                chk(18, 10, same(x, y));
            }
            }
            // membership of an arbitrary element
            if part == 1 {
            let q = $make();
            let mut inside = false;
            for y in &l {
                inside |= same(&q, y);
            }
            chk(18, 11, a.contains($arg(&q)) == inside);
            chk(18, 12, s.contains($arg(&q)) == inside);
            observe(inside as u64);
            cover(if inside { 4 } else { 5 });
            }
            // display
            if part == 2 {
            let mut w = String::from("{");
            for (i, y) in a.iter().enumerate() {
                if i > 0 {
                    w.push_str(", ");
                }
                $show(y, &mut w);
            }
            w.push('}');
            chk(18, 13, eq(a.to_string().as_bytes(), w.as_bytes()));
            chk(18, 14, eq(s.to_string().as_bytes(), w.as_bytes()));
            }
            cover(1);
            // another list
            if part == 3 {
                let o: Vec<$elem> = (0..m).map(|_| $make()).collect();
                let c = $set::new(o.clone());
                let mut eqv = o.len() == l.len();
                for x in &l {
                    let mut c = 0u32;
                    for y in &o {
                        c += same(x, y) as u32;
                    }
                    let mut d = 0u32;
                    for y in &l {
                        d += same(x, y) as u32;
                    }
                    eqv &= c == d;
                }
                let got = a == c;
                observe(got as u64);
                chk(18, 15, got == eqv);
                chk(18, 16, (a.cmp(&c) == std::cmp::Ordering::Equal) == eqv);
                chk(18, 17, (rec(&a) == rec(&c)) == eqv);
                chk(18, 18, a.cmp(&c) == c.cmp(&a).reverse());
                cover(if eqv { 2 } else { 3 });
            }
        }
    };
}
trait Fixed {
    fn fixed(i: usize) -> Self;
}
fn fixed<T: Fixed>(i: usize) -> T {
    T::fixed(i)
}
impl Fixed for Family {
    fn fixed(i: usize) -> Self {
        Family::new(format!("f{}", (b'a' + (i / 5) as u8) as char).repeat(1 + i % 3))
    }
}
impl Fixed for HasAtomic {
    fn fixed(i: usize) -> Self {
        if i == 5 { HasAtomic::Pointer } else { HasAtomic::IntegerSize((i as u16 * 251) ^ 0x155) }
    }
}
fn a_family() -> Family {
    let n = param(3) as usize;
    Family::new(word(if n < 1000 { choice(n + 1) } else { n }))
}
fn le_family(a: &Family, b: &Family) -> bool {
    less_eq(a.as_str().as_bytes(), b.as_str().as_bytes())
}
fn le_atomic(a: &HasAtomic, b: &HasAtomic) -> bool {
    match (a, b) {
        (HasAtomic::IntegerSize(x), HasAtomic::IntegerSize(y)) => x <= y,
        (HasAtomic::Pointer, HasAtomic::Pointer) => true,
        // any order of the two kinds is sorted, as long as it is the one of Ord
        _ => a <= b,
    }
}
fn show_family(f: &Family, w: &mut String) {
    w.push_str(f.as_str())
}
fn show_atomic(f: &HasAtomic, w: &mut String) {
    match f {
        HasAtomic::IntegerSize(v) => w.push_str(&v.to_string()),
        _ => w.push_str("ptr"),
    }
}
set_laws!(families, Families, Family, a_family, |a, b| eq(a.as_str().as_bytes(), b.as_str().as_bytes()), le_family, show_family, |x| x);
set_laws!(atomics, HasAtomics, HasAtomic, atomic, |a, b| same_atomic(*a, *b), le_atomic, show_atomic, |x: &HasAtomic| *x);

// ------------------------------------------------------------------ C19
macro_rules! name_laws {
    ($($i:literal $k:ident),+) => {
        /// params: 1 = kind, 2, 3 = lengths of two texts (97: any below param 4)
        pub fn names() {
            let len = |n: u64| if n == 97 { choice(param(4) as usize) } else { n as usize };
            let (n, m) = (len(param(2)), len(param(3)));
            let (a, b) = (word(n), word(m));
            match param(1) {
                $($i => {
                    let (oa, ob) = ($k::new(a.clone()), $k::new(b.clone()));
                    let (la, lb) = (leak(a.clone()), leak(b.clone()));
                    let (sa, sb) = ($k::new_const(la), $k::new_const(lb));
                    let xa = $k::new(la);
                    // the text comes back
                    for x in [&oa, &sa, &xa] {
                        chk(19, 1, eq(x.as_str().as_bytes(), a.as_bytes()));
                        let r: &str = x.as_ref();
                        chk(19, 2, eq(r.as_bytes(), a.as_bytes()));
                        chk(19, 3, eq(x.to_string().as_bytes(), a.as_bytes()));
                        chk(19, 4, x == &oa && rec(x) == rec(&oa) && x.cmp(&oa) == std::cmp::Ordering::Equal);
                        let c = x.clone();
                        chk(19, 10, &c == x && eq(c.as_str().as_bytes(), a.as_bytes()));
                    }
                    let same = eq(a.as_bytes(), b.as_bytes());
                    let le = less_eq(a.as_bytes(), b.as_bytes());
                    for (x, y) in [(&oa, &ob), (&oa, &sb), (&sa, &ob), (&sa, &sb)] {
                        chk(19, 5, (x == y) == same && (x != y) != same);
                        chk(19, 6, (x <= y) == le && (x > y) != le);
                        let c = x.cmp(y);
                        chk(19, 7, (c == std::cmp::Ordering::Equal) == same && (c != std::cmp::Ordering::Greater) == le && x.partial_cmp(y) == Some(c));
                        chk(19, 8, (rec(x) == rec(y)) == same);
                    }
                    chk(19, 9, rec(&oa) == rec(a.as_str()) && rec(&sa) == rec(a.as_str()));
                    observe(same as u64);
                    observe(le as u64);
                    cover(if same { 1 } else { 2 });
                })+
                _ => {}
            }
        }
    };
}
name_laws!(0 Triple, 1 Abi, 2 Arch, 3 Vendor, 4 Os, 5 Family, 6 Env, 7 Panic);
/// param 1 = length
pub fn endian() {
    let s = word(param(1) as usize);
    let (big, little) = (eq(s.as_bytes(), b"big"), eq(s.as_bytes(), b"little"));
    let r: Result<Endian, _> = s.parse();
    match r {
        Ok(Endian::big) => {
            cover(3);
            observe(1);
            chk(19, 11, big);
        }
        Ok(Endian::little) => {
            cover(4);
            observe(2);
            chk(19, 12, little);
        }
        Err(_) => {
            cover(5);
            observe(0);
            chk(19, 13, !big && !little);
        }
    }
}

// ------------------------------------------------------------------ C20
fn fact_of(t: &TargetInfo) -> Option<&'static Fact> {
    rustc::FACTS.iter().find(|f| f.triple == t.triple.as_str())
}
/// params: 1 = kind, 2 = length of the value
pub fn facts() {
    let n = ALL_BUILTINS.len();
    let i = choice(n);
    let t = &ALL_BUILTINS[i];
    let f = fact_of(t);
    let gone = rustc::GONE.contains(&t.triple.as_str());
    chk(20, 1, f.is_some() || gone);
    let Some(f) = f else { return };
    cover(1);
    let v = |x: Option<&'static str>, mk: &dyn Fn(String) -> TP| {
        let Some(x) = x else { return };
        let w = word(param(2) as usize);
        let want = eq(w.as_bytes(), x.as_bytes());
        let got = t.matches(&mk(w));
        observe(got as u64);
        chk(20, 2, got == want);
        cover(if want { 2 } else { 3 });
    };
    match param(1) {
        0 => v(f.os, &|s| TP::Os(Os::new(s))),
        1 => v(f.env, &|s| TP::Env(Env::new(s))),
        2 => v(f.abi, &|s| TP::Abi(Abi::new(s))),
        3 => v(f.vendor, &|s| TP::Vendor(Vendor::new(s))),
        4 => v(f.arch, &|s| TP::Arch(Arch::new(s))),
        5 => v(f.panic, &|s| TP::Panic(Panic::new(s))),
        6 => {
            let w = word(param(2) as usize);
            let mut want = false;
            for x in f.families {
                want |= eq(w.as_bytes(), x.as_bytes());
            }
            let got = t.matches(&TP::Family(Family::new(w)));
            observe(got as u64);
            chk(20, 3, got == want);
        }
        7 => {
            let w = byte();
            chk(20, 4, t.matches(&TP::PointerWidth(w)) == (w == f.width));
            chk(20, 5, t.matches(&TP::Endian(Endian::big)) == f.big);
            chk(20, 6, t.matches(&TP::Endian(Endian::little)) != f.big);
        }
        _ => {
            let Some((ints, ptr)) = f.atomics else { return };
            let a = atomic();
            let mut want = false;
            match a {
                HasAtomic::Pointer => want = ptr,
                HasAtomic::IntegerSize(v) => {
                    for x in ints {
                        want |= *x == v;
                    }
                }
                _ => {}
            }
            let got = t.matches(&TP::HasAtomic(a));
            observe(got as u64);
            chk(20, 7, got == want);
        }
    }
}
/// coherence of each entry, the list as a whole and the named constants
pub fn coherent() {
    let n = ALL_BUILTINS.len();
    let i = choice(n);
    let t = &ALL_BUILTINS[i];
    observe(i as u64);
    for w in t.families.windows(2) {
        chk(20, 10, w[0] < w[1]);
    }
    for w in t.has_atomics.windows(2) {
        chk(20, 11, w[0] < w[1]);
    }
    let mut pw = false;
    let mut ptr = false;
    for a in t.has_atomics.iter() {
        match a {
            HasAtomic::IntegerSize(v) => pw |= *v == t.pointer_width as u16,
            HasAtomic::Pointer => ptr = true,
            _ => chk(20, 12, false),
        }
    }
    chk(20, 13, pw == ptr);
    // absence is spelled one way only
    chk(20, 14, t.os.as_ref().is_none_or(|o| o.as_str() != "none" && !o.as_str().is_empty()));
    chk(20, 15, t.env.as_ref().is_none_or(|o| !o.as_str().is_empty()));
    chk(20, 16, t.abi.as_ref().is_none_or(|o| !o.as_str().is_empty()));
    chk(20, 17, t.pointer_width == 16 || t.pointer_width == 32 || t.pointer_width == 64);
    chk(20, 18, !t.triple.as_str().is_empty() && !t.arch.as_str().is_empty());
    // a rebuilt set is the same set
    let f = Families::new(t.families.iter().cloned());
    chk(20, 19, f == t.families);
    let a = HasAtomics::new(t.has_atomics.iter().copied());
    chk(20, 20, a == t.has_atomics);
    cover(4);
}
/// every target rustc lists is listed, the constants spell their names
pub fn constants() {
    let i = choice(rustc::FACTS.len() + rustc::GONE.len());
    let name = if i < rustc::FACTS.len() { rustc::FACTS[i].triple } else { rustc::GONE[i - rustc::FACTS.len()] };
    observe(i as u64);
    chk(20, 21, ALL_BUILTINS.iter().any(|t| t.triple.as_str() == name));
    if i == 0 {
        let mut k = 0;
        rustc::constants(&mut |v, want| {
            k += 1;
            observe(k);
            chk(20, 22, eq(v.as_bytes(), want.as_bytes()));
        });
        cover(5);
    }
}
