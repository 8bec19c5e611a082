//! Token sequences: each slot of the text holds one token picked by a symbolic
//! byte, so that all sequences of a length are decided together.
use crate::{spec::*, text::*, *};
use cfg_expr::{
    Expression,
    expr::{Logic, Predicate},
};

pub const W: usize = 6;
/// '@' becomes a letter that is different in every slot
const STRUCT: &[&[u8; W]] = &[b"all   ", b"any   ", b"not   ", b"(     ", b")     ", b",     ", b"k@    "];
const VALUED: &[&[u8; W]] = &[b"all   ", b"any   ", b"not   ", b"(     ", b")     ", b",     ", b"k@    ", b"=     ", b"\"v@\"  "];
const MIXED: &[&[u8; W]] = &[
    b"all   ", b"not   ", b"(     ", b")     ", b",     ", b"k@    ", b"=     ", b"\"v@\"  ", b"unix  ", b"panic ", b"#     ", b"\"     ",
    b"cfg   ",
];
fn alphabet(a: u64) -> &'static [&'static [u8; W]] {
    match a {
        0 => STRUCT,
        1 => VALUED,
        _ => MIXED,
    }
}
fn letter(i: usize) -> u8 {
    if i < 26 { b'a' + i as u8 } else { b'A' + (i - 26) as u8 }
}
fn slot(i: usize, al: &[&[u8; W]], pick: u8, out: &mut [u8]) {
    let mut tab = [[b' '; W]; 16];
    for (row, src) in tab.iter_mut().zip(al) {
        for j in 0..W {
            row[j] = if src[j] == b'@' { letter(i) } else { src[j] };
        }
    }
    for j in 0..W {
        out[j] = tab[(pick & 15) as usize][j];
    }
}

/// three logics at once: bits (a boolean algebra), a De Morgan lattice (0..=255
/// with min, max, complement), how many leaves went in, and a Heyting algebra (a
/// chain, whose not(not(x)) is not x) in which every leaf is the middle
#[derive(Clone, Copy, Debug)]
pub struct L {
    pub bits: u8,
    pub lat: u8,
    pub n: u32,
    pub hey: u8,
}
/// the value of a leaf
pub fn leaf(bits: u8, lat: u8) -> L {
    L { bits, lat, n: 1, hey: 128 }
}
fn min(a: u8, b: u8) -> u8 {
    if a < b { a } else { b }
}
fn max(a: u8, b: u8) -> u8 {
    if a < b { b } else { a }
}
impl Logic for L {
    fn top() -> Self {
        L { bits: 255, lat: 255, n: 0, hey: 255 }
    }
    fn bottom() -> Self {
        L { bits: 0, lat: 0, n: 0, hey: 0 }
    }
    fn and(self, o: Self) -> Self {
        L { bits: self.bits & o.bits, lat: min(self.lat, o.lat), n: self.n + o.n, hey: min(self.hey, o.hey) }
    }
    fn or(self, o: Self) -> Self {
        L { bits: self.bits | o.bits, lat: max(self.lat, o.lat), n: self.n + o.n, hey: max(self.hey, o.hey) }
    }
    fn not(self) -> Self {
        L { bits: !self.bits, lat: 255 - self.lat, n: self.n, hey: if self.hey == 0 { 255 } else { 0 } }
    }
}
impl Alg for L {
    fn top() -> Self {
        Logic::top()
    }
    fn bot() -> Self {
        Logic::bottom()
    }
    fn conj(self, o: Self) -> Self {
        Logic::and(self, o)
    }
    fn disj(self, o: Self) -> Self {
        Logic::or(self, o)
    }
    fn neg(self) -> Self {
        Logic::not(self)
    }
}
/// boolean values, without short cuts
#[derive(Clone, Copy)]
struct B(bool);
impl Alg for B {
    fn top() -> Self {
        B(true)
    }
    fn bot() -> Self {
        B(false)
    }
    fn conj(self, o: Self) -> Self {
        B(self.0 & o.0)
    }
    fn disj(self, o: Self) -> Self {
        B(self.0 | o.0)
    }
    fn neg(self) -> Self {
        B(!self.0)
    }
}
/// strong Kleene: (can be true, can be false)
#[derive(Clone, Copy)]
pub struct Kl(pub bool, pub bool);
impl Alg for Kl {
    fn top() -> Self {
        Kl(true, false)
    }
    fn bot() -> Self {
        Kl(false, true)
    }
    fn conj(self, o: Self) -> Self {
        Kl(self.0 & o.0, self.1 | o.1)
    }
    fn disj(self, o: Self) -> Self {
        Kl(self.0 | o.0, self.1 & o.1)
    }
    fn neg(self) -> Self {
        Kl(self.1, self.0)
    }
}
pub fn kl(o: Option<bool>) -> Kl {
    match o {
        Some(true) => Kl(true, false),
        Some(false) => Kl(false, true),
        None => Kl(true, true),
    }
}
pub fn opt3(x: u8) -> Option<bool> {
    match x {
        0 => Some(false),
        1 => Some(true),
        _ => None,
    }
}

/// which slot a predicate of the token alphabets was written in
fn slot_of(p: &Predicate<'_>) -> usize {
    let k = match p {
        Predicate::Flag(k) => k.as_bytes(),
        Predicate::KeyValue { key, .. } => key.as_bytes(),
        _ => return usize::MAX,
    };
    if k.len() != 2 || k[0] != b'k' {
        return usize::MAX;
    }
    if k[1] >= b'a' { (k[1] - b'a') as usize } else { (k[1] - b'A') as usize + 26 }
}

/// params: 1 = number of slots, 2 = alphabet, 3 = 1 to write `cfg(`..`)` around
pub fn tokens() {
    let k = param(1) as usize;
    let al = alphabet(param(2));
    let mut buf = [b' '; W * 40 + 8];
    let mut len = 0;
    if param(3) == 1 {
        buf[..4].copy_from_slice(b"cfg(");
        len = 4;
    }
    for i in 0..k {
        let t = byte();
        assume((t as usize) < al.len());
        slot(i, al, t, &mut buf[len..len + W]);
        len += W;
    }
    if param(3) == 1 {
        buf[len] = b')';
        len += 1;
    }
    // the alphabets are ASCII
    let s = unsafe { std::str::from_utf8_unchecked(&buf[..len]) };
    match prop() {
        3 | 4 => values(s, if param(3) == 1 { 4 } else { 0 }),
        10 => crate::wrap::transparent(s),
        11 => crate::layout::layout(s, k, al.len()),
        _ => check_text(s),
    }
}

fn values(s: &str, _off: usize) {
    let Ok(e) = Expression::parse(s) else {
        cover(2);
        return;
    };
    let v = judge(strip(s));
    if !v.faults.is_empty() {
        return;
    }
    cover(1);
    let sl = |i: usize| v.opts[i].key.0 / W;
    check_values(&e, &v, &sl);
}
/// C03, C04 on one accepted expression; `sl` maps reading order to slots
pub fn check_values(e: &Expression, v: &Verdict, sl: &dyn Fn(usize) -> usize) {
    let nopt = v.opts.len();
    observe(nopt as u64);
    if prop() == 3 {
        let mut vals = [0u8; 40];
        let mut lats = [0u8; 40];
        for i in 0..nopt {
            vals[sl(i)] = byte();
            lats[sl(i)] = byte();
        }
        let mut hits = [0u8; 40];
        let mut stray = false;
        let got: L = e.eval(|p| {
            let s = slot_of(p);
            if s >= 40 {
                stray = true;
                return Logic::top();
            }
            hits[s] += 1;
            leaf(vals[s], lats[s])
        });
        chk(3, 1, !stray);
        for i in 0..nopt {
            chk(3, 2, hits[sl(i)] == 1);
        }
        chk(3, 3, got.n as usize == nopt);
        let want: L = meaning(&v.toks, &mut |i| leaf(vals[sl(i)], lats[sl(i)]));
        chk(3, 4, got.bits == want.bits);
        chk(3, 5, got.lat == want.lat);
        chk(3, 7, got.hey == want.hey);
        observe(got.bits as u64);
        observe(got.lat as u64);
        if nopt <= param(4) as usize {
            // the crate's own boolean logic
            let got: bool = e.eval(|p| {
                let s = slot_of(p);
                s < 40 && vals[s] & 1 == 1
            });
            let want: B = meaning(&v.toks, &mut |i| B(vals[sl(i)] & 1 == 1));
            chk(3, 6, got == want.0);
        }
        return;
    }
    if nopt > param(4) as usize {
        return;
    }
    // 0 false, 1 true, 2 unknown
    let mut vals = [2u8; 40];
    for i in 0..nopt {
        let x = byte();
        assume(x < 3);
        vals[sl(i)] = x;
    }
    let got: Option<bool> = e.eval(|p| {
        let s = slot_of(p);
        if s < 40 { opt3(vals[s]) } else { None }
    });
    observe(match got { None => 2, Some(b) => b as u64 });
    let want: Kl = meaning(&v.toks, &mut |i| {
        let x = vals[sl(i)];
        Kl(x != 0, x != 1)
    });
    let g = kl(got);
    chk(4, 1, (g.0 == want.0) & (g.1 == want.1));
    // any way of resolving the unknowns agrees with an answer that is known
    let mut res = [0u8; 40];
    let mut all_known = true;
    for i in 0..nopt {
        let x = byte();
        let y = vals[sl(i)];
        res[sl(i)] = if y == 2 { x & 1 } else { y };
        all_known &= y != 2;
    }
    let b: B = meaning(&v.toks, &mut |i| B(res[sl(i)] == 1));
    if let Some(x) = got {
        cover(3);
        chk(4, 2, x == b.0);
    } else {
        cover(4);
    }
    if all_known {
        let two: bool = e.eval(|p| {
            let s = slot_of(p);
            s < 40 && vals[s] == 1
        });
        chk(4, 3, got == Some(two));
    }
    // learning one unknown keeps a known answer
    if got.is_some() && nopt > 0 && !all_known {
        let learn = choice(nopt);
        let s0 = sl(learn);
        if vals[s0] == 2 {
            vals[s0] = res[s0];
            let again: Option<bool> = e.eval(|p| {
                let s = slot_of(p);
                if s < 40 { opt3(vals[s]) } else { None }
            });
            chk(4, 4, again == got);
            cover(5);
        }
    }
}

/// the truth tables of the two shipped logics
pub fn tables() {
    let (x, y) = (byte(), byte());
    assume((x < 3) & (y < 3));
    let (a, b) = (opt3(x), opt3(y));
    let same = |n: u32, g: Option<bool>, w: Kl| {
        let g = kl(g);
        chk(4, n, (g.0 == w.0) & (g.1 == w.1));
    };
    same(20, Logic::and(a, b), kl(a).conj(kl(b)));
    same(21, Logic::or(a, b), kl(a).disj(kl(b)));
    same(22, Logic::not(a), kl(a).neg());
    same(23, <Option<bool> as Logic>::top(), Kl(true, false));
    same(24, <Option<bool> as Logic>::bottom(), Kl(false, true));
    if let (Some(p), Some(q)) = (a, b) {
        chk(3, 20, Logic::and(p, q) == (p & q));
        chk(3, 21, Logic::or(p, q) == (p | q));
        chk(3, 22, Logic::not(p) == !p);
        chk(3, 23, <bool as Logic>::top());
        chk(3, 24, !<bool as Logic>::bottom());
        cover(6);
    }
}
