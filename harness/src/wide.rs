//! Large expressions: long lists and deep nesting, with symbolic truth values at
//! a few places and the neutral value elsewhere.
use crate::{spec::*, text::*, toks::*, *};
use cfg_expr::{Expression, expr::{Logic, Predicate, TargetPredicate}};

const PATTERNS: &[&str] = &["f", "o", "n", "a", "fo", "of", "nnoa", "ff o", "oooof", "g"];

fn number(t: &mut Vec<u8>, n: usize) {
    let mut d = [0u8; 8];
    let mut i = 8;
    let mut n = n;
    loop {
        i -= 1;
        d[i] = b'0' + (n % 10) as u8;
        n /= 10;
        if n == 0 {
            break;
        }
    }
    t.extend_from_slice(&d[i..]);
}
fn digits(b: &[u8]) -> usize {
    let mut n = 0;
    for c in b {
        if !c.is_ascii_digit() {
            return usize::MAX;
        }
        n = n * 10 + (*c - b'0') as usize;
    }
    if b.is_empty() { usize::MAX } else { n }
}
fn id_of(p: &Predicate<'_>) -> usize {
    let Predicate::Flag(f) = p else { return usize::MAX };
    let b = f.as_bytes();
    if b.is_empty() || b[0] != b'o' {
        return usize::MAX;
    }
    digits(&b[1..])
}
/// the number in an option of any of the kinds `Build` writes
fn number_of(p: &Predicate<'_>) -> usize {
    match p {
        Predicate::Flag(_) => id_of(p),
        Predicate::Feature(f) => digits(f.as_bytes()),
        Predicate::Target(TargetPredicate::Env(e)) => digits(e.as_str().as_bytes()),
        Predicate::KeyValue { val, .. } => digits(val.as_bytes()),
        _ => usize::MAX,
    }
}
struct Build {
    t: Vec<u8>,
    /// how an option's own value appears in its place: true = complemented
    flip: Vec<bool>,
}
impl Build {
    fn opt(&mut self, flip: bool) {
        let n = self.flip.len();
        // options of several kinds where the values do not matter
        let pre: &[u8] = if !matches!(prop(), 5 | 9 | 10 | 12) {
            b"o"
        } else {
            match n % 4 {
                0 => b"o",
                1 => b"feature=\"",
                2 => b"target_env=\"",
                _ => b"k=\"",
            }
        };
        self.t.extend_from_slice(pre);
        number(&mut self.t, n);
        if pre.len() > 1 {
            self.t.push(b'"');
        }
        self.flip.push(flip);
    }
}

/// params: 1 = list length, 2 = pattern of children (99: all of them), 3 = outer
/// function (0 all, 1 any), 4 = ending: 0 well formed, 1 unclosed, 2 one `)` too many,
/// 3 second root, 4 = inside `not(not(..))`, 5: not() of the list's items
pub fn wide() {
    let n = param(1) as usize;
    let pat = if param(2) == 99 { PATTERNS[choice(PATTERNS.len())] } else { PATTERNS[param(2) as usize] };
    let any = param(3) == 1;
    let mut b = Build { t: Vec::with_capacity(n * 8 + 64), flip: Vec::with_capacity(n + 8) };
    let end = param(4);
    b.t.extend_from_slice(match (end, any) {
        (4, false) => b"not(not(all(",
        (4, true) => b"not(not(any(",
        (5, _) => b"not(",
        (_, false) => b"all(",
        (_, true) => b"any(",
    });
    for i in 0..n {
        if i > 0 {
            b.t.push(b',');
        }
        match pat.as_bytes()[i % pat.len()] {
            b'f' => b.t.extend_from_slice(if any { b"any()" } else { b"all()" }),
            b'g' => {
                b.t.extend_from_slice(if any { b"any(" } else { b"all(" });
                b.opt(false);
                b.t.push(b')');
            }
            b'n' => {
                b.t.extend_from_slice(b"not(");
                b.opt(true);
                b.t.push(b')');
            }
            b'a' => {
                b.t.extend_from_slice(if any { b"all(" } else { b"any(" });
                b.opt(false);
                b.t.push(b',');
                b.opt(false);
                b.t.push(b')');
            }
            _ => b.opt(false),
        }
    }
    match end {
        0 | 5 => b.t.push(b')'),
        1 => {}
        2 => b.t.extend_from_slice(b"))"),
        3 => b.t.extend_from_slice(b"),any()"),
        _ => b.t.extend_from_slice(b")))"),
    }
    large(&b, any)
}

/// params: 1 = depth, 2 = shape of each level, 3 = 0 closed, 1 unclosed, 2 one too many
pub fn deep() {
    let d = param(1) as usize;
    let shape = param(2);
    let mut b = Build { t: Vec::with_capacity(d * 16 + 64), flip: Vec::with_capacity(d + 8) };
    let mut tails = Vec::with_capacity(d);
    let mut flip = false;
    for i in 0..d {
        match (shape, i % 3) {
            (0, _) | (2, 0) => {
                b.t.extend_from_slice(b"not(");
                flip = !flip;
                tails.push(0);
            }
            (1, _) => {
                b.t.extend_from_slice(if i % 2 == 0 { b"all(" } else { b"any(" });
                tails.push(0);
            }
            (2, 1) => {
                b.t.extend_from_slice(b"all(");
                b.opt(false);
                b.t.push(b',');
                tails.push(0);
            }
            _ => {
                b.t.extend_from_slice(b"any(");
                tails.push(1);
            }
        }
    }
    b.opt(flip);
    for (i, t) in tails.iter().rev().enumerate() {
        if param(3) == 1 && i == d / 2 {
            break;
        }
        if *t == 1 {
            b.t.push(b',');
            b.opt(true);
        }
        b.t.push(b')');
    }
    if param(3) == 2 {
        b.t.push(b')');
    }
    large(&b, false)
}

fn large(b: &Build, any: bool) {
    let s = unsafe { std::str::from_utf8_unchecked(&b.t) };
    match prop() {
        4 => return unknowns(b, s, any),
        5 => return listed(b, s),
        9 => return lexer_tiles(s),
        10 => return crate::wrap::transparent(s),
        11 => return crate::layout::spread(s),
        12 => return remembered(b, s),
        _ => {}
    }
    let r = Expression::parse(s);
    observe(r.is_ok() as u64);
    if prop() == 1 || prop() == 7 {
        match &r {
            Ok(e) => {
                cover(1);
                let mut k = 0;
                e.eval(|_| {
                    k += 1;
                    k % 2 == 0
                });
                chk(1, 1, e.predicates().count() == k);
                let c = e.clone();
                chk(1, 2, c == *e);
            }
            Err(e) => {
                cover(2);
                observe(reason_code(&e.reason));
                observe(e.span.start as u64);
                observe(e.span.end as u64);
                if prop() == 7 {
                    return error_renders(e, s);
                }
                chk(1, 3, e.to_string().len() > s.len());
            }
        }
        return;
    }
    let v = judge(s);
    match &r {
        Err(e) => {
            cover(2);
            observe(reason_code(&e.reason));
            chk(2, 2, !v.faults.is_empty());
            chk(8, 1, v.faults.is_empty() || error_fits(e, &v));
        }
        Ok(e) => {
            cover(1);
            chk(2, 1, v.faults.is_empty());
            if !v.faults.is_empty() || prop() != 3 {
                return;
            }
            let n = b.flip.len();
            // the neutral value everywhere, symbolic ones at these places
            let mut vals = Vec::with_capacity(n);
            for f in &b.flip {
                vals.push(if any == *f { 255u8 } else { 0 });
            }
            for k in [0, 1, 127, 128, 255, 256, n / 2, n.wrapping_sub(2), n.wrapping_sub(1)] {
                if k < n {
                    vals[k] = byte();
                }
            }
            let mut hits = vec![0u8; n];
            let mut stray = false;
            let got: L = e.eval(|p| {
                let i = id_of(p);
                if i >= n {
                    stray = true;
                    return Logic::top();
                }
                hits[i] += 1;
                leaf(vals[i], vals[i])
            });
            chk(3, 1, !stray);
            chk(3, 2, hits.iter().all(|h| *h == 1));
            chk(3, 3, got.n as usize == n);
            let first_at = |i: usize| {
                let (a, z) = v.opts[i].key;
                let mut x = 0;
                for c in &b.t[a + 1..z] {
                    x = x * 10 + (*c - b'0') as usize;
                }
                x
            };
            let want: L = meaning(&v.toks, &mut |i| {
                let k = first_at(i);
                leaf(vals[k], vals[k])
            });
            chk(3, 4, got.bits == want.bits);
            chk(3, 5, got.lat == want.lat);
            chk(3, 7, got.hey == want.hey);
            observe(got.bits as u64);
        }
    }
}

/// places with a symbolic value among n options
fn places(n: usize) -> [usize; 9] {
    [0, 1, 127, 128, 255, 256, n / 2, n.wrapping_sub(2), n.wrapping_sub(1)]
}

/// C04
fn unknowns(b: &Build, s: &str, any: bool) {
    let Ok(e) = Expression::parse(s) else {
        cover(2);
        return;
    };
    let v = judge(s);
    if !v.faults.is_empty() {
        return;
    }
    cover(1);
    let n = b.flip.len();
    // the neutral value everywhere, or unknown; and symbolic ones at some places
    let rest = choice(2) == 1;
    let mut vals = Vec::with_capacity(n);
    for f in &b.flip {
        vals.push(if rest { 2 } else if any == *f { 1u8 } else { 0 });
    }
    for (i, k) in places(n).iter().enumerate() {
        // a few at a time
        if *k < n && if n > 1000 { i == 8 } else { i % 3 == (n + rest as usize) % 3 } {
            let x = byte();
            assume(x < 3);
            vals[*k] = x;
        }
    }
    let at = |p: &Predicate<'_>| {
        let i = id_of(p);
        if i < n { opt3(vals[i]) } else { None }
    };
    let got: Option<bool> = e.eval(|p| at(p));
    let want: Kl = meaning(&v.toks, &mut |i| kl(opt3(vals[i])));
    let g = kl(got);
    chk(4, 1, (g.0 == want.0) & (g.1 == want.1));
    observe(match got { None => 2, Some(b) => b as u64 });
    if !rest {
        // any way of resolving the unknowns agrees with an answer that is known
        let r: bool = e.eval(|p| at(p).unwrap_or(id_of(p) % 2 == 0));
        chk(4, 2, got.is_none() || got == Some(r));
    }
}

/// C05
fn listed(b: &Build, s: &str) {
    let Ok(e) = Expression::parse(s) else {
        cover(2);
        return;
    };
    let v = judge(s);
    if !v.faults.is_empty() {
        return;
    }
    cover(1);
    let n = b.flip.len();
    let mut hits = vec![0u8; n];
    let mut right = v.opts.len() == n;
    let mut k = 0;
    let mut listed = e.predicates();
    let mut same = true;
    let _: bool = e.eval(|q| {
        let i = number_of(q);
        if i < n && right {
            hits[i] += 1;
            right = pred_is(q, s, v.opts[i]);
        } else {
            right = false;
        }
        same = same && listed.next().as_ref() == Some(q);
        k += 1;
        k % 2 == 0
    });
    same = same && listed.next().is_none();
    chk(5, 10, hits.iter().all(|h| *h == 1));
    chk(5, 13, right);
    chk(5, 11, same);
    chk(5, 12, k == n);
}

/// C12
fn remembered(b: &Build, s: &str) {
    let Ok(e) = Expression::parse(s) else {
        cover(2);
        return;
    };
    cover(1);
    chk(12, 1, eq(e.original().as_bytes(), s.as_bytes()));
    let n = b.flip.len();
    let mut vals = vec![170u8; n];
    for k in places(n) {
        if k < n {
            vals[k] = byte();
        }
    }
    let value = |e: &Expression| -> L {
        e.eval(|p| {
            let i = number_of(p);
            if i < n { leaf(vals[i], vals[i]) } else { Logic::top() }
        })
    };
    let want = value(&e);
    let same = |o: &Expression| {
        let got = value(o);
        got.bits == want.bits && got.lat == want.lat && got.hey == want.hey && got.n == want.n
    };
    let c = e.clone();
    chk(12, 8, c == e);
    chk(12, 9, eq(c.original().as_bytes(), s.as_bytes()));
    chk(12, 10, c.predicates().eq(e.predicates()));
    chk(12, 11, same(&c));
    let Ok(a) = Expression::parse(e.original()) else {
        chk(12, 7, false);
        return;
    };
    chk(12, 3, a == e);
    chk(12, 4, a.predicates().eq(e.predicates()));
    chk(12, 5, same(&a));
}
