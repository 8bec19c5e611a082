//! C11: white space between tokens and trailing commas.
use crate::{spec::*, toks::*, *};
use cfg_expr::{Expression, expr::Predicate};

const WS: &[&[u8; 3]] = &[
    b"   ", b"\t\n\r", b"\x0b\x0c ", "\u{85} ".as_bytes().first_chunk().unwrap(), "\u{a0} ".as_bytes().first_chunk().unwrap(),
    "\u{1680}".as_bytes().first_chunk().unwrap(), "\u{2000}".as_bytes().first_chunk().unwrap(), "\u{2003}".as_bytes().first_chunk().unwrap(),
    "\u{200a}".as_bytes().first_chunk().unwrap(), "\u{2028}".as_bytes().first_chunk().unwrap(), "\u{2029}".as_bytes().first_chunk().unwrap(),
    "\u{202f}".as_bytes().first_chunk().unwrap(), "\u{205f}".as_bytes().first_chunk().unwrap(), "\u{3000}".as_bytes().first_chunk().unwrap(),
];
fn filler(out: &mut Vec<u8>) {
    let mut tab = [[b' '; 3]; 16];
    for (r, s) in tab.iter_mut().zip(WS) {
        *r = **s;
    }
    let t = byte();
    assume((t as usize) < WS.len());
    for j in 0..3 {
        out.push(tab[(t & 15) as usize][j]);
    }
}
fn same(n: u32, a: &Expression, b: &Expression) {
    let p: Vec<Predicate<'_>> = a.predicates().collect();
    let q: Vec<Predicate<'_>> = b.predicates().collect();
    chk(11, n, p == q);
    let mut vals = [0u8; 40];
    bytes(&mut vals[..p.len().min(40)]);
    let run = |e: &Expression| {
        let mut i = 0;
        e.eval(|_| {
            let v = vals[i % 40];
            i += 1;
            leaf(v, v)
        })
    };
    let (x, y) = (run(a), run(b));
    chk(11, n + 1, x.bits == y.bits);
    chk(11, n + 2, x.lat == y.lat);
    chk(11, n + 3, x.hey == y.hey);
}
pub fn layout(s: &str, k: usize, _n: usize) {
    let base = Expression::parse(s);
    let b = s.as_bytes();
    let mut t = Vec::with_capacity(b.len() + 16);
    match &base {
        Err(_) => {
            cover(2);
            if param(4) == 1 {
                return;
            }
        }
        Ok(_) => cover(1),
    }
    let shape = choice(if base.is_ok() { 3 } else { 1 });
    match shape {
        0 => {
            // other white space in one gap
            let gap = choice(k + 1);
            t.extend_from_slice(&b[..gap * W]);
            filler(&mut t);
            t.extend_from_slice(&b[gap * W..]);
            cover(3);
        }
        1 => {
            // no white space at all, except between two words
            let mut word = false;
            for i in 0..k {
                let s = &b[i * W..i * W + W];
                let w = concretize(s[0] as u64) as u8;
                let w = w.is_ascii_alphabetic();
                if word && w {
                    t.push(b' ');
                }
                word = w;
                for c in s {
                    let c = concretize(*c as u64) as u8;
                    if c != b' ' {
                        t.push(c);
                    }
                }
            }
            cover(4);
        }
        _ => {
            // a trailing comma in one list that has none (or at the root)
            let v = judge(s);
            if !v.faults.is_empty() {
                return;
            }
            let at = choice(v.toks.len() + 1);
            if at == 0 {
                return;
            }
            let before = v.toks[at - 1];
            let closes = at == v.toks.len() || v.toks[at].k == K::RP;
            if !closes || before.k == K::Comma || before.k == K::LP {
                return;
            }
            t.extend_from_slice(&b[..before.b]);
            t.push(b',');
            t.extend_from_slice(&b[before.b..]);
            cover(5);
        }
    }
    let s2 = unsafe { std::str::from_utf8_unchecked(&t) };
    let other = Expression::parse(s2);
    match (&base, &other) {
        (Ok(a), Ok(b)) => {
            cover(6);
            same(shape as u32 * 10 + 1, a, b)
        }
        (Err(_), Err(_)) => {}
        _ => chk(11, shape as u32 * 10 + 9, false),
    }
    chk(11, shape as u32 * 10 + 5, base.is_ok() == other.is_ok());
}

/// params: 1 = corpus index (99: all), 2 = bytes of white space, 3 = 0 insert at a
/// token boundary, 1 replace the white space of a gap, 2 add a trailing comma, 3 remove one,
/// 4 = further white space behind it
pub fn gaps() {
    let c = if param(1) == 99 { crate::edit::CORPUS[choice(crate::edit::CORPUS.len())] } else { crate::edit::CORPUS[param(1) as usize] };
    let base = Expression::parse(c);
    let s = strip(c);
    let off = if s.len() == c.len() { 0 } else { 4 };
    let (toks, err) = lex(s);
    if err.is_some() {
        return;
    }
    let n = param(2) as usize;
    let at = choice(toks.len() + 1);
    let lo = if at == 0 { 0 } else { toks[at - 1].b };
    let hi = if at == toks.len() { s.len() } else { toks[at].a };
    let c = c.as_bytes();
    let mut t = Vec::with_capacity(c.len() + 16);
    match param(3) {
        0 | 1 => {
            // keep what is there, or replace it
            let (lo, hi) = if param(3) == 0 { (hi, hi) } else { (lo, hi) };
            t.extend_from_slice(&c[..off + lo]);
            let a = t.len();
            t.resize(a + n, 0);
            bytes(&mut t[a..]);
            let Ok(w) = std::str::from_utf8(&t[a..]) else { return };
            // white space by this specification only
            let mut i = 0;
            while i < n {
                let l = w[i..].chars().next().map_or(1, char::len_utf8);
                assume(is_ws(w.as_bytes(), i, l));
                i += l;
            }
            for i in 0..param(4) {
                t.extend_from_slice(if i % 2 == 0 { b" " } else { "\u{2003}".as_bytes() });
            }
            t.extend_from_slice(&c[off + hi..]);
            if n == 0 && at > 0 && at < toks.len() {
                let word = |k: K| matches!(k, K::Key | K::All | K::Any | K::Not);
                if word(toks[at - 1].k) && word(toks[at].k) {
                    return;
                }
            }
        }
        2 => {
            if at == 0 || base.is_err() {
                return;
            }
            let (k, closes) = (toks[at - 1].k, at == toks.len() || toks[at].k == K::RP);
            if !closes || k == K::Comma || k == K::LP {
                return;
            }
            t.extend_from_slice(&c[..off + lo]);
            t.push(b',');
            t.extend_from_slice(&c[off + lo..]);
        }
        _ => {
            if at == 0 || base.is_err() || toks[at - 1].k != K::Comma || !(at == toks.len() || toks[at].k == K::RP) {
                return;
            }
            t.extend_from_slice(&c[..off + lo - 1]);
            t.extend_from_slice(&c[off + lo..]);
        }
    }
    let Ok(s2) = std::str::from_utf8(&t) else { return };
    let other = Expression::parse(s2);
    cover(7);
    observe(base.is_ok() as u64);
    chk(11, 41, base.is_ok() == other.is_ok());
    if let (Ok(a), Ok(b)) = (&base, &other) {
        cover(8);
        same(42, a, b);
    }
}

/// a large text: white space in one gap or in all of them, or a trailing comma
pub fn spread(s: &str) {
    let base = Expression::parse(s);
    let (toks, err) = lex(s);
    if err.is_some() {
        return;
    }
    let b = s.as_bytes();
    let n = toks.len();
    let mut t = Vec::with_capacity(b.len() * 3 + 16);
    let spots = [0, 1, 2, 3, n / 2, n / 2 + 1, n - 2, n - 1, n];
    let shape = choice(3);
    match shape {
        0 => {
            let k = spots[choice(spots.len())];
            let at = if k < n { toks[k].a } else { s.len() };
            t.extend_from_slice(&b[..at]);
            if n > 5000 { t.extend_from_slice(WS[k % WS.len()]) } else { filler(&mut t) }
            t.extend_from_slice(&b[at..]);
        }
        1 => {
            for x in &toks {
                t.push(if x.a % 2 == 0 { b' ' } else { b'\n' });
                t.extend_from_slice(&b[x.a..x.b]);
            }
        }
        _ => {
            // before the first, the last and a middle `)`
            let mid = toks.iter().skip(n / 2).position(|x| x.k == K::RP).map_or(n - 1, |i| i + n / 2);
            let k = [toks.iter().position(|x| x.k == K::RP).unwrap_or(n - 1), mid, n - 1][choice(3)];
            if base.is_err() || k == 0 || toks[k].k != K::RP || matches!(toks[k - 1].k, K::Comma | K::LP) {
                return;
            }
            t.extend_from_slice(&b[..toks[k].a]);
            t.push(b',');
            t.extend_from_slice(&b[toks[k].a..]);
        }
    }
    let s2 = unsafe { std::str::from_utf8_unchecked(&t) };
    let other = Expression::parse(s2);
    cover(7);
    observe(base.is_ok() as u64);
    chk(11, 41, base.is_ok() == other.is_ok());
    if let (Ok(a), Ok(b)) = (&base, &other) {
        cover(8);
        same(42, a, b);
    }
}
