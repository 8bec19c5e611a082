//! What error messages say (C26).
use crate::{spec::{self, eq, Kind}, targets::word, *};
use cfg_expr::{error::{ParseError, Reason}, targets::Endian, Expression};

/// the pieces of a message between back-ticks
fn quoted(m: &[u8]) -> Option<Vec<&[u8]>> {
    let mut l = Vec::new();
    let mut open = None;
    for i in 0..m.len() {
        if m[i] == b'`' {
            match open.take() {
                None => open = Some(i + 1),
                Some(a) => l.push(&m[a..i]),
            }
        }
    }
    if open.is_some() { None } else { Some(l) }
}
/// the numbers in a message
fn numbers(m: &[u8]) -> Vec<u64> {
    let mut l = Vec::new();
    let mut cur: Option<u64> = None;
    for c in m {
        if c.is_ascii_digit() {
            cur = Some(cur.unwrap_or(0).wrapping_mul(10).wrapping_add((*c - b'0') as u64));
        } else if let Some(n) = cur.take() {
            l.push(n);
        }
    }
    l.extend(cur);
    l
}
fn one_line(m: &str) -> bool {
    !m.is_empty() && m.bytes().all(|c| c != b'\n')
}
/// params: 1 = number of items, 2 = their length
fn items(n: usize, len: usize) {
    let mut l: Vec<&'static str> = Vec::new();
    for _ in 0..n {
        let s = word(len);
        for c in s.bytes() {
            assume(c != b'`' && c != b'\n');
        }
        l.push(Box::leak(s.into_boxed_str()));
    }
    let l: &'static [&'static str] = Box::leak(l.into_boxed_slice());
    let m = Reason::Unexpected(l).to_string();
    cover(1);
    observe(m.len() as u64);
    chk(26, 1, one_line(&m));
    let q = quoted(m.as_bytes());
    chk(26, 2, match q {
        None => false,
        Some(q) => q.len() == n && {
            let mut r = true;
            for (a, b) in q.iter().zip(l) {
                r &= eq(a, b.as_bytes());
            }
            r
        },
    });
}
/// params: 2 = low bytes of the number that are not determined, 3 = what is above the lowest one
fn count(n: usize, above: usize) {
    let mut v = above << 8;
    for i in 0..n {
        v |= (byte() as usize) << (8 * i);
    }
    let m = Reason::InvalidNot(v).to_string();
    cover(2);
    observe(m.len() as u64);
    chk(26, 3, one_line(&m));
    let l = numbers(m.as_bytes());
    chk(26, 4, l.len() == 2 && l[0] == 1 && l[1] == v as u64);
}
fn kinds() {
    let of = |k: usize| match k {
        11 => Reason::Unexpected(&[]),
        12 => Reason::Unexpected(&["<key>"]),
        13 => Reason::Unexpected(&["<key>", "all"]),
        _ => crate::whole::reason(k, 2),
    };
    let (j, k) = (choice(14), choice(14));
    let (a, b) = (of(j), of(k));
    let (x, y) = (a.to_string(), b.to_string());
    cover(3);
    chk(26, 5, one_line(&x));
    chk(26, 6, (x == y) == (j == k));
    let e = |r| ParseError { original: String::new(), span: 0..0, reason: r };
    let (a, b) = (e(a), e(b));
    #[allow(deprecated)]
    let (x, y) = (std::error::Error::description(&a), std::error::Error::description(&b));
    chk(26, 7, one_line(x));
    chk(26, 8, (x == y) == (j.min(11) == k.min(11)));
}
/// the names offered for a bad endianness
fn endian(n: usize) {
    let s = word(n);
    let r: Result<Endian, Reason> = s.parse();
    if let Err(r) = r {
        cover(4);
        match r {
            Reason::Unexpected(l) => {
                chk(26, 9, l.len() == 2 && l.contains(&"big") && l.contains(&"little"));
            }
            _ => chk(26, 9, false),
        }
    }
}
/// the options offered for an unknown target option of n bytes behind `target_`
fn options(n: usize) {
    let s = word(n);
    for c in s.bytes() {
        assume(c.is_ascii_alphanumeric() || c == b'_');
    }
    let t = format!("target_{s} = \"1\"");
    let known = spec::kind(&t.as_bytes()[..7 + n]);
    if !matches!(known, Kind::UnknownTarget) {
        return;
    }
    match Expression::parse(&t) {
        Err(ParseError { reason: Reason::Unexpected(l), .. }) => {
            cover(5);
            chk(26, 10, !l.is_empty());
            for (i, o) in l.iter().enumerate() {
                chk(26, 11, o.starts_with("target_") && !matches!(spec::kind(o.as_bytes()), Kind::UnknownTarget | Kind::Other));
                chk(26, 12, !l[..i].contains(o));
            }
        }
        _ => chk(26, 10, false),
    }
}
/// params: 1 = what, 2, 3 = sizes
pub fn messages() {
    let (n, m) = (param(2) as usize, param(3) as usize);
    match param(1) {
        0 => items(n, m),
        1 => count(n, m),
        2 => kinds(),
        3 => endian(n),
        _ => options(n),
    }
}
