//! C10 (the wrapper is transparent) and C12 (equality of expressions).
use crate::{spec::*, toks::*, *};
use cfg_expr::{Expression, ParseError, expr::Predicate};

fn same_reason(a: &cfg_expr::error::Reason, b: &cfg_expr::error::Reason) -> bool {
    a == b
}
pub fn same_error(p: u64, n: u32, a: &ParseError, b: &ParseError) {
    chk(p, n, eq(a.original.as_bytes(), b.original.as_bytes()));
    chk(p, n + 1, a.span.start == b.span.start && a.span.end == b.span.end);
    chk(p, n + 2, same_reason(&a.reason, &b.reason));
    chk(p, n + 3, a == b);
}
pub fn same_expr(p: u64, n: u32, a: &Expression, b: &Expression) {
    chk(p, n, eq(a.original().as_bytes(), b.original().as_bytes()));
    chk(p, n + 1, a == b);
    let x: Vec<Predicate<'_>> = a.predicates().collect();
    let y: Vec<Predicate<'_>> = b.predicates().collect();
    chk(p, n + 2, x == y);
    let mut vals = [0u8; 40];
    bytes(&mut vals[..x.len().min(40)]);
    let run = |e: &Expression| {
        let mut i = 0;
        let mut seen = Vec::with_capacity(8);
        let v = e.eval(|q| {
            let v = vals[i % 40];
            i += 1;
            seen.push(pred_code(q));
            leaf(v, v)
        });
        (v, seen)
    };
    let ((u, s), (v, t)) = (run(a), run(b));
    chk(p, n + 3, u.bits == v.bits);
    chk(p, n + 4, u.lat == v.lat);
    chk(p, n + 5, u.n == v.n && u.hey == v.hey);
    chk(p, n + 6, s == t);
}
fn wrapped(t: &str) -> String {
    let mut w = String::with_capacity(t.len() + 8);
    w.push_str("cfg(");
    w.push_str(t);
    w.push(')');
    w
}
pub fn transparent(t: &str) {
    let w = wrapped(t);
    let b = Expression::parse(&w);
    let bare = strip(t).len() == t.len();
    if !bare {
        // exactly one wrapper goes away; what is left keeps its own
        cover(3);
        match &b {
            Ok(e) => chk(10, 20, eq(e.original().as_bytes(), t.as_bytes())),
            Err(e) => chk(10, 21, eq(e.original.as_bytes(), t.as_bytes())),
        }
        return;
    }
    let a = Expression::parse(t);
    match (&a, &b) {
        (Ok(a), Ok(b)) => {
            cover(1);
            observe(1);
            chk(10, 1, eq(a.original().as_bytes(), t.as_bytes()));
            same_expr(10, 2, a, b);
        }
        (Err(a), Err(b)) => {
            cover(2);
            observe(reason_code(&a.reason));
            observe(a.span.start as u64);
            chk(10, 10, eq(a.original.as_bytes(), t.as_bytes()));
            same_error(10, 11, a, b);
        }
        _ => chk(10, 19, false),
    }
}
/// params: 1 = bytes, 2 = shape: 0 any bytes, 1 `cfg(`T`)` as T (two wrappers in
/// all), 2 `cfg(`T, 3 T`)`, 4 `cfg`T`)`, 5 one byte of `cfg(a)` replaced, 6 one inserted
/// before/in/after `cfg(a)`, 7 `cfg(a)` with one byte removed
pub fn wrap() {
    let n = param(1) as usize;
    let mut t: Vec<u8> = Vec::with_capacity(n + 16);
    let sym = |t: &mut Vec<u8>| {
        let at = t.len();
        t.resize(at + n, 0);
        bytes(&mut t[at..]);
    };
    const C: &[u8] = b"cfg(a)";
    match param(2) {
        0 => sym(&mut t),
        1 => {
            t.extend_from_slice(b"cfg(");
            sym(&mut t);
            t.push(b')');
        }
        2 => {
            t.extend_from_slice(b"cfg(");
            sym(&mut t);
        }
        3 => {
            sym(&mut t);
            t.push(b')');
        }
        4 => {
            t.extend_from_slice(b"cfg");
            sym(&mut t);
            t.push(b')');
        }
        5 => {
            t.extend_from_slice(C);
            let i = choice(C.len());
            t[i] = byte();
            sym(&mut t);
        }
        6 => {
            let i = choice(C.len() + 1);
            t.extend_from_slice(&C[..i]);
            sym(&mut t);
            t.extend_from_slice(&C[i..]);
        }
        _ => {
            let i = choice(C.len());
            t.extend_from_slice(&C[..i]);
            t.extend_from_slice(&C[i + 1..]);
            sym(&mut t);
        }
    }
    let Ok(s) = std::str::from_utf8(&t) else { return };
    transparent(s);
}

/// params: 1, 2 = symbolic bytes of the two texts, 3 = what stands around them: 8 a long list
/// in front, 9 behind, 10 a realistic text (which: param 1) and itself with one byte replaced,
/// 4 = items of the list
pub fn equal() {
    let mut ts: [Vec<u8>; 2] = [Vec::with_capacity(64), Vec::with_capacity(64)];
    if param(3) >= 8 {
        far_apart(&mut ts);
        return same_or_not(&ts);
    }
    let around: [(&str, &str); 2] = match param(3) {
        0 => [("", ""), ("", "")],
        1 => [("cfg(", ")"), ("", "")],
        2 => [("k=\"", "\""), ("k=\"", "\"")],
        3 => [("all(", ")"), ("all(", ")")],
        4 => [("any(a,", ")"), ("cfg(any(a,", "))")],
        5 => [("all(a", ")"), ("all(a", ")")],
        6 => [("unix", ""), ("", "unix")],
        _ => [("target_os = \"", "\""), ("target_os = \"", "\"")],
    };
    for i in 0..2 {
        let t = &mut ts[i];
        t.extend_from_slice(around[i].0.as_bytes());
        let at = t.len();
        t.resize(at + param(1 + i as u64) as usize, 0);
        bytes(&mut t[at..]);
        t.extend_from_slice(around[i].1.as_bytes());
    }
    same_or_not(&ts)
}

fn far_apart(ts: &mut [Vec<u8>; 2]) {
    let n = param(4) as usize;
    let i = if param(3) == 10 { choice(crate::edit::CORPUS[param(1) as usize].len()) } else { 0 };
    for j in 0..2 {
        let t = &mut ts[j];
        let w = param(1 + j as u64) as usize;
        match param(3) {
            8 => {
                t.extend_from_slice(b"all(");
                for _ in 0..n {
                    t.extend_from_slice(b"some_option,");
                }
                let at = t.len();
                t.resize(at + w, 0);
                bytes(&mut t[at..]);
                t.push(b')');
            }
            9 => {
                t.extend_from_slice(b"all(a");
                let at = t.len();
                t.resize(at + w, 0);
                bytes(&mut t[at..]);
                for _ in 0..n {
                    t.extend_from_slice(b",some_option");
                }
                t.push(b')');
            }
            _ => {
                t.extend_from_slice(crate::edit::CORPUS[param(1) as usize].as_bytes());
                if j == 1 {
                    t[i] = byte();
                }
            }
        }
    }
}

fn same_or_not(ts: &[Vec<u8>; 2]) {
    let Ok(a) = std::str::from_utf8(&ts[0]) else { return };
    let Ok(ea) = Expression::parse(a) else { return };
    let Ok(b) = std::str::from_utf8(&ts[1]) else { return };
    let Ok(eb) = Expression::parse(b) else { return };
    let same = eq(strip(a).as_bytes(), strip(b).as_bytes());
    observe(same as u64);
    if same {
        cover(3);
    } else {
        cover(4);
    }
    chk(12, 20, (ea == eb) == same);
    chk(12, 21, (eb == ea) == same);
    chk(12, 22, (ea != eb) != same);
    if same {
        chk(12, 23, ea.predicates().eq(eb.predicates()));
    }
}
