//! One option with a symbolic name and value, in several places of an expression.
use crate::{spec::*, text::*, *};
use cfg_expr::Expression;

pub const KEYS: &[&str] = &[
    "unix", "windows", "test", "debug_assertions", "proc_macro", "feature", "panic", "target_abi", "target_arch", "target_endian",
    "target_env", "target_family", "target_feature", "target_has_atomic", "target_os", "target_pointer_width", "target_vendor",
    // not special
    "target_", "target_thread_local", "target_has_atomic_load_store", "target_widget", "target", "foo", "Unix", "wasm", "clippy", "true", "allx",
    "anyone", "nota", "cfg", "features", "tests", "panics", "a",
];

/// params: 1 = name: 0 listed, 1 one byte of it arbitrary, 2 an arbitrary byte
/// inserted, 3 one byte removed, 4 all bytes arbitrary (param 4 many; more than 5: of `[A-Za-z0-9_]`);
/// 2 = place (9: the six where it belongs, 10: eight others); 3 = value bytes (99: no value; 100 + n: n printable ASCII ones); 4 = name bytes
pub fn option() {
    let mode = param(1);
    let place = match param(2) {
        9 => choice(6),
        10 => 6 + choice(8),
        p => p as usize,
    };
    let mut k: Vec<u8> = Vec::with_capacity(40);
    if mode == 4 {
        k.resize(param(4) as usize, 0);
        bytes(&mut k);
        if k.len() > 5 {
            // longer names: characters of names only
            for c in &k {
                let c = *c;
                assume(((c >= b'a') & (c <= b'z')) | ((c >= b'A') & (c <= b'Z')) | ((c >= b'0') & (c <= b'9')) | (c == b'_'));
            }
        }
    } else {
        let w = KEYS[if param(5) > 0 { param(5) as usize - 1 } else { choice(KEYS.len()) }].as_bytes();
        if param(3) > 100 && matches!(w, b"target_has_atomic" | b"target_pointer_width") {
            // numbers that long are costly to decide
            return;
        }
        match mode {
            0 => k.extend_from_slice(w),
            1 => {
                k.extend_from_slice(w);
                let i = choice(w.len());
                k[i] = byte();
            }
            2 => {
                let i = choice(w.len() + 1);
                k.extend_from_slice(&w[..i]);
                k.push(byte());
                k.extend_from_slice(&w[i..]);
            }
            _ => {
                let i = choice(w.len());
                k.extend_from_slice(&w[..i]);
                k.extend_from_slice(&w[i + 1..]);
            }
        }
    }
    let mut t: Vec<u8> = Vec::with_capacity(96);
    let (pre, post): (&str, &str) = match place {
        0 => ("", ""),
        1 => ("not(", ")"),
        2 => ("all( x,", ", )"),
        3 => ("cfg(any(", ", y = \"\") )"),
        4 => ("any(not(z),", " ,all())"),
        // where no option may stand, or one that is cut short
        6 => ("", "(a)"),
        7 => ("all(", "(\"1.0\"))"),
        8 => ("any(", "(os = \"b\"),c)"),
        9 => ("a ", " b"),
        10 => ("all(x = ", ")"),
        11 => ("", " ="),
        12 => ("not", ""),
        13 => ("\"v\" = ", ""),
        _ => ("  ", ","),
    };
    t.extend_from_slice(pre.as_bytes());
    t.extend_from_slice(&k);
    let plain = param(3) > 100;
    let vl = param(3) as usize - if plain { 100 } else { 0 };
    if vl != 99 {
        t.extend_from_slice(b" =\"");
        let at = t.len();
        t.resize(at + vl, 0);
        bytes(&mut t[at..]);
        if plain {
            for c in &t[at..] {
                let c = *c;
                assume((c >= b' ') & (c <= b'~') & (c != b'"'));
            }
        }
        t.push(b'"');
    }
    t.extend_from_slice(post.as_bytes());
    if (plain || vl == 99) && (mode == 0 || mode == 4 && k.len() > 5) {
        // ASCII
        return check_option(unsafe { std::str::from_utf8_unchecked(&t) });
    }
    let Ok(s) = std::str::from_utf8(&t) else { return };
    check_option(s);
}
pub fn check_option(s: &str) {
    let p = prop();
    if p != 6 && p != 5 {
        return crate::edit::any_text(s);
    }
    let r = Expression::parse(s);
    let t = strip(s);
    let v = judge(t);
    match &r {
        Ok(e) => {
            cover(1);
            if p == 6 {
                chk(6, 1, v.faults.is_empty());
            }
            if v.faults.is_empty() {
                for o in &v.opts {
                    let (k, _) = opt_err(t.as_bytes(), *o);
                    cover(30 + k as u32);
                }
                options_reported(p, e, t, &v);
            }
        }
        Err(e) => {
            cover(2);
            observe(reason_code(&e.reason));
            observe(e.span.start as u64);
            for f in &v.faults {
                cover(fault_cover(f.k));
                if let FK::Opt(x) = f.k {
                    cover(60 + x as u32);
                }
            }
            if p == 6 {
                chk(6, 2, !v.faults.is_empty());
            }
        }
    }
}

/// two options whose names and values may be equal, in one list
pub fn pair() {
    let mut t: Vec<u8> = Vec::with_capacity(64);
    let (n, m) = (param(1) as usize, param(2) as usize);
    t.extend_from_slice(b"any(");
    for i in 0..2 {
        t.extend_from_slice(if i == 0 { b"k = \"" } else { b"k=\"" });
        let at = t.len();
        t.resize(at + if i == 0 { n } else { m }, 0);
        bytes(&mut t[at..]);
        t.extend_from_slice(b"\",");
    }
    t.extend_from_slice(b"not(feature=\"f\"))");
    let Ok(s) = std::str::from_utf8(&t) else { return };
    check_option(s);
}
