//! Realistic expressions with a window of arbitrary bytes anywhere in them.
use crate::{spec::*, text::*, toks::*, *};
use cfg_expr::{Expression, expr::{Logic, Predicate}};

pub const CORPUS: &[&str] = &[
    "cfg(all(unix, not(target_os = \"macos\")))",
    "any(target_arch = \"x86\",windows,  panic=\"abort\",)",
    "all(feature = \"std\", not(any(test, doc, miri)), unix)",
    "not(all(not(not(unix)), foo = \"\u{e9}\u{1F600}\"))",
    "cfg(target_pointer_width = \"64\")",
    "target_has_atomic = \"128\"",
    "all(any(),all(any(unix)),not(any(all(),a,b)))",
    "cfg(any(target_endian = \"big\", target_feature=\"sse4.2\"),)",
    "all(\u{3000}debug_assertions\u{a0},\n\tproc_macro, target_abi\t=\"\", target_family = \"wasm\")",
    "unix",
    "cfg(windows,)",
    "any(all(k = \"v\", k), all(k, k = \"v\"), not(k = \"w\"))",
    "target_vendor = \"a\" , target_env = \"b\"",
    "any(any(any(any(any(a,b),c),d),e,),f",
    "all(unix))",
    "not(a,b,not(c,d))",
    "all((a,b)",
    "unix windows = \"10\"",
];

/// params: 1 = corpus index (99: all), 2 = window size, 3 = 0 replace, 1 insert, 2 delete
pub fn edit() {
    let c = if param(1) == 99 { CORPUS[choice(CORPUS.len())] } else { CORPUS[param(1) as usize] }.as_bytes();
    let w = param(2) as usize;
    let mut t: Vec<u8> = Vec::with_capacity(c.len() + 16);
    match param(3) {
        0 => {
            let at = choice(c.len() + 1 - w);
            t.extend_from_slice(c);
            bytes(&mut t[at..at + w]);
        }
        1 => {
            let at = choice(c.len() + 1);
            t.extend_from_slice(&c[..at]);
            t.resize(at + w, 0);
            bytes(&mut t[at..]);
            t.extend_from_slice(&c[at..]);
        }
        _ => {
            let at = choice(c.len() + 1 - w);
            t.extend_from_slice(&c[..at]);
            t.extend_from_slice(&c[at + w..]);
        }
    }
    let Ok(s) = std::str::from_utf8(&t) else { return };
    any_text(s);
}
pub fn any_text(s: &str) {
    match prop() {
        3 | 4 => values_of(s),
        10 => crate::wrap::transparent(s),
        6 => crate::opts::check_option(s),
        _ => check_text(s),
    }
}

/// C03, C04 for an expression with any predicates: equal predicates get equal values
pub fn values_of(s: &str) {
    let Ok(e) = Expression::parse(s) else {
        cover(2);
        return;
    };
    let t = strip(s);
    let v = judge(t);
    if !v.faults.is_empty() {
        return;
    }
    cover(1);
    let listed: Vec<Predicate<'_>> = e.predicates().collect();
    let n = listed.len();
    if n > 16 || n != v.opts.len() {
        chk(3, 30, n == v.opts.len());
        return;
    }
    let mut of = [99usize; 16];
    let mut count = [0u8; 16];
    for i in 0..n {
        let Some(j) = listed.iter().position(|q| pred_is(q, t, v.opts[i])) else {
            chk(3, 31, false);
            return;
        };
        of[i] = j;
        count[j] += 1;
    }
    let find = |p: &Predicate<'_>| listed.iter().position(|q| q == p).unwrap_or(15);
    if prop() == 3 {
        let mut vals = [0u8; 16];
        bytes(&mut vals[..n]);
        let mut hits = [0u8; 16];
        let got: L = e.eval(|p| {
            let j = find(p);
            hits[j] += 1;
            leaf(vals[j], vals[j])
        });
        chk(3, 32, hits == count);
        let want: L = meaning(&v.toks, &mut |i| leaf(vals[of[i]], vals[of[i]]));
        chk(3, 33, got.n == want.n);
        chk(3, 34, got.bits == want.bits);
        chk(3, 35, got.lat == want.lat);
        chk(3, 36, got.hey == want.hey);
        observe(got.bits as u64);
        return;
    }
    let mut vals = [2u8; 16];
    for j in 0..n {
        let x = byte();
        assume(x < 3);
        vals[j] = x;
    }
    let got: Option<bool> = e.eval(|p| opt3(vals[find(p)]));
    let want: Kl = meaning(&v.toks, &mut |i| {
        let x = vals[of[i]];
        Kl(x != 0, x != 1)
    });
    let g = kl(got);
    chk(4, 1, (g.0 == want.0) & (g.1 == want.1));
    observe(match got { None => 2, Some(b) => b as u64 });
    let _ = <bool as Logic>::top();
}
