//! The reference: the documented cfg language, written from the properties and
//! sharing no code with the crate.
use cfg_expr::{
    error::{ParseError, Reason},
    expr::{Predicate, TargetPredicate as TP},
    targets::{Endian, HasAtomic},
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Key,
    Val,
    Eq,
    All,
    Any,
    Not,
    LP,
    RP,
    Comma,
}
/// a token and its bytes (a value with its quotes)
#[derive(Clone, Copy, Debug)]
pub struct Tok {
    pub k: K,
    pub a: usize,
    pub b: usize,
}
#[derive(Clone, Copy, Debug)]
pub enum LexErr {
    Quote(usize),
    Char(usize, usize),
}

/// exactly one enclosing `cfg(` `)` is removed
pub fn strip(t: &str) -> &str {
    let b = t.as_bytes();
    let n = b.len();
    if n >= 5 && b[0] == b'c' && b[1] == b'f' && b[2] == b'g' && b[3] == b'(' && b[n - 1] == b')' {
        &t[4..n - 1]
    } else {
        t
    }
}
fn char_len(b0: u8) -> usize {
    if b0 < 0x80 {
        1
    } else if b0 < 0xe0 {
        2
    } else if b0 < 0xf0 {
        3
    } else {
        4
    }
}
/// is the character at i white space (Unicode White_Space)?
pub fn is_ws(b: &[u8], i: usize, len: usize) -> bool {
    match len {
        1 => ((b[i] >= 9) & (b[i] <= 13)) | (b[i] == 32),
        2 => (b[i] == 0xc2) & ((b[i + 1] == 0x85) | (b[i + 1] == 0xa0)),
        3 => {
            let (x, y, z) = (b[i], b[i + 1], b[i + 2]);
            ((x == 0xe1) & (y == 0x9a) & (z == 0x80))
                | ((x == 0xe2)
                    & (((y == 0x80)
                        & (((z >= 0x80) & (z <= 0x8a)) | (z == 0xa8) | (z == 0xa9) | (z == 0xaf)))
                        | ((y == 0x81) & (z == 0x9f))))
                | ((x == 0xe3) & (y == 0x80) & (z == 0x80))
        }
        _ => false,
    }
}
fn ident_start(c: u8) -> bool {
    ((c >= b'a') & (c <= b'z')) | ((c >= b'A') & (c <= b'Z')) | (c == b'_')
}
fn ident_rest(c: u8) -> bool {
    ident_start(c) | ((c >= b'0') & (c <= b'9'))
}
/// the token at or after `i` (None: end of text); `t` has no wrapper
pub fn next_token(b: &[u8], mut i: usize) -> Result<Option<Tok>, LexErr> {
    let n = b.len();
    while i < n {
        let c = b[i];
        let one = match c {
            b'(' => Some(K::LP),
            b')' => Some(K::RP),
            b',' => Some(K::Comma),
            b'=' => Some(K::Eq),
            _ => None,
        };
        if let Some(k) = one {
            return Ok(Some(Tok { k, a: i, b: i + 1 }));
        } else if c == b'"' {
            let mut j = i + 1;
            while j < n && b[j] != b'"' {
                j += 1;
            }
            if j == n {
                return Err(LexErr::Quote(i));
            }
            return Ok(Some(Tok { k: K::Val, a: i, b: j + 1 }));
        } else if ident_start(c) {
            let mut j = i + 1;
            while j < n && ident_rest(b[j]) {
                j += 1;
            }
            let k = if j - i != 3 {
                K::Key
            } else if eq(&b[i..j], b"all") {
                K::All
            } else if eq(&b[i..j], b"any") {
                K::Any
            } else if eq(&b[i..j], b"not") {
                K::Not
            } else {
                K::Key
            };
            return Ok(Some(Tok { k, a: i, b: j }));
        } else {
            let l = char_len(c);
            if is_ws(b, i, l) {
                i += l;
            } else {
                return Err(LexErr::Char(i, i + l));
            }
        }
    }
    Ok(None)
}
/// tokens up to the end or the first error
pub fn lex(t: &str) -> (Vec<Tok>, Option<LexErr>) {
    let mut out = Vec::with_capacity(t.len() + 1);
    let mut i = 0;
    loop {
        match next_token(t.as_bytes(), i) {
            Ok(Some(tk)) => {
                i = tk.b;
                out.push(tk);
            }
            Ok(None) => return (out, None),
            Err(e) => return (out, Some(e)),
        }
    }
}
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    a == b
}

/// an option as written: where its name is, and its value without the quotes
#[derive(Clone, Copy, Debug)]
pub struct Opt {
    pub key: (usize, usize),
    pub val: Option<(usize, usize)>,
}
/// what is wrong with an option, if anything
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OptErr {
    ValueSuperfluous,
    ValueMissing,
    UnknownTarget,
    EmptyFeature,
    BadInt,
    BadAtomic,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FK {
    /// token `found` cannot follow `prev`
    Token(Option<K>, K),
    Char,
    Quote,
    MissingValue,
    MissingParen,
    UnclosedParen,
    Unopened,
    InvalidNot(usize),
    Opt(OptErr),
    Empty,
    Multi,
}
#[derive(Clone, Copy, Debug)]
pub struct Fault {
    pub k: FK,
    pub a: usize,
    pub b: usize,
}
/// faults that surface at the first faulty place (empty: accepted)
pub struct Verdict {
    pub toks: Vec<Tok>,
    pub faults: Vec<Fault>,
    pub opts: Vec<Opt>,
}
pub fn may_follow(prev: Option<K>, k: K) -> bool {
    match prev {
        None => matches!(k, K::Key | K::All | K::Any | K::Not),
        Some(K::LP) | Some(K::Comma) => matches!(k, K::Key | K::All | K::Any | K::Not | K::RP),
        Some(K::All) | Some(K::Any) | Some(K::Not) => k == K::LP,
        Some(K::Key) => matches!(k, K::Eq | K::Comma | K::RP),
        Some(K::Eq) => k == K::Val,
        Some(K::Val) | Some(K::RP) => matches!(k, K::Comma | K::RP),
    }
}
struct Frame {
    not: bool,
    start: usize,
    end: usize,
    lp: Option<usize>,
    n: usize,
}
pub fn judge(t: &str) -> Verdict {
    let b = t.as_bytes();
    let mut toks: Vec<Tok> = Vec::with_capacity(b.len() + 1);
    let mut lexerr = None;
    let mut faults: Vec<Fault> = Vec::with_capacity(4);
    let mut opts: Vec<Opt> = Vec::with_capacity(8);
    let mut stack: Vec<Frame> = Vec::with_capacity(8);
    let mut roots = 0;
    let mut pending: Option<Opt> = None;
    let mut prev: Option<K> = None;
    let mut i = 0;
    loop {
        let tk = match next_token(b, i) {
            Ok(Some(tk)) => tk,
            Ok(None) => break,
            Err(e) => {
                lexerr = Some(e);
                break;
            }
        };
        toks.push(tk);
        i = tk.b;
        let fault = |k| Fault { k, a: tk.a, b: tk.b };
        if !may_follow(prev, tk.k) {
            faults.push(fault(FK::Token(prev, tk.k)));
        }
        match tk.k {
            K::Key => pending = Some(Opt { key: (tk.a, tk.b), val: None }),
            K::Val => {
                if let Some(p) = &mut pending {
                    p.val = Some((tk.a + 1, tk.b - 1));
                }
            }
            K::Eq => {}
            K::All | K::Any | K::Not => {
                stack.push(Frame { not: tk.k == K::Not, start: tk.a, end: tk.b, lp: None, n: 0 })
            }
            K::LP => {
                if let Some(f) = stack.last_mut() {
                    f.lp = Some(tk.a);
                }
            }
            K::RP => {
                let done = pending.take();
                if let Some(o) = done {
                    opt_faults(b, o, &mut faults);
                    opts.push(o);
                }
                if !stack.iter().any(|f| f.lp.is_some()) {
                    faults.push(fault(FK::Unopened));
                }
                if let Some(f) = stack.pop() {
                    let n = f.n + done.is_some() as usize;
                    if f.not && n != 1 {
                        faults.push(Fault { k: FK::InvalidNot(n), a: f.start, b: tk.b });
                    }
                    match stack.last_mut() {
                        Some(p) => p.n += 1,
                        None => roots += 1,
                    }
                }
            }
            K::Comma => {
                if let Some(o) = pending.take() {
                    opt_faults(b, o, &mut faults);
                    opts.push(o);
                    match stack.last_mut() {
                        Some(p) => p.n += 1,
                        None => roots += 1,
                    }
                }
            }
        }
        if !faults.is_empty() {
            return Verdict { toks, faults, opts };
        }
        prev = Some(tk.k);
    }
    let n = t.len();
    match lexerr {
        Some(LexErr::Quote(a)) => faults.push(Fault { k: FK::Quote, a, b: n }),
        Some(LexErr::Char(a, b)) => faults.push(Fault { k: FK::Char, a, b }),
        None => {
            if prev == Some(K::Eq) {
                faults.push(Fault { k: FK::MissingValue, a: n, b: n });
            }
            if let Some(f) = stack.last() {
                if f.lp.is_none() {
                    faults.push(Fault { k: FK::MissingParen, a: f.start, b: f.end });
                }
            }
            if let Some(f) = stack.iter().rev().find(|f| f.lp.is_some()) {
                faults.push(Fault { k: FK::UnclosedParen, a: f.lp.unwrap(), b: n });
            }
            if let Some(o) = pending.take() {
                if prev != Some(K::Eq) {
                    opt_faults(b, o, &mut faults);
                }
                opts.push(o);
                roots += stack.is_empty() as usize;
            }
            if toks.is_empty() {
                faults.push(Fault { k: FK::Empty, a: 0, b: n });
            }
            if roots > 1 {
                faults.push(Fault { k: FK::Multi, a: 0, b: n });
            }
        }
    }
    Verdict { toks, faults, opts }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Family,
    Test,
    DebugAssertions,
    ProcMacro,
    Feature,
    Panic,
    Abi,
    Arch,
    TargetFeature,
    Os,
    TargetFamily,
    Env,
    Endian,
    HasAtomic,
    PointerWidth,
    Vendor,
    UnknownTarget,
    Other,
}
pub fn kind(k: &[u8]) -> Kind {
    if eq(k, b"unix") || eq(k, b"windows") {
        Kind::Family
    } else if eq(k, b"test") {
        Kind::Test
    } else if eq(k, b"debug_assertions") {
        Kind::DebugAssertions
    } else if eq(k, b"proc_macro") {
        Kind::ProcMacro
    } else if eq(k, b"feature") {
        Kind::Feature
    } else if eq(k, b"panic") {
        Kind::Panic
    } else if k.len() >= 7 && eq(&k[..7], b"target_") {
        let r = &k[7..];
        if eq(r, b"abi") {
            Kind::Abi
        } else if eq(r, b"arch") {
            Kind::Arch
        } else if eq(r, b"feature") {
            Kind::TargetFeature
        } else if eq(r, b"os") {
            Kind::Os
        } else if eq(r, b"family") {
            Kind::TargetFamily
        } else if eq(r, b"env") {
            Kind::Env
        } else if eq(r, b"endian") {
            Kind::Endian
        } else if eq(r, b"has_atomic") {
            Kind::HasAtomic
        } else if eq(r, b"pointer_width") {
            Kind::PointerWidth
        } else if eq(r, b"vendor") {
            Kind::Vendor
        } else {
            Kind::UnknownTarget
        }
    } else {
        Kind::Other
    }
}
/// unsigned decimal number as Rust's integer parser reads it
pub fn uint(v: &[u8], max: u32) -> Option<u32> {
    let mut i = if !v.is_empty() && v[0] == b'+' { 1 } else { 0 };
    if i == v.len() {
        return None;
    }
    let mut n: u32 = 0;
    while i < v.len() {
        let d = v[i].wrapping_sub(b'0');
        if d > 9 {
            return None;
        }
        n = n * 10 + d as u32;
        if n > max {
            return None;
        }
        i += 1;
    }
    Some(n)
}
pub fn opt_err(b: &[u8], o: Opt) -> (Kind, Vec<OptErr>) {
    let k = kind(&b[o.key.0..o.key.1]);
    let mut e = Vec::new();
    let v = o.val.map(|(x, y)| &b[x..y]);
    match k {
        Kind::Family | Kind::Test | Kind::DebugAssertions | Kind::ProcMacro => {
            if v.is_some() {
                e.push(OptErr::ValueSuperfluous)
            }
        }
        Kind::Other => {}
        _ => {
            if k == Kind::UnknownTarget {
                e.push(OptErr::UnknownTarget)
            }
            match v {
                None => e.push(OptErr::ValueMissing),
                Some(v) => match k {
                    Kind::TargetFeature if v.is_empty() => e.push(OptErr::EmptyFeature),
                    Kind::Endian if !(eq(v, b"big") || eq(v, b"little")) => e.push(OptErr::BadInt),
                    Kind::PointerWidth if uint(v, 255).is_none() => e.push(OptErr::BadInt),
                    Kind::HasAtomic if !eq(v, b"ptr") && uint(v, 65535).is_none() => {
                        e.push(OptErr::BadAtomic)
                    }
                    _ => {}
                },
            }
        }
    }
    (k, e)
}
fn opt_faults(b: &[u8], o: Opt, out: &mut Vec<Fault>) {
    let (_, es) = opt_err(b, o);
    for e in es {
        let (x, y) = match e {
            OptErr::ValueMissing | OptErr::UnknownTarget => o.key,
            _ => o.val.unwrap_or(o.key),
        };
        out.push(Fault { k: FK::Opt(e), a: x, b: y });
    }
}

fn name_kind(s: &str) -> Option<K> {
    Some(match s {
        "<key>" => K::Key,
        "all" => K::All,
        "any" => K::Any,
        "not" => K::Not,
        "(" => K::LP,
        ")" => K::RP,
        "," => K::Comma,
        "=" => K::Eq,
        "\"" => K::Val,
        _ => return None,
    })
}
/// does the reported reason name this fault?
pub fn reason_fits(r: &Reason, f: FK) -> bool {
    match (r, f) {
        (Reason::Unexpected(l), FK::Token(prev, found)) => {
            !l.is_empty()
                && l.iter().all(|s| match name_kind(s) {
                    Some(k) => may_follow(prev, k) && k != found,
                    None => false,
                })
        }
        (Reason::Unexpected(l), FK::Char) => !l.is_empty(),
        (Reason::InvalidCharacters, FK::Char) => true,
        (Reason::UnclosedQuotes, FK::Quote) => true,
        (Reason::Unexpected(l), FK::MissingValue) => !l.is_empty(),
        (Reason::Unexpected(l), FK::MissingParen) => l.len() == 1 && l[0] == "(",
        (Reason::UnclosedParens, FK::UnclosedParen) => true,
        (Reason::UnopenedParens, FK::Unopened) => true,
        (Reason::InvalidNot(n), FK::InvalidNot(m)) => *n == m,
        (Reason::Unexpected(l), FK::Opt(OptErr::ValueSuperfluous)) => l.is_empty(),
        (Reason::Unexpected(l), FK::Opt(OptErr::ValueMissing)) => !l.is_empty(),
        (Reason::Unexpected(l), FK::Opt(OptErr::EmptyFeature)) => !l.is_empty(),
        (Reason::Unexpected(l), FK::Opt(OptErr::UnknownTarget)) => {
            !l.is_empty() && l.iter().all(|s| s.starts_with("target_"))
        }
        (Reason::InvalidInteger, FK::Opt(OptErr::BadInt)) => true,
        (Reason::InvalidHasAtomic, FK::Opt(OptErr::BadAtomic)) => true,
        (Reason::Empty, FK::Empty) => true,
        (Reason::MultipleRootPredicates, FK::Multi) => true,
        _ => false,
    }
}
/// names the class of a reason (for observations)
pub fn reason_code(r: &Reason) -> u64 {
    match r {
        Reason::InvalidNot(n) => 100 + *n as u64,
        Reason::InvalidCharacters => 2,
        Reason::UnclosedParens => 3,
        Reason::UnopenedParens => 4,
        Reason::UnclosedQuotes => 5,
        Reason::UnopenedQuotes => 6,
        Reason::Empty => 7,
        Reason::Unexpected(l) => 20 + l.len() as u64,
        Reason::InvalidInteger => 8,
        Reason::MultipleRootPredicates => 9,
        Reason::InvalidHasAtomic => 10,
        _ => 11,
    }
}
/// (span fits, reason fits) for the best matching fault
pub fn error_fits(e: &ParseError, v: &Verdict) -> bool {
    v.faults.iter().any(|f| reason_fits(&e.reason, f.k) & (e.span.start == f.a) & (e.span.end == f.b))
}

/// is `p` the predicate that option `o` of text `t` denotes?
pub fn pred_is(p: &Predicate<'_>, t: &str, o: Opt) -> bool {
    let b = t.as_bytes();
    let key = &b[o.key.0..o.key.1];
    let k = kind(key);
    let v: Option<&[u8]> = o.val.map(|(x, y)| &b[x..y]);
    let val: &[u8] = v.unwrap_or(b"");
    let valued = v.is_some();
    match p {
        Predicate::Test => k == Kind::Test && !valued,
        Predicate::DebugAssertions => k == Kind::DebugAssertions && !valued,
        Predicate::ProcMacro => k == Kind::ProcMacro && !valued,
        Predicate::Feature(f) => k == Kind::Feature && valued && eq(f.as_bytes(), val),
        Predicate::TargetFeature(f) => k == Kind::TargetFeature && valued && eq(f.as_bytes(), val),
        Predicate::Flag(f) => k == Kind::Other && !valued && eq(f.as_bytes(), key),
        Predicate::KeyValue { key: kk, val: vv } => {
            k == Kind::Other && valued && eq(kk.as_bytes(), key) && eq(vv.as_bytes(), val)
        }
        Predicate::Target(tp) => match tp {
            TP::Family(f) => {
                (k == Kind::Family && !valued && eq(f.as_str().as_bytes(), key))
                    || (k == Kind::TargetFamily && valued && eq(f.as_str().as_bytes(), val))
            }
            TP::Abi(x) => k == Kind::Abi && valued && eq(x.as_str().as_bytes(), val),
            TP::Arch(x) => k == Kind::Arch && valued && eq(x.as_str().as_bytes(), val),
            TP::Env(x) => k == Kind::Env && valued && eq(x.as_str().as_bytes(), val),
            TP::Os(x) => k == Kind::Os && valued && eq(x.as_str().as_bytes(), val),
            TP::Panic(x) => k == Kind::Panic && valued && eq(x.as_str().as_bytes(), val),
            TP::Vendor(x) => k == Kind::Vendor && valued && eq(x.as_str().as_bytes(), val),
            TP::Endian(e) => {
                k == Kind::Endian
                    && match e {
                        Endian::big => eq(val, b"big"),
                        Endian::little => eq(val, b"little"),
                    }
            }
            TP::PointerWidth(w) => k == Kind::PointerWidth && uint(val, 255) == Some(*w as u32),
            TP::HasAtomic(h) => {
                k == Kind::HasAtomic
                    && match h {
                        HasAtomic::IntegerSize(n) => {
                            !eq(val, b"ptr") && uint(val, 65535) == Some(*n as u32)
                        }
                        HasAtomic::Pointer => eq(val, b"ptr"),
                        _ => false,
                    }
            }
        },
    }
}
pub fn pred_code(p: &Predicate<'_>) -> u64 {
    match p {
        Predicate::Test => 1,
        Predicate::DebugAssertions => 2,
        Predicate::ProcMacro => 3,
        Predicate::Feature(f) => 10 + f.len() as u64,
        Predicate::TargetFeature(f) => 100 + f.len() as u64,
        Predicate::Flag(f) => 200 + f.len() as u64,
        Predicate::KeyValue { key, val } => 300 + 10 * key.len() as u64 + val.len() as u64,
        Predicate::Target(tp) => match tp {
            TP::Family(f) => 400 + f.as_str().len() as u64,
            TP::Abi(f) => 500 + f.as_str().len() as u64,
            TP::Arch(f) => 600 + f.as_str().len() as u64,
            TP::Env(f) => 700 + f.as_str().len() as u64,
            TP::Os(f) => 800 + f.as_str().len() as u64,
            TP::Panic(f) => 900 + f.as_str().len() as u64,
            TP::Vendor(f) => 1000 + f.as_str().len() as u64,
            TP::Endian(e) => 1100 + (*e == Endian::big) as u64,
            TP::PointerWidth(w) => 2000 + *w as u64,
            TP::HasAtomic(HasAtomic::IntegerSize(n)) => 10000 + *n as u64,
            TP::HasAtomic(_) => 9999,
        },
    }
}

/// the combinators a value needs; each logic under test implements it
pub trait Alg: Sized {
    fn top() -> Self;
    fn bot() -> Self;
    fn conj(self, o: Self) -> Self;
    fn disj(self, o: Self) -> Self;
    fn neg(self) -> Self;
}
/// the meaning of an accepted text: leaves are numbered in reading order
pub fn meaning<T: Alg>(toks: &[Tok], leaf: &mut dyn FnMut(usize) -> T) -> T {
    let mut pos = 0;
    let mut n = 0;
    pred(toks, &mut pos, &mut n, leaf)
}
fn pred<T: Alg>(t: &[Tok], pos: &mut usize, n: &mut usize, leaf: &mut dyn FnMut(usize) -> T) -> T {
    let k = t[*pos].k;
    *pos += 1;
    if k == K::Key {
        if *pos < t.len() && t[*pos].k == K::Eq {
            *pos += 2;
        }
        let i = *n;
        *n += 1;
        return leaf(i);
    }
    *pos += 1; // (
    let mut acc = match k {
        K::Any => T::bot(),
        _ => T::top(),
    };
    while t[*pos].k != K::RP {
        let x = pred(t, pos, n, leaf);
        acc = match k {
            K::All => acc.conj(x),
            K::Any => acc.disj(x),
            _ => x.neg(),
        };
        if t[*pos].k == K::Comma {
            *pos += 1;
        }
    }
    *pos += 1; // )
    acc
}
