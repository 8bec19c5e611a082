//! Arbitrary short texts: every byte is a symbolic variable.
use crate::{spec::*, *};
use cfg_expr::{Expression, expr::Predicate, expr::lexer::{Lexer, Token}};

/// cover points: 1 accepted, 2 rejected, 3.. one per fault class
pub fn fault_cover(k: FK) -> u32 {
    match k {
        FK::Token(..) => 10,
        FK::Char => 11,
        FK::Quote => 12,
        FK::MissingValue => 13,
        FK::MissingParen => 14,
        FK::UnclosedParen => 15,
        FK::Unopened => 16,
        FK::InvalidNot(_) => 17,
        FK::Opt(_) => 18,
        FK::Empty => 19,
        FK::Multi => 20,
    }
}

/// params: 1 = length, 2 = wrapper shape (0 plain, 1 `cfg(`T`)`, 2 `cfg(`T, 3 T`)`)
pub fn text() {
    let n = param(1) as usize;
    let shape = param(2);
    let mut buf = [0u8; 64];
    let mut len = 0;
    if shape == 1 || shape == 2 {
        buf[..4].copy_from_slice(b"cfg(");
        len = 4;
    }
    bytes(&mut buf[len..len + n]);
    len += n;
    if shape == 1 || shape == 3 {
        buf[len] = b')';
        len += 1;
    }
    let Ok(s) = std::str::from_utf8(&buf[..len]) else { return };
    crate::edit::any_text(s);
}

pub fn check_text(s: &str) {
    let p = prop();
    if p == 9 {
        return lexer_tiles(s);
    }
    let r = Expression::parse(s);
    let t = strip(s);
    match &r {
        Ok(e) => {
            cover(1);
            observe(1);
            let preds: Vec<Predicate<'_>> = e.predicates().collect();
            for q in &preds {
                observe(pred_code(q));
            }
            if p == 1 {
                let mut calls = 0;
                let v = e.eval(|_| { calls += 1; true });
                observe(v as u64);
                let v = e.eval(|_| None::<bool>);
                observe(v.is_some() as u64);
                let c = e.clone();
                chk(1, 1, c == *e);
                chk(1, 2, !c.original().is_empty());
                return;
            }
            if p == 12 {
                chk(12, 1, eq(e.original().as_bytes(), t.as_bytes()));
                let again = Expression::parse(e.original());
                match again {
                    // a text that still has a wrapper after the removal is parsed without it
                    Ok(a) => {
                        let inner = strip(t);
                        chk(12, 2, eq(a.original().as_bytes(), inner.as_bytes()));
                        if inner.len() == t.len() {
                            chk(12, 3, a == *e);
                            let m = a.predicates().eq(e.predicates());
                            chk(12, 4, m);
                            chk(12, 5, a.eval(|_| true) == e.eval(|_| true));
                            chk(12, 6, a.eval(|_| false) == e.eval(|_| false));
                        }
                    }
                    Err(_) => chk(12, 7, strip(t).len() != t.len()),
                }
                let c = e.clone();
                chk(12, 8, c == *e);
                chk(12, 9, eq(c.original().as_bytes(), t.as_bytes()));
                chk(12, 10, c.predicates().eq(e.predicates()));
                return;
            }
        }
        Err(e) => {
            cover(2);
            observe(reason_code(&e.reason));
            observe(e.span.start as u64);
            observe(e.span.end as u64);
            if p == 1 {
                let m = e.to_string();
                chk(1, 3, !m.is_empty());
                return;
            }
            if p == 7 {
                return error_renders(e, t);
            }
        }
    }
    if p == 1 || p == 7 || p == 12 {
        return;
    }
    let v = judge(t);
    match &r {
        Ok(e) => {
            chk(2, 1, v.faults.is_empty());
            if v.faults.is_empty() {
                if p == 5 || p == 6 {
                    options_reported(5, e, t, &v);
                }
            }
        }
        Err(e) => {
            chk(2, 2, !v.faults.is_empty());
            for f in &v.faults {
                cover(fault_cover(f.k));
            }
            if !v.faults.is_empty() {
                chk(8, 1, error_fits(e, &v));
            }
        }
    }
}
/// C05: listed == handed to the callback == written
pub fn options_reported(pr: u64, e: &Expression, t: &str, v: &Verdict) {
    let listed: Vec<Predicate<'_>> = e.predicates().collect();
    chk(pr, 10, listed.len() == v.opts.len());
    let mut i = 0;
    let mut same = true;
    let mut last = true;
    e.eval(|q| {
        same = same && i < listed.len() && listed[i] == *q;
        i += 1;
        last = !last;
        last
    });
    chk(pr, 11, same);
    chk(pr, 12, i == listed.len());
    let mut used = [false; 64];
    for q in &listed {
        let mut found = false;
        let mut j = 0;
        while j < v.opts.len() && j < 64 {
            if !used[j] && pred_is(q, t, v.opts[j]) {
                used[j] = true;
                found = true;
                break;
            }
            j += 1;
        }
        chk(pr, 13, found);
    }
}

/// C07
pub fn error_renders(e: &cfg_expr::ParseError, t: &str) {
    use cfg_expr::error::Reason as R;
    chk(7, 1, eq(e.original.as_bytes(), t.as_bytes()));
    let (a, b) = (e.span.start, e.span.end);
    chk(7, 2, a <= b);
    chk(7, 3, b <= t.len());
    chk(7, 4, t.is_char_boundary(a) && t.is_char_boundary(b));
    let mut want = String::with_capacity(128);
    want.push_str(t);
    want.push('\n');
    for _ in 0..a {
        want.push(' ');
    }
    match &e.reason {
        R::UnclosedParens | R::UnclosedQuotes => want.push('-'),
        R::UnopenedParens | R::UnopenedQuotes => want.push('^'),
        _ => {
            for _ in a..b {
                want.push('^');
            }
        }
    }
    want.push(' ');
    let reason = e.reason.to_string();
    want.push_str(&reason);
    chk(7, 5, !reason.is_empty());
    let got = e.to_string();
    chk(7, 6, eq(got.as_bytes(), want.as_bytes()));
}

/// C09
pub fn lexer_tiles(s: &str) {
    let t = strip(s);
    let mut lx = Lexer::new(s);
    let (toks, err) = lex(t);
    let mut i = 0;
    loop {
        let item = lx.next();
        if i < toks.len() {
            let w = toks[i];
            let ok = match item {
                Some(Ok(lt)) => {
                    let sp = lt.span.start == w.a && lt.span.end == w.b;
                    chk(9, 1, sp);
                    let txt = &t.as_bytes()[w.a..w.b];
                    match lt.token {
                        Token::Key(k) => w.k == K::Key && eq(k.as_bytes(), txt),
                        Token::Value(v) => {
                            w.k == K::Val && eq(v.as_bytes(), &txt[1..txt.len() - 1])
                        }
                        Token::Equals => w.k == K::Eq,
                        Token::All => w.k == K::All,
                        Token::Any => w.k == K::Any,
                        Token::Not => w.k == K::Not,
                        Token::OpenParen => w.k == K::LP,
                        Token::CloseParen => w.k == K::RP,
                        Token::Comma => w.k == K::Comma,
                    }
                }
                _ => false,
            };
            chk(9, 2, ok);
            observe(w.a as u64);
            i += 1;
            continue;
        }
        match err {
            Some(_) => {
                cover(2);
                chk(9, 3, matches!(item, Some(Err(_))));
                // iteration has ended
                chk(9, 4, lx.next().is_none());
                chk(9, 5, lx.next().is_none());
            }
            None => {
                cover(1);
                chk(9, 6, item.is_none());
                chk(9, 7, lx.next().is_none());
            }
        }
        return;
    }
}
