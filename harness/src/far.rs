//! A short text with arbitrary bytes behind, between or around a long stretch of
//! something harmless: whatever the length of what precedes it, it is read the same.
use crate::{edit::any_text, *};

/// params: 1 = what the stretch is, 2 = its length, 3 = the text in it: 0 any bytes,
/// 1 `feature = "` any bytes `"`, 2 a realistic text with one byte replaced, 3 a run of
/// any bytes in a long name, 4 and in a long value, 4 = how many bytes / which text
pub fn far() {
    let kind = param(1);
    let n = param(2) as usize;
    let w = param(4) as usize;
    let mut t: Vec<u8> = Vec::with_capacity(n * 12 + 256);
    let fill = |t: &mut Vec<u8>, s: &[u8]| {
        for _ in 0..n {
            t.extend_from_slice(s);
        }
    };
    match kind {
        0 => fill(&mut t, b" "),
        1 => fill(&mut t, "\u{3000}".as_bytes()),
        2 => {
            t.extend_from_slice(b"all(x");
            fill(&mut t, b"y");
            t.push(b',');
        }
        3 => {
            t.extend_from_slice(b"any(k=\"");
            fill(&mut t, b"v");
            t.extend_from_slice(b"\",");
        }
        4 => {
            t.extend_from_slice(b"all(feature=\"");
            fill(&mut t, "\u{e9}".as_bytes());
            t.extend_from_slice(b"\",");
        }
        5 => {
            t.extend_from_slice(b"all(");
            fill(&mut t, b"any(),");
        }
        6 => fill(&mut t, b"all("),
        7 => {
            // the stretch is behind the text
        }
        _ => {
            t.extend_from_slice(b"any(not(all(),),");
            fill(&mut t, b"not(any(),),");
        }
    }
    let at = t.len();
    match param(3) {
        0 => {
            t.resize(at + w, 0);
            bytes(&mut t[at..]);
        }
        1 => {
            t.extend_from_slice(b"feature = \"");
            let at = t.len();
            t.resize(at + w, 0);
            bytes(&mut t[at..]);
            t.push(b'"');
        }
        _ => {
            let c = crate::edit::CORPUS[w].as_bytes();
            t.extend_from_slice(c);
            let i = choice(c.len());
            t[at + i] = byte();
        }
    }
    match kind {
        2 | 3 | 4 | 5 | 8 => t.push(b')'),
        6 => fill(&mut t, b")"),
        7 => fill(&mut t, b" "),
        _ => {}
    }
    let Ok(s) = std::str::from_utf8(&t) else { return };
    any_text(s);
}

/// a long name or value with a window of arbitrary bytes in it
/// params: 1 = 0 name, 1 value of feature, 2 of target_os, 3 of a key, 4 of panic, 2 = length, 3 = bytes, 4 = 1 two-byte characters
pub fn long() {
    let n = param(2) as usize;
    let w = param(3) as usize;
    let mut t: Vec<u8> = Vec::with_capacity(n * 2 + 64);
    t.extend_from_slice(match param(1) {
        0 => b"not(" as &[u8],
        1 => b"not(feature = \"",
        2 => b"not(target_os = \"",
        3 => b"not(some_key = \"",
        _ => b"not(panic = \"",
    });
    let place = choice(3);
    let (a, z) = match place {
        0 => (0, n),
        1 => (n / 2, n - n / 2),
        _ => (n, 0),
    };
    let c: &[u8] = if param(4) == 1 { "\u{e9}".as_bytes() } else { b"v" };
    for _ in 0..a {
        t.extend_from_slice(c);
    }
    let at = t.len();
    t.resize(at + w, 0);
    bytes(&mut t[at..]);
    for _ in 0..z {
        t.extend_from_slice(c);
    }
    t.extend_from_slice(if param(1) == 0 { b")" } else { b"\")" });
    let Ok(s) = std::str::from_utf8(&t) else { return };
    any_text(s);
}
