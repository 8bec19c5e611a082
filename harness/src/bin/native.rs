//! Runs harnesses on concrete inputs: replays of counterexamples and of sampled
//! paths. Input lines: `<harness> P <params..> C <choices..> V <hex>`.
use std::cell::RefCell;
use std::io::BufRead;
struct In {
    params: Vec<u64>,
    choices: Vec<u64>,
    bytes: Vec<u8>,
    cp: usize,
    bp: usize,
    obs: Vec<u64>,
    fails: Vec<u32>,
    short: bool,
    panic_ok: bool,
}
thread_local!(static IN: RefCell<Option<In>> = RefCell::new(None));
struct Assume;
struct Stop;
fn w<R>(f: impl FnOnce(&mut In) -> R) -> R {
    IN.with(|i| f(i.borrow_mut().as_mut().unwrap()))
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_bytes(p: *mut u8, n: usize) {
    w(|i| {
        for k in 0..n {
            let v = if i.bp < i.bytes.len() { i.bytes[i.bp] } else { i.short = true; 0 };
            i.bp += 1;
            unsafe { *p.add(k) = v }
        }
    })
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_choice(n: u64) -> u64 {
    if n == 0 {
        std::panic::resume_unwind(Box::new(Assume));
    }
    w(|i| {
        let v = i.choices.get(i.cp).copied().unwrap_or_else(|| { i.short = true; 0 });
        i.cp += 1;
        v
    })
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_assume(b: bool) {
    if !b {
        std::panic::resume_unwind(Box::new(Assume));
    }
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_check(b: bool, id: u32) {
    if !b {
        w(|i| i.fails.push(id))
    }
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_cover(_id: u32) {}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_observe(v: u64) {
    w(|i| i.obs.push(v))
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_param(k: u64) -> u64 {
    w(|i| i.params.get(k as usize).copied().unwrap_or(0))
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_concretize(v: u64) -> u64 {
    v
}

#[unsafe(no_mangle)]
extern "C-unwind" fn sym_stop() -> ! {
    std::panic::resume_unwind(Box::new(Stop))
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_panic_ok(b: bool) {
    w(|i| i.panic_ok = b)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut it = line.split_whitespace();
        let Some(h) = it.next() else { continue };
        let (mut params, mut choices, mut hex) = (vec![], vec![], String::new());
        let mut mode = "";
        for x in it {
            match x {
                "P" | "C" | "V" => mode = if x == "P" { "P" } else if x == "C" { "C" } else { "V" },
                _ => match mode {
                    "P" => params.push(x.parse().unwrap()),
                    "C" => choices.push(x.parse().unwrap()),
                    _ => hex = x.to_string(),
                },
            }
        }
        let bytes = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
        let f = hlib::HARNESSES.iter().find(|x| x.0 == h).expect("harness").1;
        IN.with(|i| *i.borrow_mut() = Some(In { params, choices, bytes, cp: 0, bp: 0, obs: vec![], fails: vec![], short: false, panic_ok: false }));
        let r = std::panic::catch_unwind(f);
        let st = IN.with(|i| i.borrow_mut().take().unwrap());
        let obs: Vec<String> = st.obs.iter().map(|x| x.to_string()).collect();
        let fails: Vec<String> = st.fails.iter().map(|x| x.to_string()).collect();
        let how = match r {
            Ok(()) => "DONE".to_string(),
            Err(e) => {
                if e.downcast_ref::<Assume>().is_some() {
                    "ASSUME".to_string()
                } else if e.downcast_ref::<Stop>().is_some() || st.panic_ok {
                    "DONE".to_string()
                } else {
                    "PANIC".to_string()
                }
            }
        };
        println!("\n@@RESULT {} | {} | {} | {}", how, fails.join(" "), obs.join(" "), if st.short { "SHORT" } else { "" });
    }
}
