//! Harnesses: each `h_*` function runs the real cfg-expr code on inputs that
//! the symbolic executor leaves undetermined, and states the property as
//! `chk(property, id, condition)`.
//! Parameter 0 is the property being decided (checks of others are skipped).
#![allow(clippy::all)]
pub mod spec;
pub mod text;
pub mod toks;
pub mod layout;
pub mod opts;
pub mod wide;
pub mod edit;
pub mod far;
pub mod wrap;
pub mod targets;
pub mod lexicon;
pub mod whole;
pub mod messages;
pub mod separate;
#[cfg(feature = "gen")]
pub mod generator;

unsafe extern "C-unwind" {
    fn sym_bytes(p: *mut u8, n: usize);
    fn sym_choice(n: u64) -> u64;
    fn sym_assume(b: bool);
    fn sym_check(b: bool, id: u32);
    fn sym_cover(id: u32);
    fn sym_observe(v: u64);
    fn sym_param(i: u64) -> u64;
    fn sym_concretize(v: u64) -> u64;
    fn sym_stop() -> !;
    fn sym_panic_ok(b: bool);
}
/// n arbitrary bytes
pub fn bytes(buf: &mut [u8]) {
    unsafe { sym_bytes(buf.as_mut_ptr(), buf.len()) }
}
pub fn byte() -> u8 {
    let mut b = [0u8];
    bytes(&mut b);
    b[0]
}
/// the program under test has ended here
pub fn stop() -> ! {
    unsafe { sym_stop() }
}
/// whether a panic is a proper way to end from now on
pub fn panic_ok(b: bool) {
    unsafe { sym_panic_ok(b) }
}
/// an arbitrary number below n, explored one by one
pub fn choice(n: usize) -> usize {
    unsafe { sym_choice(n as u64) as usize }
}
pub fn assume(b: bool) {
    unsafe { sym_assume(b) }
}
pub fn cover(id: u32) {
    unsafe { sym_cover(id) }
}
pub fn observe(v: u64) {
    unsafe { sym_observe(v) }
}
pub fn param(i: u64) -> u64 {
    unsafe { sym_param(i) }
}
pub fn concretize(v: u64) -> u64 {
    unsafe { sym_concretize(v) }
}
/// the property under decision
pub fn prop() -> u64 {
    param(0)
}
/// assertion `n` (0..=99) of property `p`: reported as id p*100+n
pub fn chk(p: u64, n: u32, b: bool) {
    if p == prop() {
        unsafe { sym_check(b, p as u32 * 100 + n) }
    }
}

#[macro_export]
macro_rules! harnesses {
    ($($name:ident => $f:path),+ $(,)?) => {
        $(#[unsafe(no_mangle)] pub extern "C" fn $name() { $f() })+
        pub const HARNESSES: &[(&str, fn())] = &[$((stringify!($name), $f as fn())),+];
    };
}
harnesses! {
    h_text => text::text,
    h_tokens => toks::tokens,
    h_logic => toks::tables,
    h_option => opts::option,
    h_pair => opts::pair,
    h_wide => wide::wide,
    h_deep => wide::deep,
    h_edit => edit::edit,
    h_far => far::far,
    h_long => far::long,
    h_gaps => layout::gaps,
    h_wrap => wrap::wrap,
    h_equal => wrap::equal,
    h_lookup => targets::lookup,
    h_unique => targets::unique,
    h_info => targets::info,
    h_atomic => targets::atomic_text,
    h_atomic_show => targets::atomic_display,
    h_families => targets::families,
    h_atomics => targets::atomics,
    h_names => targets::names,
    h_endian => targets::endian,
    h_facts => targets::facts,
    h_coherent => targets::coherent,
    h_constants => targets::constants,
    h_agree => lexicon::agree,
    h_total => lexicon::total,
    h_generate => generate,
    h_variant => lexicon::variant,
    h_update => update,
    h_descriptions => whole::descriptions,
    h_parts => whole::parts_of,
    h_whole => whole::whole,
    h_messages => messages::messages,
    h_separate => separate::separate,
}
#[cfg(feature = "gen")]
fn generate() {
    generator::generate()
}
#[cfg(not(feature = "gen"))]
fn generate() {}
#[cfg(feature = "gen")]
fn update() {
    generator::update()
}
#[cfg(not(feature = "gen"))]
fn update() {}


/// std's memchr does pointer-alignment arithmetic on words; the executor runs
/// this plain byte loop in its place (same contract).
#[repr(C)]
pub struct Pair(u64, u64);
#[unsafe(no_mangle)]
pub extern "C" fn model_memchr(x: u8, p: *const u8, n: usize) -> Pair {
    let mut i = 0;
    while i < n {
        if unsafe { *p.add(i) } == x {
            return Pair(1, i as u64);
        }
        i += 1;
    }
    Pair(0, 0)
}

/// memcmp of many undetermined bytes: forks at the first difference
#[unsafe(no_mangle)]
pub extern "C" fn model_memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    let mut i = 0;
    while i < n {
        let (x, y) = unsafe { (*a.add(i), *b.add(i)) };
        if x != y {
            return if x < y { -1 } else { 1 };
        }
        i += 1;
    }
    0
}

/// the keys of hash maps: what a program does may not depend on them, any will do
#[unsafe(no_mangle)]
pub extern "C" fn model_getrandom(p: *mut u8, n: usize, _flags: u32) -> isize {
    let mut i = 0;
    while i < n {
        unsafe { *p.add(i) = 0x5a }
        i += 1;
    }
    n as isize
}
/// any function is a proper hash of the keys of a map
#[unsafe(no_mangle)]
pub extern "C" fn model_hash_one(_keys: *const u8, _value: *const u8) -> u64 {
    0
}
/// what is printed is not looked at
#[unsafe(no_mangle)]
pub extern "C" fn model_write(_fd: i32, _p: *const u8, n: usize) -> isize {
    n as isize
}
#[unsafe(no_mangle)]
pub extern "C" fn model_writev(_fd: i32, v: *const [usize; 2], n: i32) -> isize {
    let mut all = 0;
    let mut i = 0;
    while i < n as usize {
        all += unsafe { (*v.add(i))[1] };
        i += 1;
    }
    all as isize
}
/// time stands still
#[unsafe(no_mangle)]
pub extern "C" fn model_clock_gettime(_clock: i32, t: *mut [i64; 2]) -> i32 {
    unsafe { *t = [1 << 30, 0] }
    0
}
/// no environment variable is set
#[unsafe(no_mangle)]
pub extern "C" fn model_getenv(_name: *const u8) -> *const u8 {
    std::ptr::null()
}
