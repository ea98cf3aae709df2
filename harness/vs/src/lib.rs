//! Harness interface.  Under `--cfg vsym` these are primitives of the symbolic executor; otherwise
//! (replay) they read concrete values from a tape, so the same harness reruns a counterexample
//! against the natively compiled real code.
#[cfg(vsym)]
mod imp {
    unsafe extern "C" {
        pub fn vs_bytes(p: *mut u8, n: usize);
        pub fn vs_assume(c: bool);
        pub fn vs_fail(p: *const u8, n: usize) -> !;
        pub fn vs_check(c: bool, p: *const u8, n: usize);
        pub fn vs_reach(p: *const u8, n: usize);
        pub fn vs_note(p: *const u8, n: usize, v: u64);
        pub fn vs_choice(n: u64) -> u64;
        pub fn vs_concrete(v: u64) -> u64;
        pub fn vs_native() -> bool;
    }
}
#[cfg(not(vsym))]
mod imp {
    use std::cell::RefCell;
    thread_local!(static TAPE: RefCell<Option<(Vec<u8>, usize)>> = RefCell::new(None));
    fn next() -> u8 {
        TAPE.with(|t| {
            let mut t = t.borrow_mut();
            let t = t.get_or_insert_with(|| {
                let h = std::env::var("VS_TAPE").unwrap_or_default();
                let b = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
                (b, 0)
            });
            let v = t.0.get(t.1).copied().unwrap_or(0);
            t.1 += 1;
            v
        })
    }
    unsafe fn s<'a>(p: *const u8, n: usize) -> &'a str {
        unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) }
    }
    pub unsafe fn vs_bytes(p: *mut u8, n: usize) {
        for i in 0..n {
            unsafe { *p.add(i) = next() }
        }
    }
    pub unsafe fn vs_assume(c: bool) {
        if !c {
            println!("VS-ASSUME-FALSE");
            std::process::exit(77);
        }
    }
    pub unsafe fn vs_fail(p: *const u8, n: usize) -> ! {
        println!("VS-FAIL {}", unsafe { s(p, n) });
        std::process::exit(99);
    }
    pub unsafe fn vs_check(c: bool, p: *const u8, n: usize) {
        if !c {
            unsafe { vs_fail(p, n) }
        }
    }
    pub unsafe fn vs_reach(p: *const u8, n: usize) {
        println!("VS-REACH {}", unsafe { s(p, n) });
    }
    pub unsafe fn vs_note(p: *const u8, n: usize, v: u64) {
        println!("VS-NOTE {} = {} ({:#x})", unsafe { s(p, n) }, v, v);
    }
    pub unsafe fn vs_choice(n: u64) -> u64 {
        let v = next() as u64;
        if v >= n {
            println!("VS-ASSUME-FALSE");
            std::process::exit(77);
        }
        v
    }
    pub unsafe fn vs_concrete(v: u64) -> u64 {
        v
    }
    pub unsafe fn vs_native() -> bool {
        true
    }
}

/// Fill a slice with unconstrained bytes.
pub fn fill(b: &mut [u8]) {
    unsafe { imp::vs_bytes(b.as_mut_ptr(), b.len()) }
}
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    fill(&mut v);
    v
}
pub fn u8() -> u8 {
    let mut b = [0u8; 1];
    fill(&mut b);
    b[0]
}
pub fn u16() -> u16 {
    let mut b = [0u8; 2];
    fill(&mut b);
    u16::from_le_bytes(b)
}
pub fn u32() -> u32 {
    let mut b = [0u8; 4];
    fill(&mut b);
    u32::from_le_bytes(b)
}
pub fn bit() -> bool {
    let b = u8();
    assume(b < 2);
    b == 1
}
/// Fork on every value below `n`.
pub fn choice(n: u64) -> u64 {
    unsafe { imp::vs_choice(n) }
}
pub fn flip() -> bool {
    choice(2) == 1
}
pub fn assume(c: bool) {
    unsafe { imp::vs_assume(c) }
}
pub fn fail(m: &str) -> ! {
    unsafe { imp::vs_fail(m.as_ptr(), m.len()) }
}
/// The condition must hold for every input reaching this point.
pub fn check(c: bool, m: &str) {
    unsafe { imp::vs_check(c, m.as_ptr(), m.len()) }
}
pub fn reach(m: &str) {
    unsafe { imp::vs_reach(m.as_ptr(), m.len()) }
}
pub fn note(m: &str, v: u64) {
    unsafe { imp::vs_note(m.as_ptr(), m.len(), v) }
}
pub fn concrete(v: usize) -> usize {
    unsafe { imp::vs_concrete(v as u64) as usize }
}
pub fn native() -> bool {
    unsafe { imp::vs_native() }
}
/// A valid UTF-8 string without null characters of exactly `n` symbolic bytes.
pub fn string(n: usize) -> String {
    match String::from_utf8(bytes(n)) {
        Ok(s) => {
            let mut nul = false;
            for c in s.as_bytes() {
                nul |= *c == 0;
            }
            assume(!nul);
            s
        }
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}
/// A string of exactly `n` symbolic ASCII bytes (no NUL).
pub fn ascii(n: usize) -> String {
    let b = bytes(n);
    for c in &b {
        assume(*c >= 1 && *c < 0x80);
    }
    unsafe { String::from_utf8_unchecked(b) }
}
/// Branch-free byte-wise equality.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    a == b
}

#[macro_export]
macro_rules! entries {
    ($($f:ident ( $($a:ident),* )),* $(,)?) => {
        $(pub mod $f {
            #[allow(unused)]
            #[unsafe(no_mangle)]
            #[inline(never)]
            pub extern "C" fn $f($($a: u64),*) { super::imp::$f($($a),*) }
        })*
        /// Formatting of (error) strings is abstracted to the empty string under symbolic execution.
        #[cfg(vsym)]
        #[unsafe(no_mangle)]
        #[inline(never)]
        pub fn vs_format_stub(_a: ::std::fmt::Arguments<'_>) -> String { String::new() }
        fn main() {
            let av: Vec<String> = std::env::args().collect();
            let mut _n = av.iter().skip(2).map(|x| x.parse::<u64>().unwrap());
            #[cfg(vsym)]
            if av.len() > 99 { println!("{}", vs_format_stub(format_args!("{}", av[0]))); }
            match av.get(1).map(|s| s.as_str()).unwrap_or("") {
                $(stringify!($f) => { $(let $a = _n.next().unwrap_or(0);)* $f::$f($($a),*); })*
                e => { println!("VS-NO-ENTRY {}", e); std::process::exit(3); }
            }
            println!("VS-OK");
        }
    };
}
