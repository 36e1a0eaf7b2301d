//! Intrinsics. On wasm32 they are imports interpreted by the symbolic executor;
//! natively they read concrete values from a replay file.

#[cfg(target_arch = "wasm32")]
mod imp {
    #[link(wasm_import_module = "sym")]
    unsafe extern "C" {
        pub fn u64(lo: u64, hi: u64) -> u64;
        pub fn choose(n: u32) -> u32;
        pub fn bytes(ptr: *mut u8, len: u32);
        pub fn assume(c: u32);
        pub fn check(c: u32, id: u32);
        pub fn cover(id: u32);
        pub fn observe(id: u32, v: u64);
        pub fn ite(c: u32, a: u64, b: u64) -> u64;
        pub fn concretize(v: u64) -> u64;
        pub fn allow_trap(on: u32);
        pub fn byte(ptr: *const u8, len: u32, i: u64) -> u64;
        pub fn upper(v: u64) -> u64;
        pub fn note(ptr: *const u8, len: u32);
    }
}

#[cfg(not(target_arch = "wasm32"))]
pub mod native {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    pub struct Rt {
        pub inputs: VecDeque<String>,
        pub out: Vec<String>,
        pub failed: Vec<u32>,
        pub allow_trap: bool,
    }
    thread_local! { pub static RT: RefCell<Rt> = RefCell::new(Rt{inputs:VecDeque::new(),out:vec![],failed:vec![],allow_trap:false}); }
    pub fn finish(code: i32) -> ! {
        RT.with(|r| {
            for l in r.borrow().out.iter() {
                println!("{l}");
            }
        });
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(code)
    }
    pub fn next(kind: &str) -> Vec<String> {
        let l = RT.with(|r| r.borrow_mut().inputs.pop_front());
        let Some(l) = l else {
            println!("DESYNC: inputs exhausted, wanted {kind}");
            finish(3)
        };
        let parts: Vec<String> = l.split(' ').map(|s| s.to_string()).collect();
        if parts[0] != kind {
            println!("DESYNC: wanted {kind}, got {l}");
            finish(3)
        }
        parts
    }
}

/// an arbitrary value in lo..=hi
#[inline(never)]
pub fn any(lo: u64, hi: u64) -> u64 {
    #[cfg(target_arch = "wasm32")]
    unsafe {
        imp::u64(lo, hi)
    }
    #[cfg(not(target_arch = "wasm32"))]
    {
        let p = native::next("u");
        let v: u64 = p[1].parse().unwrap();
        if v < lo || v > hi {
            println!("DESYNC: {v} not in {lo}..={hi}");
            native::finish(3)
        }
        v
    }
}
/// complete case split over 0..n
#[inline(never)]
pub fn choose(n: u32) -> u32 {
    #[cfg(target_arch = "wasm32")]
    unsafe {
        imp::choose(n)
    }
    #[cfg(not(target_arch = "wasm32"))]
    {
        let p = native::next("c");
        let v: u32 = p[1].parse().unwrap();
        if v >= n {
            println!("DESYNC: choose {v} not below {n}");
            native::finish(3)
        }
        v
    }
}
/// fill the slice with arbitrary bytes
#[inline(never)]
pub fn fill(buf: &mut [u8]) {
    #[cfg(target_arch = "wasm32")]
    unsafe {
        imp::bytes(buf.as_mut_ptr(), buf.len() as u32)
    }
    #[cfg(not(target_arch = "wasm32"))]
    {
        // b len idx:val idx:val ...
        let p = native::next("b");
        let n: usize = p[1].parse().unwrap();
        if n != buf.len() {
            println!("DESYNC: bytes {n} vs {}", buf.len());
            native::finish(3)
        }
        buf.fill(0);
        for e in &p[2..] {
            let (i, v) = e.split_once(':').unwrap();
            let i: usize = i.parse().unwrap();
            if i < n {
                buf[i] = v.parse().unwrap();
            }
        }
    }
}
pub fn arbitrary(len: usize) -> Vec<u8> {
    let mut v = vec![0u8; len];
    fill(&mut v);
    v
}
/// restrict to executions where c holds
#[inline(never)]
pub fn assume(c: bool) {
    #[cfg(target_arch = "wasm32")]
    unsafe {
        imp::assume(c as u32)
    }
    #[cfg(not(target_arch = "wasm32"))]
    {
        if !c {
            println!("ASSUME-FAILED");
            native::finish(4)
        }
    }
}
/// the property: c must hold
#[inline(never)]
pub fn check(c: bool, id: u32) {
    #[cfg(target_arch = "wasm32")]
    unsafe {
        imp::check(c as u32, id)
    }
    #[cfg(not(target_arch = "wasm32"))]
    {
        if !c {
            native::RT.with(|r| r.borrow_mut().out.push(format!("CHECK-FAILED {id}")));
            native::RT.with(|r| r.borrow_mut().failed.push(id));
        }
    }
}
/// reachability witness
#[inline(never)]
pub fn cover(id: u32) {
    #[cfg(target_arch = "wasm32")]
    unsafe {
        imp::cover(id)
    }
    #[cfg(not(target_arch = "wasm32"))]
    {
        native::RT.with(|r| r.borrow_mut().out.push(format!("cover {id}")));
    }
}
/// value logged for the validation of the executor against native runs
#[inline(never)]
pub fn observe(id: u32, v: u64) {
    #[cfg(target_arch = "wasm32")]
    unsafe {
        imp::observe(id, v)
    }
    #[cfg(not(target_arch = "wasm32"))]
    {
        native::RT.with(|r| r.borrow_mut().out.push(format!("o {id} {v}")));
    }
}
/// branch-free conditional
#[inline(never)]
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    #[cfg(target_arch = "wasm32")]
    unsafe {
        imp::ite(c as u32, a, b)
    }
    #[cfg(not(target_arch = "wasm32"))]
    {
        if c { a } else { b }
    }
}
/// complete case split over the values of v
#[inline(never)]
pub fn concretize(v: u64) -> u64 {
    #[cfg(target_arch = "wasm32")]
    unsafe {
        imp::concretize(v)
    }
    #[cfg(not(target_arch = "wasm32"))]
    {
        v
    }
}
/// traps from here on end the path silently (the canister message is rolled back)
#[inline(never)]
pub fn allow_trap(on: bool) {
    #[cfg(target_arch = "wasm32")]
    unsafe {
        imp::allow_trap(on as u32)
    }
    #[cfg(not(target_arch = "wasm32"))]
    {
        native::RT.with(|r| r.borrow_mut().allow_trap = on);
    }
}
/// byte at a possibly symbolic index (0 outside the buffer)
#[inline(never)]
pub fn byte(buf: &[u8], i: u64) -> u64 {
    #[cfg(target_arch = "wasm32")]
    unsafe {
        imp::byte(buf.as_ptr(), buf.len() as u32, i)
    }
    #[cfg(not(target_arch = "wasm32"))]
    {
        if i < buf.len() as u64 { buf[i as usize] as u64 } else { 0 }
    }
}
/// text recorded in the path's trace
#[inline(never)]
pub fn note(s: &str) {
    #[cfg(target_arch = "wasm32")]
    unsafe {
        imp::note(s.as_ptr(), s.len() as u32)
    }
    #[cfg(not(target_arch = "wasm32"))]
    {
        native::RT.with(|r| r.borrow_mut().out.push(format!("note {s}")));
    }
}

// branch-free boolean connectives
#[inline(always)]
pub fn and(a: bool, b: bool) -> bool {
    ite(a, b as u64, 0) != 0
}
#[inline(always)]
pub fn or(a: bool, b: bool) -> bool {
    ite(a, 1, b as u64) != 0
}
#[inline(always)]
pub fn implies(a: bool, b: bool) -> bool {
    ite(a, b as u64, 1) != 0
}
pub fn min(a: u64, b: u64) -> u64 {
    ite(a < b, a, b)
}
pub fn max(a: u64, b: u64) -> u64 {
    ite(a < b, b, a)
}

#[cfg(target_arch = "wasm32")]
mod alloc {
    use std::alloc::{GlobalAlloc, Layout};
    use std::cell::UnsafeCell;
    // bump allocator: never reuses memory, so stale data is never aliased
    struct Bump(UnsafeCell<usize>);
    unsafe impl Sync for Bump {}
    unsafe extern "C" {
        static __heap_base: u8;
    }
    unsafe impl GlobalAlloc for Bump {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            unsafe {
                let p = self.0.get();
                let mut cur = *p;
                if cur == 0 {
                    cur = &__heap_base as *const u8 as usize;
                }
                let a = (cur + l.align() - 1) & !(l.align() - 1);
                let end = a + super::imp::upper(l.size() as u64) as usize;
                let have = core::arch::wasm32::memory_size(0) * 65536;
                if end > have {
                    let need = (end - have).div_ceil(65536).max(64);
                    if core::arch::wasm32::memory_grow(0, need) == usize::MAX {
                        return std::ptr::null_mut();
                    }
                }
                // large buffers are kept apart, so that inexact bounds on one do not reach another
                *p = end + if l.size() >= 1024 { 1 << 16 } else { 0 };
                a as *mut u8
            }
        }
        unsafe fn dealloc(&self, _p: *mut u8, _l: Layout) {}
    }
    #[global_allocator]
    static A: Bump = Bump(UnsafeCell::new(0));
}
