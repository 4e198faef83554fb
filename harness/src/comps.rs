//! Component types of every shape: tracked, boxed, zero-sized, over-aligned, large.
use std::collections::HashSet;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};
use std::sync::{Mutex, MutexGuard};

static ALIVE: Mutex<Option<HashSet<u64>>> = Mutex::new(None);
static NEXT: AtomicU64 = AtomicU64::new(1);
static ZST: AtomicI64 = AtomicI64::new(0);
static ERR: Mutex<Option<String>> = Mutex::new(None);

fn lock<T>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}
pub fn reset_tracking() {
    *lock(&ALIVE) = Some(HashSet::new());
    ZST.store(0, Relaxed);
    *lock(&ERR) = None;
}
pub fn tracked_alive() -> usize {
    lock(&ALIVE).as_ref().map_or(0, HashSet::len)
}
pub fn zst_alive() -> i64 {
    ZST.load(Relaxed)
}
pub fn take_err() -> Option<String> {
    lock(&ERR).take()
}
fn err(s: String) {
    let mut e = lock(&ERR);
    if e.is_none() {
        *e = Some(s);
    }
}

const MAGIC: u64 = 0xA11F_E0D0_5EED_C0DE;

/// Registers itself while alive.
pub struct Token {
    id: u64,
    magic: u64,
}
impl Token {
    fn new() -> Self {
        let id = NEXT.fetch_add(1, Relaxed);
        lock(&ALIVE).get_or_insert_with(HashSet::new).insert(id);
        Token { id, magic: MAGIC }
    }
    pub fn check(&self) -> bool {
        self.magic == MAGIC && lock(&ALIVE).as_ref().is_some_and(|a| a.contains(&self.id))
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        let bad = self.magic != MAGIC || !lock(&ALIVE).as_mut().is_some_and(|a| a.remove(&self.id));
        if bad {
            err(format!("value {} dropped while not alive", self.id));
        }
        self.magic = 0xDEAD;
    }
}

pub trait Comp: Send + Sync + 'static + Sized {
    const K: usize;
    fn make(v: u64) -> Self;
    fn val(&self) -> u64;
    fn set(&mut self, v: u64);
    fn canon(v: u64) -> u64 {
        v
    }
    /// 1 if a live value of this type is tracked by `ALIVE`
    const TRACKED: usize = 0;
    const ZTRACKED: i64 = 0;
    fn sane(&self) -> bool {
        true
    }
}

pub struct C0 {
    t: Token,
    v: u64,
}
impl Comp for C0 {
    const K: usize = 0;
    const TRACKED: usize = 1;
    fn make(v: u64) -> Self {
        C0 { t: Token::new(), v }
    }
    fn val(&self) -> u64 {
        self.v
    }
    fn set(&mut self, v: u64) {
        self.v = v
    }
    fn sane(&self) -> bool {
        self.t.check()
    }
}
#[derive(Clone, Copy)]
pub struct C1(u64);
#[derive(Clone, Copy)]
pub struct C2;
pub struct C3 {
    t: Token,
    v: Box<u64>,
}
#[repr(align(64))]
pub struct C4 {
    t: Token,
    v: u64,
}
#[derive(Clone, Copy)]
pub struct C5(u8);
pub struct C6;
#[derive(Clone, Copy)]
pub struct C7([u64; 17]);

impl Comp for C1 {
    const K: usize = 1;
    fn make(v: u64) -> Self {
        C1(v)
    }
    fn val(&self) -> u64 {
        self.0
    }
    fn set(&mut self, v: u64) {
        self.0 = v
    }
}
impl Comp for C2 {
    const K: usize = 2;
    fn make(_: u64) -> Self {
        C2
    }
    fn val(&self) -> u64 {
        0
    }
    fn set(&mut self, _: u64) {}
    fn canon(_: u64) -> u64 {
        0
    }
}
impl Comp for C3 {
    const K: usize = 3;
    const TRACKED: usize = 1;
    fn make(v: u64) -> Self {
        C3 { t: Token::new(), v: Box::new(v) }
    }
    fn val(&self) -> u64 {
        if self.t.check() { *self.v } else { u64::MAX }
    }
    fn set(&mut self, v: u64) {
        *self.v = v
    }
    fn sane(&self) -> bool {
        self.t.check()
    }
}
impl Drop for C3 {
    fn drop(&mut self) {
        // A double drop must be reported, not abort the process.
        if !self.t.check() {
            err("boxed value dropped while not alive".into());
            let b = std::mem::replace(&mut self.v, Box::new(0));
            std::mem::forget(b);
        }
    }
}
impl Comp for C4 {
    const K: usize = 4;
    const TRACKED: usize = 1;
    fn make(v: u64) -> Self {
        C4 { t: Token::new(), v }
    }
    fn val(&self) -> u64 {
        self.v
    }
    fn set(&mut self, v: u64) {
        self.v = v
    }
    fn sane(&self) -> bool {
        (self as *const Self as usize) % 64 == 0 && self.t.check()
    }
}
impl Comp for C5 {
    const K: usize = 5;
    fn make(v: u64) -> Self {
        C5(v as u8)
    }
    fn val(&self) -> u64 {
        u64::from(self.0)
    }
    fn set(&mut self, v: u64) {
        self.0 = v as u8
    }
    fn canon(v: u64) -> u64 {
        v & 255
    }
}
impl Comp for C6 {
    const K: usize = 6;
    const ZTRACKED: i64 = 1;
    fn make(_: u64) -> Self {
        ZST.fetch_add(1, Relaxed);
        C6
    }
    fn val(&self) -> u64 {
        0
    }
    fn set(&mut self, _: u64) {}
    fn canon(_: u64) -> u64 {
        0
    }
}
impl Drop for C6 {
    fn drop(&mut self) {
        ZST.fetch_sub(1, Relaxed);
    }
}
impl Comp for C7 {
    const K: usize = 7;
    fn make(v: u64) -> Self {
        C7([v; 17])
    }
    fn val(&self) -> u64 {
        if self.0.iter().all(|x| *x == self.0[0]) { self.0[0] } else { u64::MAX }
    }
    fn set(&mut self, v: u64) {
        self.0 = [v; 17]
    }
}

/// Plain components, for wide tuples and for layouts.
#[derive(Clone, Copy)]
pub struct N<const I: usize>(pub u32);
macro_rules! plain {
    ($($n:ident = $i:literal),*) => {$(
        pub type $n = N<$i>;
        impl Comp for N<$i> {
            const K: usize = $i;
            fn make(v: u64) -> Self { N(v as u32) }
            fn val(&self) -> u64 { u64::from(self.0) }
            fn set(&mut self, v: u64) { self.0 = v as u32 }
            fn canon(v: u64) -> u64 { v & 0xFFFF_FFFF }
        }
    )*};
}
plain!(C8 = 8, C9 = 9, C10 = 10, C11 = 11, C12 = 12, C13 = 13, C14 = 14, C15 = 15);
pub const NK: usize = 16;
