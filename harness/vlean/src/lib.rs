//! Lean runtime with the interface of `vrt` that generated programs use.
//!
//! Nothing is compared here: the oracle is the interpreter or sanitizer the
//! program runs under.  Values own heap memory, are read and written through
//! every reference handed out, and destructors read their memory and may panic.
#![allow(clippy::all)]

use std::cell::Cell;
use std::marker::{PhantomData, PhantomPinned};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::pin::Pin;

thread_local! {
    static ARMED: Cell<u64> = const { Cell::new(0) };
    static DROPS: Cell<u64> = const { Cell::new(0) };
    static READS: Cell<u64> = const { Cell::new(0) };
    static SINK: Cell<u64> = const { Cell::new(0) };
}
pub fn arm(n: u64) { ARMED.with(|a| a.set(n)) }
/// Whether the armed fault is still waiting; disarms.
pub fn pending() -> bool { ARMED.with(|a| a.replace(0)) != 0 }
fn fault() {
    DROPS.with(|d| d.set(d.get() + 1));
    let boom = ARMED.with(|a| match a.get() {
        0 => false,
        1 => { a.set(0); true }
        n => { a.set(n - 1); false }
    });
    if boom {
        resume_unwind(Box::new(()));
    }
}
pub fn sink(x: u64) {
    SINK.with(|s| s.set(s.get().wrapping_mul(31).wrapping_add(x)));
    READS.with(|d| d.set(d.get() + 1));
}
pub fn on_body(_addr: usize, _fields: Vec<usize>) { fault() }
pub fn addr_of<T: ?Sized>(x: &T) -> usize { x as *const T as *const () as usize }

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        if self.0 == 0 {
            self.0 = 0x1234_5678_9abc_def1;
        }
        self.0.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() >> 33) as usize % n }
}

pub trait Fld {
    fn mk(_: &mut Rng) -> Self where Self: Sized { unreachable!() }
    fn rd(&self);
    fn touch(&mut self);
}
macro_rules! tok {
    ($name:ident, $(#[$m:meta])? $($p:ident)?) => {
        $(#[$m])?
        pub struct $name { b: Box<u32>, $(_p: $p)? }
        impl $name { pub fn new() -> Self { $name { b: Box::new(5), $(_p: $p)? } } }
        impl Drop for $name { fn drop(&mut self) { sink(u64::from(*self.b)); *self.b = 0; fault(); } }
        impl Fld for $name {
            fn mk(_: &mut Rng) -> Self { Self::new() }
            fn rd(&self) { sink(u64::from(*self.b)) }
            fn touch(&mut self) { *self.b += 1 }
        }
    };
}
tok!(Tok,);
tok!(PTok, PhantomPinned);
tok!(ATok, #[repr(align(64))]);
tok!(PATok, #[repr(align(32))] PhantomPinned);
macro_rules! ztok {
    ($name:ident, $($p:ident)?) => {
        pub struct $name { $(_p: $p,)? _q: () }
        impl Drop for $name { fn drop(&mut self) { fault() } }
        impl Fld for $name {
            fn mk(_: &mut Rng) -> Self { $name { $(_p: $p,)? _q: () } }
            fn rd(&self) {}
            fn touch(&mut self) {}
        }
    };
}
ztok!(ZTok,);
ztok!(PZTok, PhantomPinned);
macro_rules! int { ($($t:ty)*) => { $( impl Fld for $t {
    fn mk(r: &mut Rng) -> Self { r.next() as $t }
    fn rd(&self) { sink(*self as u64) }
    fn touch(&mut self) { *self = self.wrapping_add(1) }
} )* } }
int!(u8 u16 u32 u64 usize i8 i64 u128);
impl Fld for bool { fn mk(r: &mut Rng) -> Self { r.next() & 1 == 1 } fn rd(&self) { sink(*self as u64) } fn touch(&mut self) { *self = !*self } }
impl Fld for () { fn mk(_: &mut Rng) -> Self {} fn rd(&self) {} fn touch(&mut self) {} }
impl Fld for String { fn mk(_: &mut Rng) -> Self { String::from("s") } fn rd(&self) { sink(self.len() as u64) } fn touch(&mut self) { self.push('+') } }
impl<T: ?Sized> Fld for PhantomData<T> { fn mk(_: &mut Rng) -> Self { PhantomData } fn rd(&self) {} fn touch(&mut self) {} }
impl Fld for PhantomPinned { fn mk(_: &mut Rng) -> Self { PhantomPinned } fn rd(&self) {} fn touch(&mut self) {} }
fn idfn(x: u8) -> u8 { x }
impl Fld for fn(u8) -> u8 { fn mk(_: &mut Rng) -> Self { idfn } fn rd(&self) { sink(self(1).into()) } fn touch(&mut self) { *self = idfn } }
fn reffn(x: &u8) -> &u8 { x }
impl Fld for fn(&u8) -> &u8 { fn mk(_: &mut Rng) -> Self { reffn } fn rd(&self) { sink((*self(&1)).into()) } fn touch(&mut self) { *self = reffn } }
impl<F: Fld> Fld for Option<F> {
    fn mk(r: &mut Rng) -> Self { if r.below(4) == 0 { None } else { Some(F::mk(r)) } }
    fn rd(&self) { if let Some(f) = self { f.rd() } }
    fn touch(&mut self) { if let Some(f) = self { f.touch() } }
}
impl<F: Fld> Fld for Box<F> { fn mk(r: &mut Rng) -> Self { Box::new(F::mk(r)) } fn rd(&self) { (**self).rd() } fn touch(&mut self) { (**self).touch() } }
impl<F: Fld> Fld for Pin<Box<F>> { fn mk(r: &mut Rng) -> Self { Box::pin(F::mk(r)) } fn rd(&self) { (**self).rd() } fn touch(&mut self) { unsafe { self.as_mut().get_unchecked_mut() }.touch() } }
impl<F: Fld> Fld for Vec<F> { fn mk(r: &mut Rng) -> Self { (0..r.below(3)).map(|_| F::mk(r)).collect() } fn rd(&self) { for f in self { f.rd() } } fn touch(&mut self) { for f in self { f.touch() } } }
impl<F: Fld, const N: usize> Fld for [F; N] { fn mk(r: &mut Rng) -> Self { std::array::from_fn(|_| F::mk(r)) } fn rd(&self) { for f in self { f.rd() } } fn touch(&mut self) { for f in self { f.touch() } } }
impl<F: Fld> Fld for [F] { fn rd(&self) { for f in self { f.rd() } } fn touch(&mut self) { for f in self { f.touch() } } }
impl<A: Fld, B: Fld> Fld for (A, B) { fn mk(r: &mut Rng) -> Self { (A::mk(r), B::mk(r)) } fn rd(&self) { self.0.rd(); self.1.rd() } fn touch(&mut self) { self.0.touch(); self.1.touch() } }
static WORD: u64 = 77;
impl Fld for &'static u64 { fn mk(_: &mut Rng) -> Self { &WORD } fn rd(&self) { (**self).rd() } fn touch(&mut self) {} }
thread_local! { static KEPT: std::cell::RefCell<Vec<*mut u64>> = const { std::cell::RefCell::new(Vec::new()) }; }
impl Fld for &'static mut u64 {
    fn mk(r: &mut Rng) -> Self {
        let p = Box::into_raw(Box::new(r.next()));
        KEPT.with(|k| k.borrow_mut().push(p));
        unsafe { &mut *p }
    }
    fn rd(&self) { (**self).rd() }
    fn touch(&mut self) { (**self).touch() }
}
/// Frees what `&'static mut` fields pointed to, once no value lives.
fn free_kept() {
    KEPT.with(|k| for p in std::mem::take(&mut *k.borrow_mut()) { drop(unsafe { Box::from_raw(p) }) })
}

impl<A: Fld> Fld for (A,) { fn mk(r: &mut Rng) -> Self { (A::mk(r),) } fn rd(&self) { self.0.rd() } fn touch(&mut self) { self.0.touch() } }
impl<A: Fld, B: Fld, C: Fld> Fld for (A, B, C) { fn mk(r: &mut Rng) -> Self { (A::mk(r), B::mk(r), C::mk(r)) } fn rd(&self) { self.0.rd(); self.1.rd(); self.2.rd() } fn touch(&mut self) { self.0.touch(); self.1.touch(); self.2.touch() } }
impl<A: Fld, B: Fld> Fld for Result<A, B> {
    fn mk(r: &mut Rng) -> Self { if r.below(3) == 0 { Err(B::mk(r)) } else { Ok(A::mk(r)) } }
    fn rd(&self) { match self { Ok(a) => a.rd(), Err(b) => b.rd() } }
    fn touch(&mut self) { match self { Ok(a) => a.touch(), Err(b) => b.touch() } }
}
macro_rules! plain {
    ($([$($g:tt)*] $t:ty, $r:ident => $mk:expr, $s:ident => $fp:expr, $touch:expr;)*) => { $(
        impl<$($g)*> Fld for $t {
            fn mk($r: &mut Rng) -> Self { $mk }
            fn rd(&self) { let $s = self; sink($fp); }
            fn touch(&mut self) { let $s = self; $touch }
        }
    )* };
}
fn stop() -> ! { std::process::abort() }
unsafe extern "C" fn cfn() -> u8 { 3 }
fn nofn<T: ?Sized>(_: &T) {}
plain! {
    [T] *const T, r => std::ptr::null::<T>().wrapping_byte_add(r.below(999)), s => s.addr() as u64, *s = s.wrapping_byte_add(1);
    [T] *mut T, r => std::ptr::null_mut::<T>().wrapping_byte_add(r.below(999)), s => s.addr() as u64, *s = s.wrapping_byte_add(1);
    [] &'static str, r => ["x", "yy", "zzz"][r.below(3)], s => s.len() as u64, *s = "four";
    [] &'static [u8], r => [&[1u8][..], &[2, 3]][r.below(2)], s => s.iter().map(|x| u64::from(*x)).sum(), *s = &[];
    [] &'static (dyn Send + Sync), r => [&5u8 as &'static (dyn Send + Sync), &7u64][r.below(2)], s => std::mem::size_of_val(*s) as u64, *s = &();
    [] char, r => ['a', 'b', 'ü'][r.below(3)], s => u64::from(*s as u32), *s = 'z';
    [] fn() -> !, _r => stop, s => { let _ = *s; 1 }, *s = stop;
    [] unsafe extern "C" fn() -> u8, _r => cfn, s => { let _ = *s; 1 }, *s = cfn;
    [T] fn(&T), _r => nofn::<T>, s => { let _ = *s; 1 }, *s = nofn::<T>;
    [] std::cell::Cell<u8>, r => std::cell::Cell::new(r.below(200) as u8), s => u64::from(s.get()), s.set(s.get() / 2);
}
impl Fld for Box<dyn Fld> {
    fn mk(r: &mut Rng) -> Self { if r.below(2) == 0 { Box::new(Tok::mk(r)) } else { Box::new(PTok::mk(r)) } }
    fn rd(&self) { (**self).rd() } fn touch(&mut self) { (**self).touch() }
}
impl<F: Fld> Fld for Box<[F]> {
    fn mk(r: &mut Rng) -> Self { (0..r.below(3)).map(|_| F::mk(r)).collect() }
    fn rd(&self) { (**self).rd() } fn touch(&mut self) { (**self).touch() }
}

pub trait HasA { type A; }
impl HasA for u8 { type A = Tok; }
impl HasA for u16 { type A = PTok; }

/// Identity spellings of a type.
pub trait Same { type T: ?Sized; }
impl<X: ?Sized> Same for X { type T = X; }
pub type Id<T> = T;
#[macro_export]
macro_rules! ty { ($($t:tt)*) => { $($t)* }; }
#[macro_export]
macro_rules! tyf { ($t:ty) => { $t }; }
/// The tokens and pairs under names that belong to other types: what a field is must not be guessed from its spelling.
macro_rules! spell {
    ($($n:ident)*) => {
        #[allow(non_camel_case_types)]
        pub mod un { $(pub type $n = super::Tok;)* }
        #[allow(non_camel_case_types)]
        pub mod pn { $(pub type $n = super::PTok;)* }
        #[allow(non_camel_case_types)]
        pub mod wr { $(pub type $n<T> = (T, super::ZTok);)* }
    };
}
spell!(PhantomPinned PhantomData ManuallyDrop MaybeUninit Box Rc Arc Pin Option Vec String str u8 i32 usize bool char Cell RefCell
    UnsafeCell Unpin Drop Copy Sized Future Mutex Wrapper AlwaysUnpin Result NonNull Never Ref RefMut Cow Ptr T U Tok PTok Projection Instant);
pub trait Mark {}
impl<T: ?Sized> Mark for T {}

pub struct FObs;
pub struct Truth;
pub fn truth<T: Fld + ?Sized>(_: &'static str, _: bool, x: &T) -> Truth { x.rd(); Truth }
pub trait Path { fn rd(&self); fn touch(&mut self) {} }
impl<T: Fld + ?Sized> Path for Pin<&mut T> { fn rd(&self) { (**self).rd() } fn touch(&mut self) { unsafe { self.as_mut().get_unchecked_mut() }.touch() } }
impl<T: Fld + ?Sized> Path for &mut T { fn rd(&self) { (**self).rd() } fn touch(&mut self) { (**self).touch() } }
impl<T: Fld + ?Sized> Path for Pin<&T> { fn rd(&self) { (**self).rd() } }
impl<T: Fld + ?Sized> Path for &T { fn rd(&self) { (**self).rd() } }
pub fn see<P: Path>(p: &P) -> FObs { p.rd(); FObs }
pub fn touch<P: Path>(p: &mut P, _: &mut FObs) { p.touch(); p.rd() }
pub fn own<T: Fld>(x: &T) -> FObs { x.rd(); FObs }
pub type Res = (usize, Vec<FObs>);
#[derive(Clone, Copy)]
pub struct Caps { pub project: bool, pub project_ref: bool, pub replace: bool, pub pdrop: bool }
pub trait Subject: Sized + 'static {
    const NAME: &'static str;
    const CAPS: Caps;
    const VARIANTS: usize;
    fn make(v: usize, r: &mut Rng) -> Self;
    fn truth(&self) -> (usize, Vec<Truth>);
    fn proj(_this: Pin<&mut Self>) -> Res { unreachable!() }
    fn proj_ref(_this: Pin<&Self>) -> Res { unreachable!() }
    fn replace(_this: Pin<&mut Self>, _new: Self, _mid: &mut dyn FnMut(Res, Pin<&mut Self>)) { unreachable!() }
    fn as_unpin(_this: Pin<&mut Self>) -> Option<&mut Self> { None }
}
#[macro_export]
macro_rules! nest {
    ($t:ty) => {
        impl $crate::Fld for $t {
            fn mk(r: &mut $crate::Rng) -> Self {
                let v = r.below(<$t as $crate::Subject>::VARIANTS);
                <$t as $crate::Subject>::make(v, r)
            }
            fn rd(&self) { let _ = $crate::Subject::truth(self); }
            fn touch(&mut self) {
                if <$t as $crate::Subject>::CAPS.project {
                    let _ = <$t as $crate::Subject>::proj(unsafe { ::std::pin::Pin::new_unchecked(self) });
                }
            }
        }
    };
}
pub struct Report { name: &'static str, histories: u64, faults: u64 }
impl Report {
    pub fn print(&self) {
        println!("S\t{}\thistories={}\tinjected={}\tdrops={}\treads={}", self.name, self.histories, self.faults, DROPS.with(|d| d.replace(0)), READS.with(|d| d.replace(0)));
    }
}

fn one<S: Subject>(rep: &mut Report, mut x: Pin<&mut S>, rng: &mut Rng) {
    let c = S::CAPS;
    match rng.below(8) {
        0 | 1 if c.project => { S::proj(x.as_mut()); }
        2 if c.project_ref => { S::proj_ref(x.as_ref()); S::proj_ref(x.as_ref()); }
        3 | 4 | 5 if c.replace => {
            let new = S::make(rng.below(S::VARIANTS), rng);
            if rng.below(2) == 0 {
                arm(1 + rng.below(4) as u64);
            }
            let r = catch_unwind(AssertUnwindSafe(|| S::replace(x.as_mut(), new, &mut |_, mut p| {
                p.truth();
                if S::CAPS.project { S::proj(p.as_mut()); }
                if S::CAPS.project_ref { S::proj_ref(p.as_ref()); }
            })));
            pending();
            rep.faults += r.is_err() as u64;
        }
        6 => {
            let new = S::make(rng.below(S::VARIANTS), rng);
            if rng.below(3) == 0 {
                arm(1 + rng.below(4) as u64);
            }
            let r = catch_unwind(AssertUnwindSafe(|| x.set(new)));
            pending();
            rep.faults += r.is_err() as u64;
        }
        7 => {
            if let Some(m) = S::as_unpin(x.as_mut()) {
                let new = S::make(rng.below(S::VARIANTS), rng);
                let old = std::mem::replace(m, new);
                old.truth();
                m.truth();
                drop(old);
            }
        }
        _ => {}
    }
    x.truth();
}

pub fn drive<S: Subject>(seed: u64, histories: usize, steps: usize) -> Report {
    let mut rng = Rng::new(seed);
    let mut rep = Report { name: S::NAME, histories: 0, faults: 0 };
    let r = &mut rng;
    for v in 0..S::VARIANTS {
        rep.histories += 1;
        let mut b = Box::pin(S::make(v, r));
        if S::CAPS.project { S::proj(b.as_mut()); S::proj(b.as_mut()); }
        if S::CAPS.project_ref { S::proj_ref(b.as_ref()); }
        // the value can be reached through other paths afterwards
        b.truth();
        drop(b);
        if S::CAPS.replace {
            // without a fault, then with a fault in every destructor in turn
            let mut k = 0;
            loop {
                let mut b = Box::pin(S::make(v, r));
                let new = S::make(r.below(S::VARIANTS), r);
                arm(k);
                let res = catch_unwind(AssertUnwindSafe(|| S::replace(b.as_mut(), new, &mut |_, mut p| {
                    p.truth();
                    if S::CAPS.project { S::proj(p.as_mut()); }
                })));
                let left = pending();
                rep.faults += res.is_err() as u64;
                b.truth();
                if S::CAPS.project { S::proj(b.as_mut()); }
                drop(b);
                if k > 0 && left { break }
                k += 1;
            }
        }
        let mut k = 1;
        loop {
            let b = Box::pin(S::make(v, r));
            arm(k);
            let res = catch_unwind(AssertUnwindSafe(|| drop(b)));
            rep.faults += res.is_err() as u64;
            if pending() { break }
            k += 1;
        }
    }
    for _ in 0..histories {
        rep.histories += 1;
        let v = r.below(S::VARIANTS);
        let n = 1 + r.below(steps);
        match r.below(5) {
            0 => { let mut b = std::pin::pin!(S::make(v, r)); for _ in 0..n { one(&mut rep, b.as_mut(), r) } }
            1 => {
                let mut b = std::mem::ManuallyDrop::new(S::make(v, r));
                for _ in 0..n { one(&mut rep, unsafe { Pin::new_unchecked(&mut *b) }, r) }
                unsafe { std::mem::ManuallyDrop::drop(&mut b) }
            }
            2 => {
                let b = std::rc::Rc::pin(S::make(v, r));
                let c = b.clone();
                if S::CAPS.project_ref { S::proj_ref(b.as_ref()); S::proj_ref(c.as_ref()); }
                drop(b);
                c.truth();
            }
            3 => {
                let e = catch_unwind(AssertUnwindSafe(|| {
                    let mut b = std::pin::pin!(S::make(v, r));
                    for _ in 0..n { one(&mut rep, b.as_mut(), r) }
                    resume_unwind(Box::new(()));
                }));
                assert!(e.is_err());
            }
            _ => { let mut b = Box::pin(S::make(v, r)); for _ in 0..n { one(&mut rep, b.as_mut(), r) } }
        }
    }
    free_kept();
    rep
}
