//! Monitor runtime.
//!
//! Generated programs declare types with the macros under test and implement
//! [`Subject`] for them by *direct field access*; everything observed through
//! the generated projections is compared with what direct access shows, and
//! every destructor reports to a per-thread event log that is compared with
//! the order the language prescribes for the declaration.
#![allow(clippy::all)]

use std::any::type_name;
use std::cell::RefCell;
use std::collections::HashMap;
use std::marker::{PhantomData, PhantomPinned};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::pin::Pin;

// ---------------------------------------------------------------- event log

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    /// A token's destructor ran at this address.
    Drop { id: u64, addr: usize },
    /// The user's destructor body of a pinned type ran for the value at `addr`.
    Body { addr: usize, fields: Vec<usize> },
}

#[derive(Default)]
pub struct World {
    pub log: Vec<Ev>,
    pub live: HashMap<u64, i64>,
    next: u64,
    armed_id: Option<u64>,
    armed_body: Option<usize>,
    pub total_events: u64,
    pub injected: u64,
    errors: Vec<String>,
}

thread_local! {
    static W: RefCell<World> = RefCell::new(World { next: 100, ..World::default() });
}

pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(&mut w.borrow_mut()))
}

pub struct Injected;

fn fresh() -> u64 {
    with(|w| {
        w.next += 1;
        let id = w.next;
        w.live.insert(id, 1);
        id
    })
}

fn on_drop(id: u64, addr: usize) {
    let boom = with(|w| {
        w.log.push(Ev::Drop { id, addr });
        w.total_events += 1;
        let n = w.live.entry(id).or_insert(0);
        *n -= 1;
        if *n < 0 {
            w.errors.push(format!("value {} destroyed more than once", id));
        } else if *n == 0 {
            w.live.remove(&id);
        }
        if w.armed_id == Some(id) {
            w.armed_id = None;
            w.injected += 1;
            true
        } else {
            false
        }
    });
    if boom {
        resume_unwind(Box::new(Injected));
    }
}

/// Called by the destructor bodies of generated types.
pub fn on_body(addr: usize, fields: Vec<usize>) {
    let boom = with(|w| {
        w.log.push(Ev::Body { addr, fields });
        w.total_events += 1;
        if w.armed_body == Some(addr) {
            w.armed_body = None;
            w.injected += 1;
            true
        } else {
            false
        }
    });
    if boom {
        resume_unwind(Box::new(Injected));
    }
}

pub fn take_log() -> Vec<Ev> {
    with(|w| std::mem::take(&mut w.log))
}
pub fn arm_id(id: u64) {
    with(|w| w.armed_id = Some(id));
}
pub fn arm_body(addr: usize) {
    with(|w| w.armed_body = Some(addr));
}
pub fn disarm() -> bool {
    with(|w| w.armed_id.take().is_some() | w.armed_body.take().is_some())
}
fn take_errors() -> Vec<String> {
    with(|w| std::mem::take(&mut w.errors))
}
pub fn addr_of<T: ?Sized>(x: &T) -> usize {
    x as *const T as *const () as usize
}

// ---------------------------------------------------------------- rng

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        if self.0 == 0 {
            self.0 = 0x1234_5678_9abc_def1;
        }
        self.0.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() >> 33) as usize % n
    }
}

// ---------------------------------------------------------------- field types

/// What a field value can show: contents, the destructor events it will emit.
pub trait Fld {
    fn mk(_: &mut Rng) -> Self
    where
        Self: Sized,
    {
        unreachable!("not constructible")
    }
    fn fp(&self, out: &mut Vec<u64>);
    fn script(&self, out: &mut Vec<Ev>);
    fn touch(&mut self);
}

macro_rules! tok {
    ($(#[$m:meta])* $name:ident, $($p:ident)?) => {
        $(#[$m])*
        #[derive(Debug)]
        pub struct $name { id: u64, stamp: u64, $(#[allow(dead_code)] _p: $p)? }
        impl $name {
            pub fn new() -> Self { $name { id: fresh(), stamp: 0, $(_p: $p)? } }
            pub fn id(&self) -> u64 { self.id }
        }
        impl Drop for $name {
            fn drop(&mut self) { on_drop(self.id, addr_of(self)); }
        }
        impl Fld for $name {
            fn mk(_: &mut Rng) -> Self { Self::new() }
            fn fp(&self, out: &mut Vec<u64>) { out.push(self.id); out.push(self.stamp); }
            fn script(&self, out: &mut Vec<Ev>) {
                out.push(Ev::Drop { id: self.id, addr: addr_of(self) });
            }
            fn touch(&mut self) { self.stamp += 1; }
        }
    };
}
tok!(/// Unpin token.
    Tok,);
tok!(/// !Unpin token.
    PTok, PhantomPinned);
tok!(/// Unpin, over-aligned.
    #[repr(align(64))] ATok,);
tok!(/// !Unpin, over-aligned.
    #[repr(align(32))] PATok, PhantomPinned);

macro_rules! ztok {
    ($name:ident, $id:expr, $($p:ident)?) => {
        /// Zero-sized value with a destructor.
        #[derive(Debug)]
        pub struct $name { $(#[allow(dead_code)] _p: $p,)? #[allow(dead_code)] _q: () }
        impl Drop for $name { fn drop(&mut self) { on_drop($id, addr_of(self)); } }
        impl Fld for $name {
            fn mk(_: &mut Rng) -> Self {
                with(|w| *w.live.entry($id).or_insert(0) += 1);
                $name { $(_p: $p,)? _q: () }
            }
            fn fp(&self, out: &mut Vec<u64>) { out.push($id); }
            fn script(&self, out: &mut Vec<Ev>) {
                out.push(Ev::Drop { id: $id, addr: addr_of(self) });
            }
            fn touch(&mut self) {}
        }
    };
}
ztok!(ZTok, 1,);
ztok!(PZTok, 2, PhantomPinned);

macro_rules! int {
    ($($t:ty)*) => { $(
        impl Fld for $t {
            fn mk(r: &mut Rng) -> Self { r.next() as $t }
            fn fp(&self, out: &mut Vec<u64>) { out.push(*self as u64); }
            fn script(&self, _: &mut Vec<Ev>) {}
            fn touch(&mut self) { *self = self.wrapping_add(1); }
        }
    )* };
}
int!(u8 u16 u32 u64 usize i8 i64 u128);

impl Fld for bool {
    fn mk(r: &mut Rng) -> Self { r.next() & 1 == 1 }
    fn fp(&self, out: &mut Vec<u64>) { out.push(*self as u64); }
    fn script(&self, _: &mut Vec<Ev>) {}
    fn touch(&mut self) { *self = !*self; }
}
impl Fld for () {
    fn mk(_: &mut Rng) -> Self {}
    fn fp(&self, _: &mut Vec<u64>) {}
    fn script(&self, _: &mut Vec<Ev>) {}
    fn touch(&mut self) {}
}
impl Fld for String {
    fn mk(r: &mut Rng) -> Self { format!("s{}", r.next()) }
    fn fp(&self, out: &mut Vec<u64>) { out.extend(self.bytes().map(u64::from)); }
    fn script(&self, _: &mut Vec<Ev>) {}
    fn touch(&mut self) { self.push('+'); }
}
impl<T: ?Sized> Fld for PhantomData<T> {
    fn mk(_: &mut Rng) -> Self { PhantomData }
    fn fp(&self, out: &mut Vec<u64>) { out.push(7); }
    fn script(&self, _: &mut Vec<Ev>) {}
    fn touch(&mut self) {}
}
impl Fld for PhantomPinned {
    fn mk(_: &mut Rng) -> Self { PhantomPinned }
    fn fp(&self, out: &mut Vec<u64>) { out.push(8); }
    fn script(&self, _: &mut Vec<Ev>) {}
    fn touch(&mut self) {}
}
fn idfn(x: u8) -> u8 { x }
impl Fld for fn(u8) -> u8 {
    fn mk(_: &mut Rng) -> Self { idfn }
    fn fp(&self, out: &mut Vec<u64>) { out.push(u64::from(self(9))); }
    fn script(&self, _: &mut Vec<Ev>) {}
    fn touch(&mut self) {}
}
fn reffn(x: &u8) -> &u8 { x }
impl Fld for fn(&u8) -> &u8 {
    fn mk(_: &mut Rng) -> Self { reffn }
    fn fp(&self, out: &mut Vec<u64>) { out.push(u64::from(*self(&5))); }
    fn script(&self, _: &mut Vec<Ev>) {}
    fn touch(&mut self) {}
}
impl<F: Fld> Fld for Option<F> {
    fn mk(r: &mut Rng) -> Self { if r.below(4) == 0 { None } else { Some(F::mk(r)) } }
    fn fp(&self, out: &mut Vec<u64>) {
        match self { None => out.push(0), Some(f) => { out.push(1); f.fp(out) } }
    }
    fn script(&self, out: &mut Vec<Ev>) { if let Some(f) = self { f.script(out) } }
    fn touch(&mut self) { if let Some(f) = self { f.touch() } }
}
impl<F: Fld> Fld for Box<F> {
    fn mk(r: &mut Rng) -> Self { Box::new(F::mk(r)) }
    fn fp(&self, out: &mut Vec<u64>) { (**self).fp(out) }
    fn script(&self, out: &mut Vec<Ev>) { (**self).script(out) }
    fn touch(&mut self) { (**self).touch() }
}
impl<F: Fld> Fld for Pin<Box<F>> {
    fn mk(r: &mut Rng) -> Self { Box::pin(F::mk(r)) }
    fn fp(&self, out: &mut Vec<u64>) { (**self).fp(out) }
    fn script(&self, out: &mut Vec<Ev>) { (**self).script(out) }
    fn touch(&mut self) { unsafe { self.as_mut().get_unchecked_mut() }.touch() }
}
impl<F: Fld> Fld for Vec<F> {
    fn mk(r: &mut Rng) -> Self { (0..r.below(3)).map(|_| F::mk(r)).collect() }
    fn fp(&self, out: &mut Vec<u64>) { out.push(self.len() as u64); for f in self { f.fp(out) } }
    fn script(&self, out: &mut Vec<Ev>) { for f in self { f.script(out) } }
    fn touch(&mut self) { for f in self { f.touch() } }
}
impl<F: Fld, const N: usize> Fld for [F; N] {
    fn mk(r: &mut Rng) -> Self { std::array::from_fn(|_| F::mk(r)) }
    fn fp(&self, out: &mut Vec<u64>) { for f in self { f.fp(out) } }
    fn script(&self, out: &mut Vec<Ev>) { for f in self { f.script(out) } }
    fn touch(&mut self) { for f in self { f.touch() } }
}
impl<F: Fld> Fld for [F] {
    fn fp(&self, out: &mut Vec<u64>) { for f in self { f.fp(out) } }
    fn script(&self, out: &mut Vec<Ev>) { for f in self { f.script(out) } }
    fn touch(&mut self) { for f in self { f.touch() } }
}
impl Fld for str {
    fn fp(&self, out: &mut Vec<u64>) { out.extend(self.bytes().map(u64::from)); }
    fn script(&self, _: &mut Vec<Ev>) {}
    fn touch(&mut self) {}
}
impl<A: Fld, B: Fld> Fld for (A, B) {
    fn mk(r: &mut Rng) -> Self { (A::mk(r), B::mk(r)) }
    fn fp(&self, out: &mut Vec<u64>) { self.0.fp(out); self.1.fp(out) }
    fn script(&self, out: &mut Vec<Ev>) { self.0.script(out); self.1.script(out) }
    fn touch(&mut self) { self.0.touch(); self.1.touch() }
}
impl<F: Fld + Copy> Fld for &'static F {
    fn mk(r: &mut Rng) -> Self { Box::leak(Box::new(F::mk(r))) }
    fn fp(&self, out: &mut Vec<u64>) { (**self).fp(out) }
    fn script(&self, _: &mut Vec<Ev>) {}
    fn touch(&mut self) {}
}
impl<F: Fld + Copy> Fld for &'static mut F {
    fn mk(r: &mut Rng) -> Self { Box::leak(Box::new(F::mk(r))) }
    fn fp(&self, out: &mut Vec<u64>) { (**self).fp(out) }
    fn script(&self, _: &mut Vec<Ev>) {}
    fn touch(&mut self) { (**self).touch() }
}

impl<A: Fld> Fld for (A,) {
    fn mk(r: &mut Rng) -> Self { (A::mk(r),) }
    fn fp(&self, out: &mut Vec<u64>) { self.0.fp(out) }
    fn script(&self, out: &mut Vec<Ev>) { self.0.script(out) }
    fn touch(&mut self) { self.0.touch() }
}
impl<A: Fld, B: Fld, C: Fld> Fld for (A, B, C) {
    fn mk(r: &mut Rng) -> Self { (A::mk(r), B::mk(r), C::mk(r)) }
    fn fp(&self, out: &mut Vec<u64>) { self.0.fp(out); self.1.fp(out); self.2.fp(out) }
    fn script(&self, out: &mut Vec<Ev>) { self.0.script(out); self.1.script(out); self.2.script(out) }
    fn touch(&mut self) { self.0.touch(); self.1.touch(); self.2.touch() }
}
impl<A: Fld, B: Fld> Fld for Result<A, B> {
    fn mk(r: &mut Rng) -> Self { if r.below(3) == 0 { Err(B::mk(r)) } else { Ok(A::mk(r)) } }
    fn fp(&self, out: &mut Vec<u64>) { match self { Ok(a) => { out.push(3); a.fp(out) } Err(b) => { out.push(4); b.fp(out) } } }
    fn script(&self, out: &mut Vec<Ev>) { match self { Ok(a) => a.script(out), Err(b) => b.script(out) } }
    fn touch(&mut self) { match self { Ok(a) => a.touch(), Err(b) => b.touch() } }
}
macro_rules! plain {
    ($([$($g:tt)*] $t:ty, $r:ident => $mk:expr, $s:ident => $fp:expr, $touch:expr;)*) => { $(
        impl<$($g)*> Fld for $t {
            fn mk($r: &mut Rng) -> Self { $mk }
            fn fp(&self, out: &mut Vec<u64>) { let $s = self; out.push($fp); }
            fn script(&self, _: &mut Vec<Ev>) {}
            fn touch(&mut self) { let $s = self; $touch }
        }
    )* };
}
fn stop() -> ! { std::process::abort() }
unsafe extern "C" fn cfn() -> u8 { 3 }
fn nofn<T: ?Sized>(_: &T) {}
plain! {
    [T] *const T, r => std::ptr::null::<T>().wrapping_byte_add(r.below(999)), s => *s as usize as u64, *s = s.wrapping_byte_add(1);
    [T] *mut T, r => std::ptr::null_mut::<T>().wrapping_byte_add(r.below(999)), s => *s as usize as u64, *s = s.wrapping_byte_add(1);
    [] &'static str, r => ["x", "yy", "zzz"][r.below(3)], s => s.len() as u64, *s = "four";
    [] &'static [u8], r => [&[1u8][..], &[2, 3]][r.below(2)], s => s.iter().map(|x| u64::from(*x)).sum(), *s = &[];
    [] &'static (dyn Send + Sync), r => [&5u8 as &'static (dyn Send + Sync), &7u64][r.below(2)], s => std::mem::size_of_val(*s) as u64, *s = &();
    [] char, r => ['a', 'b', 'ü'][r.below(3)], s => u64::from(*s as u32), *s = 'z';
    [] fn() -> !, _r => stop, s => *s as usize as u64, { let _ = s; };
    [] unsafe extern "C" fn() -> u8, _r => cfn, s => *s as usize as u64, { let _ = s; };
    [T] fn(&T), _r => nofn::<T>, s => *s as usize as u64, { let _ = s; };
    [] std::cell::Cell<u8>, r => std::cell::Cell::new(r.below(200) as u8), s => u64::from(s.get()), s.set(s.get() + 1);
}
impl Fld for Box<dyn Fld> {
    fn mk(r: &mut Rng) -> Self { if r.below(2) == 0 { Box::new(Tok::mk(r)) } else { Box::new(PTok::mk(r)) } }
    fn fp(&self, out: &mut Vec<u64>) { (**self).fp(out) }
    fn script(&self, out: &mut Vec<Ev>) { (**self).script(out) }
    fn touch(&mut self) { (**self).touch() }
}
impl<F: Fld> Fld for Box<[F]> {
    fn mk(r: &mut Rng) -> Self { (0..r.below(3)).map(|_| F::mk(r)).collect() }
    fn fp(&self, out: &mut Vec<u64>) { (**self).fp(out) }
    fn script(&self, out: &mut Vec<Ev>) { (**self).script(out) }
    fn touch(&mut self) { (**self).touch() }
}

/// Trait with an associated type, for projections such as `<T as HasA>::A`.
pub trait HasA { type A; }
impl HasA for u8 { type A = Tok; }
impl HasA for u16 { type A = PTok; }
pub trait Mark {}
impl<T: ?Sized> Mark for T {}

/// Identity spellings of a type.
pub trait Same { type T: ?Sized; }
impl<X: ?Sized> Same for X { type T = X; }
pub type Id<T> = T;
#[macro_export]
macro_rules! ty { ($($t:tt)*) => { $($t)* }; }
#[macro_export]
macro_rules! tyf { ($t:ty) => { $t }; }
/// The tokens and pairs under names that belong to other types: what a field is must not be guessed from its spelling.
macro_rules! spell {
    ($($n:ident)*) => {
        #[allow(non_camel_case_types)]
        pub mod un { $(pub type $n = super::Tok;)* }
        #[allow(non_camel_case_types)]
        pub mod pn { $(pub type $n = super::PTok;)* }
        #[allow(non_camel_case_types)]
        pub mod wr { $(pub type $n<T> = (T, super::ZTok);)* }
    };
}
spell!(PhantomPinned PhantomData ManuallyDrop MaybeUninit Box Rc Arc Pin Option Vec String str u8 i32 usize bool char Cell RefCell
    UnsafeCell Unpin Drop Copy Sized Future Mutex Wrapper AlwaysUnpin Result NonNull Never Ref RefMut Cow Ptr T U Tok PTok Projection Instant);

// ---------------------------------------------------------------- observations

/// One field as seen through one access path.
#[derive(Clone, Debug)]
pub struct FObs {
    pub ty: &'static str,
    pub addr: usize,
    pub size: usize,
    pub fp: Vec<u64>,
    pub fp_after: Vec<u64>,
    pub script: Vec<Ev>,
}

/// One field as seen by direct access, with every type name a projection may show.
#[derive(Clone, Debug)]
pub struct Truth {
    pub name: &'static str,
    pub pinned: bool,
    pub addr: usize,
    pub size: usize,
    pub fp: Vec<u64>,
    pub script: Vec<Ev>,
    pub ty_pin_mut: &'static str,
    pub ty_mut: &'static str,
    pub ty_pin_ref: &'static str,
    pub ty_ref: &'static str,
    pub ty_own: &'static str,
    pub ty_phantom: &'static str,
}

pub fn truth<T: Fld + ?Sized>(name: &'static str, pinned: bool, x: &T) -> Truth {
    let mut fp = vec![];
    x.fp(&mut fp);
    let mut script = vec![];
    x.script(&mut script);
    Truth {
        name,
        pinned,
        addr: addr_of(x),
        size: std::mem::size_of_val(x),
        fp,
        script,
        ty_pin_mut: type_name::<Pin<&mut T>>(),
        ty_mut: type_name::<&mut T>(),
        ty_pin_ref: type_name::<Pin<&T>>(),
        ty_ref: type_name::<&T>(),
        ty_own: type_name::<T>(),
        ty_phantom: type_name::<PhantomData<T>>(),
    }
}

/// Access paths a projection can hand out.
pub trait Path {
    fn addr(&self) -> usize;
    fn size(&self) -> usize;
    fn fp(&self, out: &mut Vec<u64>);
    fn touch(&mut self) {}
}
impl<T: Fld + ?Sized> Path for Pin<&mut T> {
    fn addr(&self) -> usize { addr_of(&**self) }
    fn size(&self) -> usize { std::mem::size_of_val(&**self) }
    fn fp(&self, out: &mut Vec<u64>) { (**self).fp(out) }
    fn touch(&mut self) { unsafe { self.as_mut().get_unchecked_mut() }.touch() }
}
impl<T: Fld + ?Sized> Path for &mut T {
    fn addr(&self) -> usize { addr_of(&**self) }
    fn size(&self) -> usize { std::mem::size_of_val(&**self) }
    fn fp(&self, out: &mut Vec<u64>) { (**self).fp(out) }
    fn touch(&mut self) { (**self).touch() }
}
impl<T: Fld + ?Sized> Path for Pin<&T> {
    fn addr(&self) -> usize { addr_of(&**self) }
    fn size(&self) -> usize { std::mem::size_of_val(&**self) }
    fn fp(&self, out: &mut Vec<u64>) { (**self).fp(out) }
}
impl<T: Fld + ?Sized> Path for &T {
    fn addr(&self) -> usize { addr_of(&**self) }
    fn size(&self) -> usize { std::mem::size_of_val(&**self) }
    fn fp(&self, out: &mut Vec<u64>) { (**self).fp(out) }
}

pub fn see<P: Path>(p: &P) -> FObs {
    let mut fp = vec![];
    p.fp(&mut fp);
    FObs {
        ty: type_name::<P>(),
        addr: p.addr(),
        size: p.size(),
        fp,
        fp_after: vec![],
        script: vec![],
    }
}
pub fn touch<P: Path>(p: &mut P, o: &mut FObs) {
    p.touch();
    p.fp(&mut o.fp_after);
}
/// A field of an owned projection.
pub fn own<T: Fld>(x: &T) -> FObs {
    let mut fp = vec![];
    x.fp(&mut fp);
    let mut script = vec![];
    x.script(&mut script);
    FObs { ty: type_name::<T>(), addr: addr_of(x), size: std::mem::size_of::<T>(), fp, fp_after: vec![], script }
}

// ---------------------------------------------------------------- subjects

pub type Res = (usize, Vec<FObs>);

#[derive(Clone, Copy)]
pub struct Caps {
    pub project: bool,
    pub project_ref: bool,
    pub replace: bool,
    pub pdrop: bool,
}

pub trait Subject: Sized + 'static {
    const NAME: &'static str;
    const CAPS: Caps;
    const VARIANTS: usize;
    fn make(v: usize, r: &mut Rng) -> Self;
    /// Direct access: variant index and fields in declaration order.
    fn truth(&self) -> (usize, Vec<Truth>);
    fn proj(_this: Pin<&mut Self>) -> Res { unreachable!() }
    fn proj_ref(_this: Pin<&Self>) -> Res { unreachable!() }
    fn replace(_this: Pin<&mut Self>, _new: Self, _mid: &mut dyn FnMut(Res, Pin<&mut Self>)) {
        unreachable!()
    }
    /// `Some` exactly when the type is `Unpin`.
    fn as_unpin(_this: Pin<&mut Self>) -> Option<&mut Self> { None }
    fn script(&self) -> Vec<Ev> {
        let (_, t) = self.truth();
        let mut out = vec![];
        if Self::CAPS.pdrop {
            out.push(Ev::Body { addr: addr_of(self), fields: t.iter().map(|t| t.addr).collect() });
        }
        for f in t {
            out.extend(f.script);
        }
        out
    }
}

/// Implements `Fld` for a `Subject`, so that it can be a field of another one.
#[macro_export]
macro_rules! nest {
    ($t:ty) => {
        impl $crate::Fld for $t {
            fn mk(r: &mut $crate::Rng) -> Self {
                let v = r.below(<$t as $crate::Subject>::VARIANTS);
                <$t as $crate::Subject>::make(v, r)
            }
            fn fp(&self, out: &mut Vec<u64>) {
                let (v, t) = $crate::Subject::truth(self);
                out.push(v as u64);
                for f in t { out.extend(f.fp) }
            }
            fn script(&self, out: &mut Vec<$crate::Ev>) {
                out.extend($crate::Subject::script(self))
            }
            fn touch(&mut self) {
                if <$t as $crate::Subject>::CAPS.project {
                    let _ = <$t as $crate::Subject>::proj(unsafe { ::std::pin::Pin::new_unchecked(self) });
                }
            }
        }
    };
}

// ---------------------------------------------------------------- the driver

pub struct Report {
    pub decl: &'static str,
    pub bad: Vec<(&'static str, String)>,
    pub histories: u64,
    pub ops: HashMap<&'static str, u64>,
    pub checks: u64,
    pub states: std::collections::HashSet<u64>,
}
impl Report {
    pub fn new(decl: &'static str) -> Self {
        Report { decl, bad: vec![], histories: 0, ops: HashMap::new(), checks: 0, states: Default::default() }
    }
    pub fn bad(&mut self, class: &'static str, msg: String) {
        if self.bad.len() < 40 {
            self.bad.push((class, msg));
        }
    }
    fn op(&mut self, name: &'static str) {
        *self.ops.entry(name).or_insert(0) += 1;
    }
    pub fn print(&self) {
        for (c, m) in &self.bad {
            println!("V\t{}\t{}\t{}", self.decl, c, m.replace(['\n', '\t'], " "));
        }
        let mut ops: Vec<_> = self.ops.iter().map(|(k, v)| format!("{}={}", k, v)).collect();
        ops.sort();
        let (ev, inj) = with(|w| (std::mem::take(&mut w.total_events), std::mem::take(&mut w.injected)));
        println!(
            "S\t{}\thistories={}\tchecks={}\tevents={}\tinjected={}\tstates={}\t{}",
            self.decl, self.histories, self.checks, ev, inj, self.states.len(), ops.join("\t")
        );
    }
}

fn show(evs: &[Ev]) -> String {
    let v: Vec<String> = evs
        .iter()
        .map(|e| match e {
            Ev::Drop { id, addr } => format!("drop {}@{:x}", id, addr),
            Ev::Body { addr, .. } => format!("body@{:x}", addr),
        })
        .collect();
    format!("[{}]", v.join(", "))
}

fn ids(evs: &[Ev]) -> Vec<u64> {
    evs.iter()
        .map(|e| match e {
            Ev::Drop { id, .. } => *id,
            Ev::Body { .. } => 0,
        })
        .collect()
}

fn fps(t: &[Truth]) -> Vec<Vec<u64>> {
    t.iter().map(|t| t.fp.clone()).collect()
}

/// Compares a projection's answer with direct access.
fn check_proj(rep: &mut Report, what: &'static str, by_mut: bool, t: &(usize, Vec<Truth>), r: &Res) {
    rep.checks += 1;
    if t.0 != r.0 {
        rep.bad("proj", format!("{}: value holds variant {}, projection shows {}", what, t.0, r.0));
        return;
    }
    if t.1.len() != r.1.len() {
        rep.bad("proj", format!("{}: {} fields declared, {} projected", what, t.1.len(), r.1.len()));
        return;
    }
    for (t, o) in t.1.iter().zip(&r.1) {
        rep.checks += 1;
        let want = match (t.pinned, by_mut) {
            (true, true) => t.ty_pin_mut,
            (false, true) => t.ty_mut,
            (true, false) => t.ty_pin_ref,
            (false, false) => t.ty_ref,
        };
        if o.ty != want {
            let c = if t.pinned { "kind-pinned" } else { "kind-unpinned" };
            rep.bad(c, format!("{}: field {} projected as {}, expected {}", what, t.name, o.ty, want));
        }
        if o.addr != t.addr || o.size != t.size {
            rep.bad("proj", format!(
                "{}: field {} lies at {:x}+{}, projection points to {:x}+{}",
                what, t.name, t.addr, t.size, o.addr, o.size));
        }
        if o.fp != t.fp {
            rep.bad("proj", format!("{}: field {} holds {:?}, projection shows {:?}", what, t.name, t.fp, o.fp));
        }
    }
}

fn state_hash(t: &(usize, Vec<Truth>)) -> u64 {
    // abstract state: variant, per-field event count and touched-ness
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ t.0 as u64;
    for f in &t.1 {
        h = (h ^ f.script.len() as u64).wrapping_mul(0x100_0000_01b3);
        h = (h ^ f.fp.len() as u64).wrapping_mul(0x100_0000_01b3);
        h = (h ^ f.fp.get(1).copied().unwrap_or(9).min(3)).wrapping_mul(0x100_0000_01b3);
    }
    h
}

fn expect_log(rep: &mut Report, class: &'static str, what: &str, want: &[Ev]) {
    let got = take_log();
    rep.checks += 1;
    if got != want {
        rep.bad(class, format!("{}: destructor events {}, expected {}", what, show(&got), show(want)));
        // same values in the same order, but destroyed somewhere else: they were moved
        if ids(&got) == ids(want) {
            rep.bad("moved", format!("{}: destroyed at another address: {} expected {}", what, show(&got), show(want)));
        }
    }
    for e in take_errors() {
        rep.bad(class, format!("{}: {}", what, e));
        rep.bad("double", format!("{}: {}", what, e));
    }
}

fn quiet_log(rep: &mut Report, class: &'static str, what: &str) {
    expect_log(rep, class, what, &[]);
}

fn check_value(rep: &mut Report, class: &'static str, what: &str, t: &(usize, Vec<Truth>), v: usize, want: &[Vec<u64>]) {
    rep.checks += 1;
    if t.0 != v || fps(&t.1) != want {
        rep.bad(class, format!("{}: place holds variant {} {:?}, expected variant {} {:?}", what, t.0, fps(&t.1), v, want));
    }
}

/// Runs one projecting operation and checks it.
fn op_project<S: Subject>(rep: &mut Report, x: Pin<&mut S>) {
    rep.op("project");
    let mut x = x;
    let t = x.truth();
    let base = addr_of(&*x);
    let r = S::proj(x.as_mut());
    check_proj(rep, "project", true, &t, &r);
    let t2 = x.truth();
    if addr_of(&*x) != base {
        rep.bad("moved", "project: value moved".into());
    }
    if t2.1.len() == t.1.len() && r.1.len() == t.1.len() {
        for ((a, b), o) in t.1.iter().zip(&t2.1).zip(&r.1) {
            rep.checks += 1;
            if b.addr != a.addr {
                rep.bad("moved", format!("project: field {} moved", a.name));
            }
            if b.fp != o.fp_after {
                rep.bad("proj", format!("project: field {} written through the projection shows {:?}, wrote {:?}", a.name, b.fp, o.fp_after));
            }
        }
    }
    quiet_log(rep, "proj", "project");
}

fn op_project_ref<S: Subject>(rep: &mut Report, x: Pin<&S>) {
    rep.op("project_ref");
    let t = x.truth();
    let r = S::proj_ref(x);
    check_proj(rep, "project_ref", false, &t, &r);
    let t2 = x.truth();
    if fps(&t.1) != fps(&t2.1) {
        rep.bad("proj", "project_ref changed the value".into());
    }
    quiet_log(rep, "proj", "project_ref");
}

fn op_set<S: Subject>(rep: &mut Report, mut x: Pin<&mut S>, rng: &mut Rng, boom: bool) {
    let new = S::make(rng.below(S::VARIANTS), rng);
    let (v, t) = new.truth();
    let want_fp = fps(&t);
    let want = x.script();
    let base = addr_of(&*x);
    let armed = boom && arm_some(&want, rng);
    rep.op(if armed { "set_panic" } else { "set" });
    let res = catch_unwind(AssertUnwindSafe(|| x.as_mut().set(new)));
    let what = if armed { "set with a panicking destructor" } else { "set" };
    if res.is_err() != armed {
        rep.bad("drop", format!("{}: panicked={} expected={}", what, res.is_err(), armed));
    }
    if disarm() {
        rep.bad("drop", format!("{}: armed destructor never ran", what));
    }
    expect_log(rep, "drop", what, &want);
    let t = x.truth();
    check_value(rep, "drop", what, &t, v, &want_fp);
    if addr_of(&*x) != base {
        rep.bad("moved", "set: place moved".into());
    }
}

fn arm_some(script: &[Ev], rng: &mut Rng) -> bool {
    let c: Vec<&Ev> = script.iter().filter(|e| !matches!(e, Ev::Drop { id, .. } if *id < 100)).collect();
    if c.is_empty() {
        return false;
    }
    match c[rng.below(c.len())] {
        Ev::Drop { id, .. } => arm_id(*id),
        Ev::Body { addr, .. } => arm_body(*addr),
    }
    true
}

fn op_replace<S: Subject>(rep: &mut Report, mut x: Pin<&mut S>, rng: &mut Rng) {
    rep.op("replace");
    let old = x.truth();
    let base = addr_of(&*x);
    let new = S::make(rng.below(S::VARIANTS), rng);
    let (nv, nt) = new.truth();
    let want_fp = fps(&nt);
    let mut pinned_events = vec![];
    for f in old.1.iter().filter(|f| f.pinned) {
        pinned_events.extend(f.script.clone());
    }
    let mut unpinned_ids = vec![];
    for f in old.1.iter().filter(|f| !f.pinned) {
        unpinned_ids.extend(ids(&f.script));
    }
    let mut called = false;
    S::replace(x.as_mut(), new, &mut |r, place| {
        called = true;
        expect_log(rep, "replace", "project_replace", &pinned_events);
        if r.0 != old.0 {
            rep.bad("replace", format!("project_replace: old value was variant {}, result is {}", old.0, r.0));
        } else if r.1.len() != old.1.len() {
            rep.bad("replace", format!("project_replace: {} fields, result has {}", old.1.len(), r.1.len()));
        } else {
            for (t, o) in old.1.iter().zip(&r.1) {
                rep.checks += 1;
                let want = if t.pinned { t.ty_phantom } else { t.ty_own };
                if o.ty != want {
                    rep.bad("replace", format!("project_replace: field {} returned as {}, expected {}", t.name, o.ty, want));
                    if t.pinned {
                        rep.bad("kind-pinned", format!("project_replace: pinned field {} returned as {}", t.name, o.ty));
                    }
                }
                if !t.pinned && o.fp != t.fp {
                    rep.bad("replace", format!("project_replace: field {} returned {:?}, held {:?}", t.name, o.fp, t.fp));
                }
            }
        }
        let now = place.truth();
        check_value(rep, "replace", "project_replace", &now, nv, &want_fp);
        if addr_of(&*place) != base {
            rep.bad("moved", "project_replace: place moved".into());
        }
    });
    if !called {
        rep.bad("replace", "project_replace: no result observed".into());
    }
    // the owned projection has been dropped by now: exactly the unpinned values go
    let got = take_log();
    rep.checks += 1;
    let mut g = ids(&got);
    let mut w = unpinned_ids.clone();
    g.sort();
    w.sort();
    if g != w {
        rep.bad("replace", format!("dropping the result destroyed {:?}, expected {:?}", g, w));
    }
    for e in take_errors() {
        rep.bad("replace", e);
    }
    let now = x.truth();
    check_value(rep, "replace", "after project_replace", &now, nv, &want_fp);
}

/// project_replace where the destructor of one pinned value panics; one call per pinned value.
fn op_replace_panic<S: Subject>(rep: &mut Report, mut x: Pin<&mut S>, rng: &mut Rng, which: usize) -> bool {
    let old = x.truth();
    let mut pinned_events = vec![];
    for f in old.1.iter().filter(|f| f.pinned) {
        pinned_events.extend(f.script.clone());
    }
    let cands: Vec<Ev> = pinned_events.iter().filter(|e| !matches!(e, Ev::Drop { id, .. } if *id < 100)).cloned().collect();
    if which >= cands.len() {
        return false;
    }
    rep.op("replace_panic");
    let new = S::make(rng.below(S::VARIANTS), rng);
    let (nv, nt) = new.truth();
    let want_fp = fps(&nt);
    let mut unpinned_ids = vec![];
    for f in old.1.iter().filter(|f| !f.pinned) {
        unpinned_ids.extend(ids(&f.script));
    }
    match &cands[which] {
        Ev::Drop { id, .. } => arm_id(*id),
        Ev::Body { addr, .. } => arm_body(*addr),
    }
    let res = catch_unwind(AssertUnwindSafe(|| S::replace(x.as_mut(), new, &mut |_, _| {})));
    if res.is_ok() {
        rep.bad("replace-panic", "the panic of a pinned field's destructor did not reach the caller".into());
    }
    if disarm() {
        rep.bad("replace-panic", format!("destructor of pinned value #{} never ran", which));
    }
    let got = take_log();
    rep.checks += 1;
    // pinned values in declaration order, each once, in place; then/also every unpinned value once
    let mut gp: Vec<Ev> = vec![];
    let mut gu: Vec<u64> = vec![];
    let uset: std::collections::HashSet<u64> = unpinned_ids.iter().copied().collect();
    let pset: std::collections::HashSet<u64> = ids(&pinned_events).into_iter().collect();
    let amb: std::collections::HashSet<u64> = uset.intersection(&pset).copied().collect();
    for e in &got {
        match e {
            Ev::Drop { id, .. } if amb.contains(id) => {}
            Ev::Drop { id, .. } if uset.contains(id) => gu.push(*id),
            e => gp.push(e.clone()),
        }
    }
    let wp: Vec<Ev> = pinned_events.iter().filter(|e| !matches!(e, Ev::Drop { id, .. } if amb.contains(id))).cloned().collect();
    // a nested body inside an unpinned value logs at its moved address: compare bodies by count
    let nb = |v: &[Ev]| v.iter().filter(|e| matches!(e, Ev::Body { .. })).count();
    let total_bodies = nb(&pinned_events) + old.1.iter().filter(|f| !f.pinned).map(|f| nb(&f.script)).sum::<usize>();
    if nb(&got) != total_bodies {
        rep.bad("replace-panic", format!("{} destructor bodies ran, expected {}", nb(&got), total_bodies));
    }
    let drops = |v: &[Ev]| v.iter().filter(|e| matches!(e, Ev::Drop { .. })).cloned().collect::<Vec<_>>();
    if drops(&gp) != drops(&wp) {
        rep.bad("replace-panic", format!("pinned values: destructor events {}, expected {}", show(&gp), show(&wp)));
        if ids(&gp) == ids(&wp) {
            rep.bad("moved", format!("pinned values destroyed elsewhere: {} expected {}", show(&gp), show(&wp)));
        }
    }
    let mut w = unpinned_ids.clone();
    w.retain(|i| !amb.contains(i) && *i != 0);
    gu.retain(|i| *i != 0);
    gu.sort();
    w.sort();
    if gu != w {
        rep.bad("replace-panic", format!("unpinned values destroyed {:?}, expected {:?}", gu, w));
    }
    for a in &amb {
        let n = got.iter().filter(|e| matches!(e, Ev::Drop { id, .. } if id == a)).count();
        let wn = ids(&pinned_events).iter().chain(&unpinned_ids).filter(|i| *i == a).count();
        if *a != 0 && n != wn {
            rep.bad("replace-panic", format!("zero-sized values: {} destroyed, expected {}", n, wn));
        }
    }
    for e in take_errors() {
        rep.bad("replace-panic", e.clone());
        rep.bad("double", e);
    }
    let now = x.truth();
    check_value(rep, "replace-panic", "after a panicking project_replace", &now, nv, &want_fp);
    true
}

fn op_move<S: Subject>(rep: &mut Report, x: Pin<&mut S>, rng: &mut Rng) {
    // Only types that are Unpin hand out `&mut S`.
    if let Some(m) = S::as_unpin(x) {
        rep.op("move");
        let new = S::make(rng.below(S::VARIANTS), rng);
        let (ov, ot) = m.truth();
        let (nv, nt) = new.truth();
        let old = std::mem::replace(m, new);
        let t = m.truth();
        check_value(rep, "drop", "mem::replace", &t, nv, &fps(&nt));
        let t = old.truth();
        check_value(rep, "drop", "mem::replace old", &t, ov, &fps(&ot));
        quiet_log(rep, "drop", "mem::replace");
        drop_checked(rep, "moved-out value", old);
    }
}

fn drop_checked<S: Subject>(rep: &mut Report, what: &str, v: S) {
    let b = Box::new(v);
    let want = b.script();
    drop(b);
    expect_log(rep, "drop", what, &want);
}

fn finish_live(rep: &mut Report, what: &str) {
    rep.checks += 1;
    let left: Vec<u64> = with(|w| {
        let l = w.live.iter().filter(|(_, n)| **n != 0).map(|(k, _)| *k).collect();
        w.live.clear();
        l
    });
    if !left.is_empty() {
        rep.bad("leak", format!("{}: values never destroyed: {:?}", what, left));
    }
}

fn step<S: Subject>(rep: &mut Report, mut x: Pin<&mut S>, rng: &mut Rng) {
    rep.states.insert(state_hash(&x.truth()));
    let c = S::CAPS;
    for _ in 0..8 {
        match rng.below(9) {
            0 | 1 if c.project => return op_project(rep, x),
            2 | 3 if c.project_ref => return op_project_ref(rep, x.as_ref()),
            4 => return op_set(rep, x, rng, false),
            5 if c.replace => return op_replace(rep, x, rng),
            6 if c.replace => {
                let which = rng.below(6);
                for w in (0..=which).rev() {
                    if op_replace_panic(rep, x.as_mut(), rng, w) {
                        return;
                    }
                }
            }
            7 => return op_move(rep, x, rng),
            8 => return op_set(rep, x, rng, true),
            _ => {}
        }
    }
}

fn history<S: Subject>(rep: &mut Report, rng: &mut Rng, steps: usize) {
    rep.histories += 1;
    take_log();
    let v = rng.below(S::VARIANTS);
    let route = rng.below(9);
    let n = 1 + rng.below(steps);
    macro_rules! go {
        ($x:expr) => {
            for _ in 0..n {
                step(rep, $x, rng);
            }
        };
    }
    match route {
        0 => {
            let mut b = Box::pin(S::make(v, rng));
            go!(b.as_mut());
            rep.op("end_box");
            let want = b.script();
            drop(b);
            expect_log(rep, "drop", "drop of a pinned box", &want);
        }
        1 => {
            let want;
            {
                let mut b = std::pin::pin!(S::make(v, rng));
                go!(b.as_mut());
                rep.op("end_scope");
                want = b.script();
            }
            expect_log(rep, "drop", "end of scope", &want);
        }
        2 => {
            // unwinding through the frame that owns the pinned value
            let mut want = vec![];
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut b = std::pin::pin!(S::make(v, rng));
                go!(b.as_mut());
                rep.op("end_unwind");
                want = b.script();
                resume_unwind(Box::new(Injected));
            }));
            assert!(r.is_err());
            expect_log(rep, "drop", "unwinding", &want);
        }
        3 => {
            let mut b = Box::pin(S::make(v, rng));
            go!(b.as_mut());
            let want = b.script();
            let armed = arm_some(&want, rng);
            rep.op(if armed { "end_drop_panic" } else { "end_box" });
            let r = catch_unwind(AssertUnwindSafe(|| drop(b)));
            if r.is_err() != armed {
                rep.bad("drop", format!("drop with armed={}: panicked={}", armed, r.is_err()));
            }
            if disarm() {
                rep.bad("drop", "armed destructor never ran".into());
            }
            expect_log(rep, "drop", "drop with a panicking destructor", &want);
        }
        4 => {
            // several pinned values in one collection
            let mut bs: Vec<Pin<Box<S>>> = (0..3).map(|_| Box::pin(S::make(rng.below(S::VARIANTS), rng))).collect();
            for _ in 0..n {
                let i = rng.below(3);
                step(rep, bs[i].as_mut(), rng);
            }
            rep.op("end_vec");
            let mut want = vec![];
            bs.truncate(3);
            for b in &bs {
                want.extend(b.script());
            }
            drop(bs);
            expect_log(rep, "drop", "drop of a vector", &want);
        }
        5 => {
            let mut o = Some(Box::pin(S::make(v, rng)));
            go!(o.as_mut().unwrap().as_mut());
            rep.op("end_option");
            let want = o.as_ref().unwrap().script();
            o = None;
            expect_log(rep, "drop", "overwritten option", &want);
            drop(o);
        }
        6 => {
            let b = std::rc::Rc::pin(S::make(v, rng));
            let b2 = b.clone();
            if S::CAPS.project_ref {
                op_project_ref(rep, b.as_ref());
            }
            rep.op("end_rc");
            let want = b.script();
            drop(b);
            quiet_log(rep, "drop", "drop of one of two owners");
            drop(b2);
            expect_log(rep, "drop", "drop of the last owner", &want);
        }
        7 => {
            // manual in-place destruction
            let mut m = std::mem::ManuallyDrop::new(S::make(v, rng));
            go!(unsafe { Pin::new_unchecked(&mut *m) });
            rep.op("end_in_place");
            let want = m.script();
            unsafe { std::mem::ManuallyDrop::drop(&mut m) };
            expect_log(rep, "drop", "drop_in_place", &want);
        }
        _ => {
            // never pinned at all, moved around, then dropped; as a tuple member
            let s = S::make(v, rng);
            let b = Box::new((Tok::new(), s, Tok::new()));
            rep.op("end_unpinned");
            let mut want = vec![];
            b.0.script(&mut want);
            want.extend(b.1.script());
            b.2.script(&mut want);
            drop(b);
            expect_log(rep, "drop", "drop as a tuple member", &want);
        }
    }
    finish_live(rep, "end of history");
}

/// Random histories over one subject.
pub fn drive<S: Subject>(seed: u64, histories: usize, steps: usize) -> Report {
    let mut rng = Rng::new(seed);
    let mut rep = Report::new(S::NAME);
    // every variant, every pinned position, exhaustively once
    for v in 0..S::VARIANTS {
        rep.histories += 1;
        if S::CAPS.project {
            let mut b = Box::pin(S::make(v, &mut rng));
            op_project(&mut rep, b.as_mut());
            op_project(&mut rep, b.as_mut());
        }
        take_log();
        if S::CAPS.project_ref {
            let b = Box::pin(S::make(v, &mut rng));
            op_project_ref(&mut rep, b.as_ref());
        }
        take_log();
        if S::CAPS.replace {
            let mut b = Box::pin(S::make(v, &mut rng));
            op_replace(&mut rep, b.as_mut(), &mut rng);
            drop(b);
            take_log();
            let mut w = 0;
            loop {
                // fault enumeration: destructor number w of this variant panics
                let mut b = Box::pin(S::make(v, &mut rng));
                let ran = op_replace_panic(&mut rep, b.as_mut(), &mut rng, w);
                if ran {
                    let want = b.script();
                    drop(b);
                    expect_log(&mut rep, "replace-panic", "drop after a panicking project_replace", &want);
                    w += 1;
                } else {
                    break;
                }
            }
            take_log();
        }
        // fault enumeration: every destructor of a plain drop panics once
        let mut w = 0;
        loop {
            let b = Box::pin(S::make(v, &mut rng));
            let want = b.script();
            let c: Vec<Ev> = want.iter().filter(|e| !matches!(e, Ev::Drop { id, .. } if *id < 100)).cloned().collect();
            if w >= c.len() {
                break;
            }
            rep.op("drop_panic_enum");
            match &c[w] {
                Ev::Drop { id, .. } => arm_id(*id),
                Ev::Body { addr, .. } => arm_body(*addr),
            }
            take_log();
            let r = catch_unwind(AssertUnwindSafe(|| drop(b)));
            if r.is_ok() {
                rep.bad("drop", format!("destructor #{} of a drop did not panic", w));
            }
            disarm();
            expect_log(&mut rep, "drop", "drop with a panicking destructor", &want);
            w += 1;
        }
        take_log();
        finish_live(&mut rep, "exhaustive part");
        take_errors();
    }
    for _ in 0..histories {
        history::<S>(&mut rep, &mut rng, steps);
    }
    rep
}

/// Silences panics that the monitor injects; everything else still prints.
pub fn main_guard(f: impl FnOnce()) {
    f();
    println!("END");
}

// ------------------------------------------------------------------ self-checking client modules (engine B)

thread_local! {
    static CK: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static CKF: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) };
    static SLOG: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) };
}
/// Records one observation.
pub fn ck(ok: bool, msg: impl FnOnce() -> String) {
    CK.with(|c| c.set(c.get() + 1));
    if !ok {
        CKF.with(|c| c.borrow_mut().push(msg()));
    }
}
/// Records an equality observation.
#[track_caller]
pub fn eq<T: PartialEq + std::fmt::Debug>(got: T, want: T) {
    let l = std::panic::Location::caller();
    ck(got == want, || format!("line {}: got {:?}, expected {:?}", l.line(), got, want));
}
/// Records an equality observation under a label.
pub fn leq<T: PartialEq + std::fmt::Debug>(label: &str, got: T, want: T) {
    ck(got == want, || format!("{}: got {:?}, expected {:?}", label, got, want));
}
pub fn quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}
/// Runs one case; its failures and panics are reported under its number.
pub fn case(i: usize, f: impl FnOnce()) {
    CK.with(|c| c.set(0));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let n = CK.with(|c| c.get());
    for m in CKF.with(|c| std::mem::take(&mut *c.borrow_mut())) {
        println!("V\t{}\t{}", i, m.replace(['\n', '\t'], " "));
    }
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        println!("V\t{}\tunexpected panic: {}", i, m.replace(['\n', '\t'], " "));
    }
    println!("K\t{}\t{}", i, n);
}
/// Appends to the text log that differential cases compare.
pub fn say(s: impl std::fmt::Display) {
    SLOG.with(|l| l.borrow_mut().push(s.to_string()));
}
pub fn said() -> Vec<String> {
    SLOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

/// `is!(Type: Bounds)`: whether a concrete type implements a trait.
#[macro_export]
macro_rules! is {
    ($t:ty : $($tr:tt)+) => {{
        #[allow(dead_code)]
        struct P_<T: ?::core::marker::Sized>(::core::marker::PhantomData<T>);
        #[allow(dead_code)]
        trait No_ { const YES: ::core::primitive::bool = false; }
        impl<T: ?::core::marker::Sized> No_ for P_<T> {}
        #[allow(dead_code)]
        impl<T: ?::core::marker::Sized + $($tr)+> P_<T> { const YES: ::core::primitive::bool = true; }
        <P_<$t>>::YES
    }};
}
