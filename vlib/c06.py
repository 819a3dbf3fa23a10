"""C06: the same statements in a pinned destructor and in an inherent method."""
import os
import random
import shutil
from . import core, suite

COMMON = r"""
use pin_project::{pin_project, pinned_drop};
use ::core::pin::Pin;
use vrt::{say, said};
pub trait Tr { const K: u32 = 7; type O: Default + ::core::fmt::Debug; fn st() -> u32 { 70 } fn me(&self) -> u32; fn mk() -> Self; }
impl Tr for u8 { type O = u16; fn me(&self) -> u32 { *self as u32 + 100 } fn mk() -> u8 { 9 } }
impl Tr for String { const K: u32 = 8; type O = String; fn me(&self) -> u32 { self.len() as u32 } fn mk() -> String { "mk".into() } }
pub trait Ob { const OC: u32; type Out; fn oname(&self) -> String; fn ostat() -> u32 { 55 } }
pub fn free(x: u32) -> u32 { x * 2 }
pub const KONST: u32 = 321;
pub static STAT: u32 = 654;
pub struct Outer;
pub mod inner { pub fn g() -> u32 { super::free(4) } pub const Q: u32 = 5; }
macro_rules! pass { ($($t:tt)*) => { $($t)* } }
macro_rules! twice { ($e:expr) => { ($e) + ($e) } }
macro_rules! asty { ($t:ty) => { <$t>::AC } }
macro_rules! block { ($b:block) => { $b } }
macro_rules! stm { ($($s:stmt;)*) => { $($s;)* } }
macro_rules! id { ($i:ident) => { $i } }
"""

# host -> (declaration (ARGS), impl header of the type, helper impls, value list)
HOSTS = {
    "named": dict(
        decl="#[pin_project(ARGS)] pub struct S<'a, T, const N: usize> where T: Tr { #[pin] p: T, pub q: u32, r: &'a str, arr: [u8; N] }",
        gen="<'a, T, const N: usize>", ty="S<'a, T, N>", where="where T: Tr", anon="<'_, T, N>",
        impls="impl<'a, T: Tr, const N: usize> S<'a, T, N> { pub const AC: u32 = 11; pub fn new(q: u32) -> Self { S { p: T::mk(), q, r: \"x\", arr: [3; N] } } pub fn af(&self) -> u32 { self.q + 1 } pub fn pf(self: Pin<&mut Self>) -> u32 { self.q + 2 } pub fn stf(x: u32) -> u32 { x + N as u32 } pub fn gen_<U: Default + ::core::fmt::Debug>() -> U { U::default() } }",
        vals=["S::<u8, 3> { p: 4, q: 5, r: \"hey\", arr: [1, 2, 3] }", "S::<String, 1> { p: \"pinned\".to_string(), q: 6, r: \"yo\", arr: [9] }"],
    ),
    "tuple": dict(
        decl="#[pin_project(ARGS)] pub struct S<T>(#[pin] T, pub u32) where T: Tr;",
        gen="<T>", ty="S<T>", where="where T: Tr", anon="<T>",
        impls="impl<T: Tr> S<T> { pub const AC: u32 = 12; pub fn new(q: u32) -> Self { S(T::mk(), q) } pub fn af(&self) -> u32 { self.1 + 1 } pub fn pf(self: Pin<&mut Self>) -> u32 { self.1 + 2 } pub fn stf(x: u32) -> u32 { x + 1 } pub fn gen_<U: Default + ::core::fmt::Debug>() -> U { U::default() } }",
        vals=["S(4u8, 5)", "S(\"pinned\".to_string(), 6)"],
    ),
    "enum": dict(
        decl="#[pin_project(ARGS)] pub enum S<T: Tr> { A { #[pin] p: T, q: u32 }, B(u32, #[pin] T), C }",
        gen="<T: Tr>", ty="S<T>", where="", anon="<T>",
        impls="impl<T: Tr> S<T> { pub const AC: u32 = 13; pub fn new(q: u32) -> Self { if q % 2 == 0 { S::A { p: T::mk(), q } } else { S::B(q, T::mk()) } } pub fn af(&self) -> u32 { match self { S::A { q, .. } => *q, S::B(q, _) => q + 1, S::C => 0 } } pub fn pf(self: Pin<&mut Self>) -> u32 { self.af() + 2 } pub fn stf(x: u32) -> u32 { x + 1 } pub fn gen_<U: Default + ::core::fmt::Debug>() -> U { U::default() } }",
        vals=["S::A { p: 4u8, q: 5 }", "S::B(6, \"pinned\".to_string())", "S::<u8>::C"],
    ),
    "plain": dict(
        decl="#[pin_project(ARGS)] pub struct S { #[pin] p: String, pub q: u32 }",
        gen="", ty="S", where="", anon="",
        impls="impl S { pub const AC: u32 = 14; pub fn new(q: u32) -> Self { S { p: String::new(), q } } pub fn af(&self) -> u32 { self.q + 1 } pub fn pf(self: Pin<&mut Self>) -> u32 { self.q + 2 } pub fn stf(x: u32) -> u32 { x + 1 } pub fn gen_<U: Default + ::core::fmt::Debug>() -> U { U::default() } }",
        vals=["S { p: \"pinned\".to_string(), q: 6 }"],
    ),
    "plaint": dict(
        decl="#[pin_project(ARGS)] pub struct S(#[pin] String, pub u32);",
        gen="", ty="S", where="", anon="",
        impls="impl S { pub const AC: u32 = 15; pub fn new(q: u32) -> Self { S(String::new(), q) } pub fn af(&self) -> u32 { self.1 + 1 } pub fn pf(self: Pin<&mut Self>) -> u32 { self.1 + 2 } pub fn stf(x: u32) -> u32 { x + 1 } pub fn gen_<U: Default + ::core::fmt::Debug>() -> U { U::default() } }",
        vals=["S(\"pinned\".to_string(), 6)"],
    ),
}
OB = "impl%s Ob for %s %s { const OC: u32 = 99; type Out = u64; fn oname(&self) -> String { format!(\"ob{}\", self.af()) } }"

# (hosts or None=all, ok inside macro arguments, needs mut self, fragment)
F = [
    # receiver
    (None, 1, 0, "say(self.af());"),
    (None, 1, 1, "say(self.as_mut().pf());"),
    (None, 1, 0, "let this = &*self; say(this.af());"),
    (None, 1, 0, "let v: Pin<&Self> = self.as_ref(); say(v.af());"),
    (None, 1, 1, "let v: Pin<&mut Self> = self.as_mut(); say(v.pf());"),
    (None, 1, 0, "{ let s = &self; say(s.af()); }"),
    (None, 1, 0, "say(Ob::oname(&*self));"),
    (None, 1, 0, "say(self.oname());"),
    (None, 1, 1, "let _ = &mut self; say(self.as_mut().get_mut_probe());".replace("get_mut_probe", "pf")),
    (None, 1, 0, "let c = || self.af(); say(c());"),
    (None, 1, 0, "let c = |x: u32| -> u32 { x + self.af() }; say(c(3));"),
    (None, 1, 1, "let mut c = || { let t = self.as_mut().pf(); t }; say(c()); say(c());"),
    (None, 0, 0, "let c = |s: &Self| s.af(); say(c(&self));"),
    (None, 1, 0, "let a = (self.af(), [self.af(); 2]); say(a.0 + a.1[1]);"),
    (None, 1, 0, "let r = &raw_(&*self); say(r.1);".replace("raw_(&*self)", "(0, self.af())")),
    (None, 1, 0, "if let x @ 1.. = self.af() { say(x); } else { say(\"else\"); }"),
    (None, 1, 0, "let x = match self.af() { 0 => 1, n if n > self.af() - 1 => 2, _ => 3 }; say(x);"),
    (None, 1, 0, "let mut i = 0; while i < self.af() % 3 + 1 { i += 1; say(i); }"),
    (None, 1, 0, "'l: loop { loop { if self.af() > 0 || true { break 'l; } } } say(\"out\");"),
    (None, 1, 0, "let z = self.af() as u64 as Wrapping_; say(z);".replace("Wrapping_", "u32")),
    (None, 1, 0, "let y = { let self_ = self.af(); self_ + 1 }; say(y);"),
    # Self in expressions and types
    (None, 1, 0, "say(Self::AC);"),
    (None, 1, 0, "say(<Self>::AC);"),
    (None, 1, 0, "say(Self::stf(5));"),
    (None, 1, 0, "let f = Self::stf; say(f(6));"),
    (None, 1, 0, "say([1u32, 2].iter().copied().map(Self::stf).sum::<u32>());"),
    (None, 1, 0, "say(format!(\"{:?}\", Self::gen_::<u8>()));"),
    (None, 1, 0, "say(<Self as Ob>::OC);"),
    (None, 1, 0, "say(<Self as Ob>::ostat());"),
    (None, 1, 0, "say(Self::OC + Self::ostat());"),
    (None, 1, 0, "say(Self::af(&self));"),
    (None, 1, 0, "say(Ob::oname(&*self as &Self));"),
    (None, 1, 0, "say(::core::mem::size_of::<Self>());"),
    (None, 1, 0, "say(::core::mem::size_of::<(Self, u8, [Self; 2])>());"),
    (None, 1, 0, "say(::core::mem::size_of::<Option<Box<Self>>>());"),
    (None, 1, 0, "let o: Option<&Self> = Some(&*self); say(o.map(|s| s.af()).unwrap());"),
    (None, 1, 0, "let o = None::<Self>; say(o.is_none());"),
    (None, 1, 0, "let v: Vec<Self> = Vec::new(); say(v.len());"),
    (None, 1, 0, "let g: fn(&Self) -> u32 = Self::af; say(g(&self));"),
    (None, 1, 0, "let d: &dyn Ob_ = &*self; say(d.oname2());".replace("Ob_", "DynOb")),
    (None, 1, 0, "let p = &*self as *const Self; say(!p.is_null());"),
    (None, 1, 0, "say(::core::any::type_name::<Self>().contains(\"S\"));"),
    (None, 1, 0, "let n = ::core::mem::ManuallyDrop::new(Self::new(4)); say(n.af());"),
    (None, 1, 0, "let b: Box<::core::mem::ManuallyDrop<Self>> = Box::new(::core::mem::ManuallyDrop::new(Self::new(5))); say(b.af());"),
    # constants, statics, free functions, modules
    (None, 1, 0, "say(KONST + STAT);"),
    (None, 1, 0, "say(free(self.af()));"),
    (None, 0, 0, "say(self::free(2)); say(self::KONST);"),
    (None, 0, 0, "say(self::inner::g() + self::inner::Q);"),
    (None, 1, 0, "say(super::up());"),
    (None, 1, 0, "match 321 { KONST => say(\"const pattern\"), _ => say(\"other\") }"),
    (None, 1, 0, "match 11 { Self::AC => say(\"assoc const pattern\"), 12 => say(12), _ => say(\"other\") }".replace("Self::AC =>", "x if x == Self::AC =>")),
    (("plain", "plaint"), 0, 0, "match 14 { Self::AC => say(\"assoc const pattern\"), _ => say(\"other\") }"),
    (("plain", "plaint"), 1, 0, "const L: u32 = S::AC; let a = [0u8; Self::AC as usize]; say(L + a.len() as u32);"),
    # field access and projections
    (("named", "plain"), 1, 0, "say(self.q);"),
    (("named", "plain"), 1, 1, "*self.as_mut().project().q += 1; say(self.q);"),
    (("named", "plain"), 1, 1, "let q = self.as_mut().project().q; *q = 40; say(*q);"),
    (("named",), 1, 0, "say(self.r); say(self.arr.len()); say(N);"),
    (("named",), 1, 0, "say(self.p.me()); say(T::K); say(T::st()); say(<T as Tr>::K);"),
    (("named",), 1, 0, "let x: T::O = Default::default(); say(format!(\"{:?}\", x));"),
    (("named",), 1, 0, "let x: <T as Tr>::O = <T::O as Default>::default(); let y: [u8; N] = self.arr; say(format!(\"{:?}{:?}\", x, y));"),
    (("named",), 1, 0, "let l: &'a str = self.r; say(l);"),
    (("named",), 0, 0, "let Self { q, r, .. } = &*self; say(q); say(r);"),
    (("named",), 0, 0, "if let Self { q: 5, .. } = *self { say(\"five\") } else { say(\"not five\") }"),
    (("named",), 0, 0, "match &*self { Self { q: n @ 5, p: _, .. } => say(n), Self { r, .. } => say(r) }"),
    (("named",), 0, 0, "let n = ::core::mem::ManuallyDrop::new(Self { p: T::mk(), q: 3, r: self.r, arr: self.arr }); say(n.af());"),
    (("named",), 0, 0, "let n = ::core::mem::ManuallyDrop::new(Self { p: T::mk(), q: 3, r: \"st\", arr: [0; N] }); say(n.r);"),
    (("plain",), 0, 0, "let n = ::core::mem::ManuallyDrop::new(Self { p: String::from(\"n\"), q: self.q }); say(&n.p); let Self { p, q } = &*n; say(p); say(q);"),
    (("plain",), 1, 0, "let n = ::core::mem::ManuallyDrop::new(Self { p: String::from(\"n\"), q: self.q }); say(&n.p);"),
    (("tuple", "plaint"), 1, 0, "say(self.1);"),
    (("tuple", "plaint"), 1, 1, "*self.as_mut().project().1 += 1; say(self.1);"),
    (("tuple",), 1, 0, "say(self.0.me()); say(T::K);"),
    (("tuple",), 0, 0, "let Self(a, b) = &*self; say(a.me()); say(b);"),
    (("tuple",), 0, 0, "match *self { Self(_, 5) => say(\"5\"), Self(ref a, n) => { say(a.me()); say(n); } }"),
    (("tuple",), 0, 0, "let n = ::core::mem::ManuallyDrop::new(Self(T::mk(), 8)); say(n.1); let Self { 1: w, .. } = &*n; say(w);"),
    (("tuple",), 0, 0, "let f: fn(T, u32) -> Self = Self; let n = ::core::mem::ManuallyDrop::new(f(T::mk(), 2)); say(n.af());"),
    (("tuple",), 0, 0, "let n = ::core::mem::ManuallyDrop::new(Self { 0: T::mk(), 1: 8 }); say(n.1);"),
    (("plaint",), 1, 0, "let n = ::core::mem::ManuallyDrop::new(Self(String::new(), 8)); say(n.1);"),
    (("plaint",), 0, 0, "let v: Vec<::core::mem::ManuallyDrop<Self>> = [1u32, 2].into_iter().map(|i| Self(String::new(), i)).map(::core::mem::ManuallyDrop::new).collect(); say(v[1].1);"),
    (("enum",), 0, 0, "match &*self { Self::A { p, q } => { say(p.me()); say(q); } Self::B(a, b) => { say(a); say(b.me()); } Self::C => say(\"C\") }"),
    (("enum",), 0, 0, "if let Self::B(n, _) = *self { say(n) } else if let Self::A { q: 5, .. } = *self { say(\"A5\") } else { say(\"neither\") }"),
    (("enum",), 0, 0, "let x = match *self { Self::C => 1, Self::A { .. } | Self::B(..) => 2 }; say(x);"),
    (("enum",), 0, 1, "match self.as_mut().project() { Proj::A { p, q } => { *q += 3; say(*q); say(p.me()); } Proj::B(a, b) => { *a += 1; say(*a); say(b.me()); } Proj::C => say(\"pc\") } say(self.af());"),
    (("enum",), 0, 0, "let n = ::core::mem::ManuallyDrop::new(Self::A { p: T::mk(), q: 2 }); say(n.af()); let m = ::core::mem::ManuallyDrop::new(Self::B(4, T::mk())); say(m.af()); let k = ::core::mem::ManuallyDrop::new(Self::C); say(k.af());"),
    (("enum",), 1, 0, "let m = ::core::mem::ManuallyDrop::new(Self::B(4, T::mk())); say(m.af());"),
    (("enum",), 1, 0, "let f: fn(u32, T) -> Self = Self::B; let m = ::core::mem::ManuallyDrop::new(f(1, T::mk())); say(m.af());"),
    (("enum",), 0, 0, "use S::{A as A2, B, C}; match &*self { A2 { q, .. } => say(q), B(n, _) => say(n), C => say(\"used C\") }"),
    (("enum",), 0, 0, "let k = S::<T>::C; say(::core::mem::ManuallyDrop::new(k).af()); match &*self { S::A { .. } => say(1), S::B { 0: n, .. } => say(n), S::C => say(3) }"),
    # macros
    (None, 0, 0, "say(twice!(self.af()));"),
    (None, 0, 0, "say(asty!(Self));"),
    (None, 0, 0, "say(pass!(self::free(2)) + twice!(self::inner::g()) + twice!(self.af()));"),
    (None, 0, 0, "pass! { use self::free as fr_; say(fr_(1) + self.af()); }"),
    (None, 0, 0, "say(vec![self::KONST, self.af(), self :: inner :: Q, Self :: AC].len()); assert!(self::KONST > 0 && self.af() < 1000, \"{}\", self::KONST);"),
    (None, 0, 0, "macro_rules! path { ($a:ident :: $b:ident) => { $a::$b } } say(path!(self::KONST)); macro_rules! bind { ($a:ident: $t:ty) => { { let r: $t = &$a; r.af() } } } say(bind!(self: &Self)); say(bind!(self:&Self));"),
    (None, 0, 0, "block!({ say(self.af()); say(Self::AC); });"),
    (None, 0, 0, "pass! { say(self.af()); let q = Self::stf(3); } say(q);"),
    (None, 0, 0, "stm! { let a = self.af(); say(a); }"),
    (None, 0, 0, "assert!(self.af() == self.af()); assert_eq!(Self::AC, <Self>::AC); say(format!(\"{} {}\", self.af(), Self::AC));"),
    (None, 0, 0, "say(vec![self.af(), Self::stf(1)].len()); let w = std::format_args!(\"{}\", self.af()).to_string(); say(w);"),
    (None, 0, 0, "macro_rules! loc { () => { self.af() } } say(loc!());"),
    (None, 0, 0, "macro_rules! loc { ($x:ident) => { Self::$x } } say(loc!(AC));"),
    (None, 0, 0, "macro_rules! loc { ($x:expr) => { $x + self.af() } } say(loc!(self.af()));"),
    (None, 0, 0, "say(id!(self).af());"),
    (None, 0, 0, "if cfg!(all()) { say(line!() > 0); }"),
    (None, 0, 0, "macro_rules! with_fn { ($($t:tt)*) => { fn helper_() -> u32 { 5 } say(helper_()); } } with_fn!();"),
    (None, 0, 0, "pass! { struct Mx; impl Mx { fn f(self) -> u32 { 8 } fn g(&self) -> Self { Self } } } say(Mx.g().f());"),
    (None, 0, 0, "pass! { trait Mt { const C: u32; fn f(&self) -> u32 { self.h() + Self::C } fn h(&self) -> u32; } impl Mt for u16 { const C: u32 = 2; fn h(&self) -> u32 { *self as u32 } } } say(5u16.f());"),
    (None, 0, 0, "macro_rules! loc { ($($t:tt)*) => { $($t)* } } loc! { say(self.af() + Self::stf(1)); }"),
    (None, 0, 0, "say(std::matches!(self.af(), x if x == self.af())); say(concat!(\"a\", \"b\")); say(stringify!(x));"),
    (None, 0, 0, "let s = ::std::thread::spawn(move || 4u32).join().unwrap(); say(s + self.af()); let e = ::std::panic::catch_unwind(|| Self::stf(1)).is_ok(); say(e);"),
    (("plain",), 0, 0, "pass! { let Self { q, .. } = &*self; } say(q); let v = vec![::core::mem::ManuallyDrop::new(Self { p: String::new(), q: 1 })]; say(v[0].q); say(matches!(*self, Self { q: 5, .. }));"),
    (("plaint",), 0, 0, "pass! { let Self(_, q) = &*self; } say(q); let v = vec![::core::mem::ManuallyDrop::new(Self(String::new(), 1))]; say(v[0].1); say(matches!(*self, Self(_, 5)));"),
    (("enum",), 0, 0, "let v = vec![::core::mem::ManuallyDrop::new(Self::B(1, T::mk())), ::core::mem::ManuallyDrop::new(Self::C)]; say(v.len());"),
    (None, 0, 0, "pass! { let o: Option<&Self> = None; let p: Option<Vec<Self>> = None::<Vec<Self>>; let w = <Self as Ob>::OC; let z = <Self>::AC; } say(o.is_none() && p.is_none()); say(w + z);"),
    # inner items keep their own meaning
    (None, 0, 0, "struct In(u32); impl In { const AC: u32 = 1000; fn af(&self) -> u32 { self.0 + Self::AC } fn mk() -> Self { Self(1) } } say(In::mk().af()); say(Self::AC);"),
    (None, 0, 0, "enum Ie { A { q: u32 }, B(u32) } impl Ie { fn k(self) -> u32 { match self { Self::A { q } => q, Self::B(n) => n } } } say(Ie::A { q: 71 }.k() + Ie::B(1).k());"),
    (None, 0, 0, "fn drop(x: u32) -> u32 { x + 1 } say(drop(4));"),
    (None, 0, 0, "fn af(x: u32) -> u32 { x + 1 } say(af(self.af()));"),
    (None, 0, 0, "trait It { fn name(&self) -> u32; fn two(&self) -> u32 { self.name() * 2 } } impl It for u8 { fn name(&self) -> u32 { *self as u32 } } say(5u8.two());"),
    (None, 0, 0, "impl Loc for Outer { fn loc(&self) -> u32 { let Self = self; 31 } } say(Outer.loc());"),
    (None, 0, 0, "const fn cf(x: u32) -> u32 { x + 9 } const CC: u32 = cf(1); static SS: u32 = CC + 1; say(CC + SS);"),
    (None, 0, 0, "mod deep { pub fn f() -> u32 { self::g() } pub fn g() -> u32 { 88 } pub(self) const H: u8 = 1; pub struct W(pub(super) u8); } say(deep::f()); say(deep::W(3).0);"),
    (None, 0, 0, "use self::inner::g as gg; say(gg());"),
    (None, 0, 0, "use self::free; say(free(1));"),
    (None, 0, 0, "type Al = u16; let a: Al = 3; say(a);"),
    (None, 0, 0, "struct Guard(u32); impl Drop for Guard { fn drop(&mut self) { say(self.0); } } let _g = Guard(self.af()); say(\"before guard\");"),
    (None, 0, 0, "union Un { a: u32, b: [u8; 4] } impl Un { fn z() -> Self { Self { a: 0x01010101 } } } say(unsafe { Un::z().b[2] });"),
    # control flow of the function itself
    (None, 0, 0, "let r = (|| -> Result<u32, String> { let x: u32 = \"5\".parse::<u32>().map_err(|e| e.to_string())?; Ok(x + self.af()) })(); say(format!(\"{:?}\", r));"),
    (None, 0, 0, "let r: Option<u32> = (|| { let s = Some(&*self)?; Some(s.af()) })(); say(format!(\"{:?}\", r));"),
    (None, 0, 0, "let f = async { self.af() }; say(::core::mem::size_of_val(&f) > 0);"),
    (None, 0, 0, "let f = async move { Self::AC }; say(::core::mem::size_of_val(&f) > 0);"),
    (None, 0, 0, "let f = Box::pin(async { say(self.af()); Self::stf(2) }); say(vrt_block(f));"),
    (None, 0, 0, "let x = 'b: { if self.af() > 1000 { break 'b 1; } 2 }; say(x);"),
    (None, 0, 0, "let Some(x) = Some(self.af()) else { return; }; say(x);"),
    (None, 0, 0, "say(unsafe { ::core::ptr::read(&self.af()) });"),
    (None, 0, 0, "let s = String::from(\"moved\"); drop(s); say(\"dropped\");"),
    (None, 0, 0, "drop(vec![1]); ::std::mem::drop(2); say(\"std drop\");"),
    (None, 0, 0, "#[allow(unused)] let v = 1; #[cfg(any())] { nonexistent(self, Self); } #[cfg(all())] say(self.af());"),
    (None, 0, 0, "let x = if let true = self.af() > 0 { Self::AC } else { Self::OC }; let y @ (a, b) = (x, Self::stf(x)); say(y.0 + a + b);"),
    (None, 0, 0, "for i in 0..Self::stf(1).min(3) { if i == 1 { continue; } say(i); }"),
    (None, 0, 0, "let r#type = self.af(); let r#fn = Self::AC; say(r#type + r#fn);"),
    (None, 0, 0, "let arr = [[self.af(); 2], [Self::AC, 1]]; let [[a, _], [b, ..]] = arr; say(a + b);"),
    (None, 0, 0, "let cl = |Wr { v, .. }: Wr| v + self.af(); say(cl(Wr { v: 1, w: 2 }));"),
    (None, 0, 0, "let i = self.af() as usize; let s = &[1u8, 2, 3][..i.min(2)]; say(s.len()); say(-(i as i64)); say(!self.af() > 0 && true);"),
    (None, 0, 0, "say(<[Self]>::len(&[])); say(<(Self, u8) as Tl>::L); say(<&Self as Tl>::L);"),
    (None, 0, 0, "let x: [&Self; 1] = [&self]; let y: &[&Self] = &x; say(y[0].af()); let z: (&Self, fn() -> Option<Self>) = (&self, || None); say((z.1)().is_none());"),
    (None, 0, 0, "let b: Box<dyn Fn(&Self) -> u32> = Box::new(|s: &Self| s.af()); say(b(&self));"),
    (None, 0, 0, "fn gf<X: Ob>() -> u32 { X::OC } say(gf::<Self>()); say(gen2::<Self, _>(1u8));"),
    (None, 0, 0, "say(Some(&*self).map(Self::af).unwrap_or_else(|| Self::stf(0)));"),
    (("named", "tuple", "enum"), 0, 0, "fn gi<T: Tr>() -> u32 { T::K + 1 } say(gi::<T>()); say(gi::<u8>());"),
    (("named", "tuple", "enum"), 0, 0, "let t: T = T::mk(); say(t.me()); let v: Vec<T> = vec![T::mk(), T::mk()]; say(v.iter().map(T::me).sum::<u32>()); say(v.iter().map(<T as Tr>::me).count());"),
    (("named", "tuple", "enum"), 0, 0, "struct Gp<T>(T); impl<T: Tr> Gp<T> { fn f(&self) -> u32 { self.0.me() + T::K } } say(Gp(3u8).f());"),
]
EXTRA = r"""
pub trait DynOb { fn oname2(&self) -> u32; }
pub trait Loc { fn loc(&self) -> u32; }
pub trait Tl { const L: u32 = 61; } impl<T: ?Sized> Tl for T {}
pub struct Wr { v: u32, w: u32 }
pub struct Wg<V> { v: V, w: u32 } pub struct Wt<V>(V);
pub fn up() -> u32 { 1 }
pub fn gen2<A: Ob, B: Into<u32>>(b: B) -> u32 { A::OC + b.into() }
pub fn vrt_block<F: ::core::future::Future<Output = u32> + ?Sized>(mut f: Pin<Box<F>>) -> u32 { let w = ::std::task::Waker::noop(); let mut cx = ::std::task::Context::from_waker(&w); match f.as_mut().poll(&mut cx) { ::std::task::Poll::Ready(x) => x, _ => 0 } }
"""
WRAP = [("{0}", 0), ("{{ {0} }}", 0), ("if true {{ {0} }}", 0), ("for _ in 0..2 {{ {0} }}", 0), ("match 1 {{ 0 => (), _ => {{ {0} }} }}", 0),
        ("pass! {{ {{ {0} }} }}", 1), ("let _r = {{ {0} 3 }};", 0), ("block!({{ {0} }});", 1), ("unsafe {{ {0} }}", 0), ("if let Some(_) = Some(1) {{ {0} }} else {{ return }}", 0),
        ("'w: loop {{ {0} break 'w; }}", 0)]
# closures: fragments that need `return`-free bodies are all fine in a closure
CLOS = "(|| {{ {0} }})();"
RECV = ["{m}self: Pin<&mut Self>", "{m}self: ::core::pin::Pin<&mut Self>", "{m}self: ::std::pin::Pin<&mut Self>", "{m}self: core::pin::Pin<&mut Self>", "{m}self: std::pin::Pin<&mut Self>", "{m}self: Pin<&mut Self,>"]
RET = ["", "", "", " -> ()"]


def module(host, body, mut, recv, ret, pd_attr, wclause, extra_attr, prefix="", elide=False, deliver=None, pinned=None):
    h = HOSTS[host]
    proj = "project = Proj" if host == "enum" else ""

    def side(mod, is_pd):
        args = ", ".join(x for x in (proj, "PinnedDrop" if is_pd else "") if x)
        d = h["decl"].replace("(ARGS)", "(%s)" % args if args else "")
        s = "pub mod %s { use super::*;\n%s\n%s\n%s\n" % (mod, d, h["impls"], OB % (h["gen"], h["ty"], h["where"]))
        s += COMMON_LOCAL + EXTRA_LOCAL
        s += "impl%s DynOb for %s %s { fn oname2(&self) -> u32 { self.af() + 5 } }\n" % (h["gen"], h["ty"], h["where"])
        r = recv.format(m="mut " if mut else "")
        o0 = s
        if deliver:
            s = ""
        if is_pd:
            s += "#[%s] %s impl%s PinnedDrop for %s %s { %s fn drop(%s)%s { %s } }\n" % (
                pd_attr, extra_attr, h["gen"].replace("'a, ", "") if elide else h["gen"], prefix + (h["ty"].replace("'a", "'_") if elide else h["ty"]),
                h["where"], extra_attr, r, ret, body if pinned is None else pinned)
            if deliver:
                s = o0 + deliver(s)
            s += "pub fn go() { " + " ".join("{ let v = Box::pin(%s); vrt::say(\"begin\"); drop(v); }" % v for v in h["vals"]) + " }\n"
        else:
            s += "impl%s %s %s { fn body(%s)%s { %s } }\n" % (h["gen"], h["ty"], h["where"], r, ret, body)
            if deliver:
                s = o0 + deliver(s)
            s += "pub fn go() { " + " ".join("{ let mut v = Box::pin(%s); vrt::say(\"begin\"); v.as_mut().body(); }" % v for v in h["vals"]) + " }\n"
        return s + "}\n"
    return (COMMON + side("a", True) + side("b", False) +
            "pub fn up() -> u32 { 77 }\n" +
            "pub fn run() { vrt::said(); b::go(); let want = vrt::said(); a::go(); let got = vrt::said(); vrt::eq(got, want); }\n")


COMMON_LOCAL = "pub fn free(x: u32) -> u32 { x * 3 }\npub const KONST: u32 = 321;\npub mod inner { pub fn g() -> u32 { super::free(4) } pub const Q: u32 = 6; }\n"
EXTRA_LOCAL = EXTRA.replace("pub fn up() -> u32 { 1 }\n", "")


def gen(rng, i, single=None):
    host = rng.choice(list(HOSTS)) if single is None else single[0]
    pool = [f for f in F if f[0] is None or host in f[0]]
    frs = rng.sample(pool, rng.choice([2, 3, 5, 8])) if single is None else [single[1]]
    mut = any(f[2] for f in frs) or rng.random() < 0.2
    body = ""
    for fr in frs:
        w, needs = rng.choice(WRAP) if single is None or rng.random() < 0.5 else WRAP[0]
        if needs and (not fr[1] or "fn" in fr[3]):
            w = WRAP[1][0]
        if rng.random() < 0.1 and "return" not in fr[3] and "break" not in fr[3] and "use " not in fr[3]:
            w = CLOS
        t = w.format(fr[3])
        body += " { " + t + " }\n" if rng.random() < 0.8 or single is None else t
    if rng.random() < 0.15:
        body += " if self.af() > 2 { return; } vrt::say(\"late\");"
    if rng.random() < 0.1:
        body += " let v = self; vrt::say(v.af());"
    if rng.random() < 0.1:
        body = "let _moved_closure_order = (); " + body
    return module(host, body, mut, rng.choice(RECV), rng.choice(RET), rng.choice(["pinned_drop", "::pin_project::pinned_drop", "pinned_drop()"]), None,
                  rng.choice(["", "", "", "/// doc", "#[allow(unused)]", "#[cfg(all())]"]) + "\n",
                  prefix=rng.choice(["", "", "", "self::", "super::a::"]), elide="'a" not in body and not ("fn(" in body and "Self" in body) and rng.random() < 0.4)


# fragments of another macro: what is passed in, and how the delivered body uses it
DEXPR = ["self.af()", "Self::AC", "Self::stf(2)", "<Self as Ob>::OC", "self.af() + Self::stf(1)", "{ self.af() }", "(|| self.af())()", "twice!(self.af())", "format!(\"{}{}\", self.af(), Self::AC).len() as u32",
         "match self.af() { x if x > 3 => Self::AC, _ => 1 }", "if self.af() > 2 { Self::ostat() } else { 3 }", "self.oname().len() as u32", "free(self.af())", "self::free(2)", "pass!(self.af())", "[self.af(), Self::AC][1]", "(-(self.af() as i64)).unsigned_abs() as u32",
         "id!(self).af()", "std::iter::once(&*self).map(Self::af).sum::<u32>()"]
DEUSE = ["say($e);", "say(pass!($e));", "say(twice!($e));", "say(vec![$e, 1].len());", "let c = || $e; say(c());", "say(format!(\"{}\", $e));", "pass! { say($e); }", "say($e + 1);", "say(block!({ $e }));", "let v = [$e; 1]; say(v[0]);",
         "assert_eq!($e, $e);", "pass! { pass! { say($e); } }", "if $e > 3 { say($e) }", "stm! { let q = $e; say(q); }"]
DTY = ["Self", "Option<Self>", "(Self, u8)", "[Self; 2]", "Vec<Self>", "::core::mem::ManuallyDrop<Self>", "Pin<Box<Self>>", "(Self)"]
DTUSE = ["say(::core::mem::size_of::<$t>());", "let x: Option<$t> = None; say(x.is_none());", "say(pass!(::core::mem::size_of::<$t>()));", "pass! { let x: Option<&$t> = None; } say(x.is_none());", "say(<$t as Tl>::L);", "say(pass!(<$t as Tl>::L));"]
DBUSE = ["say($b);", "say(block!($b));", "let x = $b; say(x);", "(|| { say($b) })();", "say(pass!($b));"]
DPATH = ["Self::stf", "self::free", "free", "Self::stf", "<Self>::stf"]
DPUSE = ["say($p(3));", "say(pass!($p(3)));", "say([1, 2].iter().copied().map($p).sum::<u32>());", "let f: fn(u32) -> u32 = $p; say(f(1));"]
DPAT = {"named": ["Self { .. }", "Self { q: 5, .. }", "S { q: 6, .. }"], "tuple": ["Self(..)", "Self(_, 5)", "S { 1: 6, .. }"], "enum": ["Self::A { .. }", "Self::B(..)", "Self::C", "Self::A { q: 5, .. } | Self::C", "S::B(6, _)"],
        "plain": ["Self { .. }", "Self { q: 6, .. }"], "plaint": ["Self(..)", "Self(_, 6)"]}
DQUSE = ["if let $q = &*$s { say(1) } else { say(0) }", "match &*$s { $q => say(4), #[allow(unreachable_patterns)] _ => say(5) }"]


def delivered(rng):
    """The impl block arrives through macro_rules!, with its parts as fragments."""
    host = rng.choice(list(HOSTS))
    kind = rng.choice(["parts"] * 4 + ["tt", "item", "self"])
    pool = [f for f in F if (f[0] is None or host in f[0]) and not f[2]]
    rest = " ".join("{ %s }" % f[3] for f in rng.sample(pool, rng.choice([1, 2])))
    body = "%s"
    if kind == "parts":
        us = rng.sample(DEUSE, 3) + rng.sample(DTUSE, 2) + rng.sample(DBUSE, 1) + rng.sample(DPUSE, 1) + rng.sample(DQUSE, 1) + ["$($r)*"] + ["say($s.af());", "say(pass!($s.af()));", "say($l);", "say(pass!($l));"][:rng.randrange(5)]
        rng.shuffle(us)
        text = " ".join("{ %s }" % u for u in us)
        fr = "($s:ident, $e:expr, $t:ty, $b:block, %s, $q:pat, $l:literal, $($r:tt)*)" % ("$p:expr" if (pt := rng.choice(DPATH)).startswith("<") else "$p:path")
        call = "self, %s, %s, { say(1); %s }, %s, %s, %s, %s" % (rng.choice(DEXPR), rng.choice(DTY), rng.choice(DEXPR), pt, rng.choice(DPAT[host]), rng.choice(["4u32", "\"text\"", "'c'", "-1"]), rest)

        def deliver(imp):
            return "macro_rules! deliver { %s => { %s } }\ndeliver!(%s);\n" % (fr, imp, call)
        body, recv = text, "$s: Pin<&mut Self>"
    elif kind == "self":
        body, recv = "say($s.af()); say(pass!($s.af())); { %s }" % rng.choice(["let c = || $s.af(); say(c());", "say(twice!($s.af()));", "let v = &*$s; say(v.af());", "say(id!($s).af());", "say(vec![$s.af()].len());"]), "$s: Pin<&mut Self>"

        def deliver(imp):
            return "macro_rules! deliver { ($s:ident) => { %s } }\ndeliver!(self);\n" % imp
    else:
        body, recv = rest, rng.choice(RECV).format(m="")

        def deliver(imp):
            return "macro_rules! deliver { (%s) => { %s } }\ndeliver! { %s }\n" % (("$($r:tt)*", "$($r)*", imp) if kind == "tt" else ("$i:item", "$i", imp))
    return module(host, body, False, recv, rng.choice(RET), "pinned_drop", None, "", deliver=deliver)


class Body:
    """Random statements in which the receiver and the type appear at every place an expression, a pattern or a type can have."""

    def __init__(self, rng, host):
        self.r, self.host, self.budget = rng, host, rng.choice([12, 25, 40])

    def t(self, m, d=0):
        r = self.r
        self.budget -= 1
        if d > 2 or r.random() < 0.3:
            return r.choice(["Self", "Self", "u8", "<Self as Ob>::Out", "String"])
        t = lambda: self.t(m, d + 1)
        fs = ["Option<%s>", "Box<%s>", "[%s; 2]", "(%s, u8)", "(%s,)", "Vec<%s>", "*const %s", "*mut %s", "::core::marker::PhantomData<%s>", "<Vec<%s> as IntoIterator>::Item", "Box<dyn Iterator<Item = %s>>", "&'static [u8; ::core::mem::size_of::<[u8; 3]>()]", "(%s)", "Result<%s, String>", "::std::collections::BTreeMap<u8, %s>"]
        if not m:
            fs += ["fn(%s) -> u8", "fn() -> %s", "Box<dyn Fn(%s)>", "unsafe extern \"C\" fn(%s)"]
        f = r.choice(fs)
        return f % t() if "%s" in f else f

    def p(self, m):
        """(value, pattern that may or may not match it)"""
        r = self.r
        h = self.host
        base = [("%s", "_"), ("%s", "3"), ("%s", "n_"), ("%s", "1..=50"), ("%s", "x_ @ 0..=20"), ("%s", "7 | 6 | 12")]
        own = []
        if h in ("plain", "plaint"):
            own += [("%s", "Self::AC"), ("%s", "0..=Self::AC"), ("%s", "(Self::AC..)"), ("%s", "1 | Self::AC"), ("%s", "y_ @ Self::AC"), ("%s", "<Self>::AC"), ("%s", "<Self as Ob>::OC | Self::OC"), ("%s", "5..=<Self as Ob>::OC")]
        own += {"named": [("&*self", "Self { q: 5, .. }"), ("&*self", "&Self { q: 0..=5, r: \"hey\", .. }"), ("&*self", "Self { arr: [1, ..], .. }")], "plain": [("&*self", "Self { q: 6, .. }"), ("&*self", "Self { q: Self::AC, .. }"), ("&*self", "&Self { q: 0..=Self::AC, p: _ }")],
                "tuple": [("&*self", "Self(_, 5)"), ("&*self", "&Self(..)"), ("&*self", "Self { 1: 5 | 9, .. }")], "plaint": [("&*self", "Self(_, 6)"), ("&*self", "Self(_, Self::AC)"), ("&*self", "&Self { 1: 0..=Self::AC, 0: _ }")],
                "enum": [("&*self", "Self::C"), ("&*self", "Self::A { q: 5, .. }"), ("&*self", "Self::B(..) | Self::C"), ("&*self", "&Self::B(6, _)"), ("&*self", "z_ @ (Self::A { .. } | Self::B(..))"), ("&*self", "Self::A { q: 0..=4, p: _ } | Self::B(0..=5, _) | Self::C {}")]}[h]
        v, p = r.choice(base if m else base + own * 2)
        if "%s" in v:
            v = v % self.e(m, 3)
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            if "|" in p and not p.startswith("("):
                p = "(%s)" % p
            f, g = r.choice([("(%s, 1u8)", "(%s, _)"), ("[%s]", "[%s]"), ("[%s]", "[%s, ..]"), ("&%s", "&%s"), ("Some(%s)", "Some(%s)"), ("Wg { v: %s, w: 1 }", "Wg { v: %s, .. }"), ("Wg { v: %s, w: 1 }", "Wg { w: 1, v: %s }"), ("Box::new(Wg { v: %s, w: 2 }).as_ref()", "Wg { v: %s, .. }"), ("(%s)", "(%s)"), ("(0u8, %s, 3u8)", "(.., %s, 3)"), ("Some(%s)", "Option::Some(%s)"), ("Wt(%s)", "Wt(%s)"), ("Wt(%s)", "Wt { 0: %s }"), ("Ok::<_, u8>(%s)", "Ok(%s)")])
            if "&" == f[0] and v.startswith("&"):
                f, g = "Wt(%s)", "Wt(%s)"
            v, p = f % v, g % p
        return self.par(v), p

    def b(self, m, d):
        r = self.r
        e = lambda: self.e(m, d + 1)
        k = r.randrange(6)
        if k == 0:
            return "%s > %s" % (self.par(e()), self.par(e()))
        if k == 1:
            return "matches!(%s, n_ if n_ > 3)" % self.e(True, d + 1)
        if k == 2 and d < 4:
            v, p = self.p(m)
            return "(match %s { %s => true, _ => false })" % (v, p)
        if k == 3:
            return "!(%s == %s)" % (self.par(e()), self.par(e()))
        if k == 4 and d < 4:
            return "(%s && %s)" % (self.b(m, d + 1), self.b(m, d + 1))
        return "self.af() > %d" % r.choice([2, 5, 6, 7])

    @staticmethod
    def par(x):
        return "(%s)" % x

    def e(self, m=False, d=0):
        """An expression of type u32; `m`: inside macro arguments, where only what the attribute supports there is used."""
        r = self.r
        self.budget -= 1
        if d > 5 or self.budget < 0 or r.random() < 0.12:
            return r.choice(["self.af()", "self.as_ref().af()", "Self::AC", "<Self>::AC", "<Self as Ob>::OC", "Self::OC", "Self::ostat()", "<Self as Ob>::ostat()", "Self::stf(2)", "self::KONST", "7u32", "(*self).af()", "Self::af(&self)", "Ob::oname(&*self).len() as u32", "self::inner::Q"])
        e = lambda: self.par(self.e(m, d + 1))
        t = lambda: self.t(m)
        k = r.randrange(46)
        if k < 4 and d < 4:
            v, p = self.p(m)
            return ["match %s { %s => %s, _ => %s }", "(if let %s = %s { %s } else { %s })", "{ let mut u_ = 0u32; while let %s = %s { u_ = %s; break; } u_.wrapping_add(%s) }", "'o: { let %s = %s else { break 'o %s; }; %s }"][k] % ((v, p, e(), e()) if k == 0 else (p, v, e(), e()))
        if k == 4 and d < 4:
            v, p = self.p(m)
            return "match %s { %s if %s => %s, _ if %s => %s, _ => %s }" % (v, p, self.b(m, d + 1), e(), self.b(m, d + 1), e(), e())
        if k in (5, 6):
            return "(if %s { %s } else if %s { %s } else { %s })" % (self.b(m, d + 1), e(), self.b(m, d + 1), e(), e())
        if k == 7:
            return "pass!(%s)" % self.e(True, d + 1)
        if k == 8:
            return "vrt_block(Box::pin(async { %s }))" % e()
        if k == 9:
            return "vrt_block(Box::pin(async { let a_ = async { %s }; a_.await.wrapping_add(%s) }))" % (e(), e())
        f = ["{ %s }", "[%s, %s][0]", "(%s, 2).0", "[%s; 2][1]", "(|x_: u32| x_.wrapping_add(%s))(%s)", "Wg { v: %s, w: %s }.v", "Wg { v: %s, ..Wg { v: 1u32, w: %s } }.w", "*&%s", "*&mut %s", "%s.min(%s)", "u32::max(%s, %s)", "%s.wrapping_add(%s)", "(%s as u64) as u32", "loop { break %s }", "'l: { break 'l %s }",
             "Some(%s).unwrap_or(%s)", "Some(%s %% 50).map(Self::stf).unwrap()", "unsafe { %s }", "{ let mut a_ = 1u32; a_ = %s; a_ }", "{ let mut a_ = 1u32; a_ += %s %% 100; a_ }", "(-(%s as i64)) as u32", "(!%s)", "{ while false { let _ = %s; } 3u32 }", "{ for i_ in 0..2u32 { let _ = %s.wrapping_add(i_); } 4u32 }", "(0..%s %% 5).len() as u32",
             "[1u32, 2, 3, 4][(%s %% 4) as usize]", "{ let (a_, _) = (%s, %s); a_ }", "Wt(%s).0", "{ Wt { 0: %s }.0 }", "(|| -> Option<u32> { Some(Some(%s)?) })().unwrap()", "{ let c_ = move |q_: &u32| *q_ ^ 1; c_(&%s) }", "format!(\"{} {}\", %s, %s).len() as u32", "vec![%s, %s].len() as u32", "{ stm! { let a_ = %s; } a_ }", "%s.rotate_left(%s %% 7)", "(%s ^ %s) & 0xff"]
        g = ["::core::mem::size_of::<T_>() as u32", "None::<T_>.is_none() as u32", "{ let x_: Option<T_> = None; x_.is_some() as u32 }", "(|_: Option<T_>| 1u32)(None)", "(|| -> Option<T_> { None })().is_none() as u32", "Vec::<T_>::new().len() as u32", "<T_ as Tl>::L", "<[T_]>::len(&[]) as u32", "(::core::ptr::null::<T_>() as usize) as u32",
             "{ const { ::core::mem::size_of::<T_>() as u32 } }", "::core::mem::align_of::<Option<T_>>() as u32", "{ let y_ = Option::<T_>::None as Option<T_>; y_.is_none() as u32 }"]
        if r.random() < 0.25:
            x = r.choice(g[:-3] if m else g).replace("T_", t())
            return x
        x = r.choice(f)
        if m and x.startswith("'"):
            x = "{ %s }"
        if "!(\"" in x or "vec!" in x or "stm!" in x:
            e = lambda: self.par(self.e(True, d + 1))
        return x % tuple(e() for _ in range(x.replace("%%", "").count("%s")))

    def text(self):
        out = ""
        while self.budget > 0:
            out += "say(%s); " % self.e()
        return out


def positions(c, rng, n):
    """Bodies that the language accepts in an inherent method; the destructor has to do the same."""
    want = []
    for i in range(n):
        host = rng.choice(list(HOSTS))
        b = Body(rng, host).text()
        el = "fn(" not in b and "Fn(" not in b and rng.random() < 0.4
        a = (host, b, rng.random() < 0.3, rng.choice(RECV), rng.choice(RET), "pinned_drop", None, "")
        kw = dict(prefix=rng.choice(["", "", "self::", "super::a::"]), elide=el)
        want.append(("position/%d" % i, module(*a, **kw), module(*a, pinned="", **kw)))

    def valid(x):
        r = core.rustc(c.art, c.wd.path, suite.program([suite.Case(x[0], x[2])]), name="plain", emit="link", crate_type="bin", extra=["-C", "debuginfo=0"], externs=("pin_project", "vrt"))
        ok = r.ok
        if ok:      # and completes there (what it says is compared later, in one program)
            _, o, _, st = core.run([r.out], timeout=240, cpu=120)
            ok = "END" in o.splitlines()[-1:] and "panic" not in o
        shutil.rmtree(os.path.dirname(r.path), ignore_errors=True)
        return ok
    ok = core.pmap(valid, want)
    out = [suite.Case(x[0], x[1], key=x[1]) for x, k in zip(want, ok) if k]
    c.count("bodies_invalid_as_inherent", n - len(out))
    return out


def cases(c):
    out = []
    rng = random.Random("C06/%s" % c.seed)
    for host in HOSTS:
        for j, fr in enumerate(F):
            if fr[0] is None or host in fr[0]:
                out.append(suite.Case("single/%s/%d" % (host, j), gen(rng, 0, (host, fr))))
    for i in range(c.pick(1600, 12000)):
        src = gen(rng, i)
        out.append(suite.Case("mix/%d" % i, src, key=src))
    for i in range(c.pick(500, 4000)):
        src = delivered(rng)
        out.append(suite.Case("delivered/%d" % i, src, key=src))
    return out + positions(c, rng, c.pick(500, 5000))


# bodies that an inherent method accepts and the attribute is known not to (known_findings.txt)
KNOWN = {
    "elided-lifetime-fn-pointer": "#[pin_project(PinnedDrop)] struct S<'a> { #[pin] p: u8, r: &'a str }\nimpl S<'_> { fn af(&self) -> usize { self.r.len() } }\n%s S<'_> { fn NAME(self: Pin<&mut Self>) { let g: fn(&Self) -> usize = Self::af; g(&self); } }\n",
    "inline-format-capture": "#[pin_project(PinnedDrop)] #[derive(Debug)] struct S { #[pin] p: u8 }\n%s S { fn NAME(self: Pin<&mut Self>) { let _ = format!(\"{self:?}\"); } }\n",
    "self-pattern-in-macro/enum": "#[pin_project(PinnedDrop, project = P)] enum S<T> { A(#[pin] T), B }\n%s S { fn NAME(self: Pin<&mut Self>) { let _ = matches!(*self, Self::A(..)); } }\n",
    "self-pattern-in-macro/struct": "#[pin_project(PinnedDrop)] struct S<T> { #[pin] p: T, q: u8 }\nmacro_rules! pass { ($($t:tt)*) => { $($t)* } }\n%s S { fn NAME(self: Pin<&mut Self>) { pass! { let Self { q, .. } = &*self; } let _ = q; } }\n",
    "self-constructor-in-macro/struct": "#[pin_project(PinnedDrop)] struct S<T> { p: Option<T>, q: u8 }\n%s S { fn NAME(self: Pin<&mut Self>) { if self.q == 200 { let _ = vec![Self { p: None, q: 1 }]; } } }\n",
    "self-constructor-in-macro/tuple": "#[pin_project(PinnedDrop)] struct S<T>(Option<T>, u8);\n%s S { fn NAME(self: Pin<&mut Self>) { if self.1 == 200 { let _ = vec![Self(None, 1)]; } } }\n",
    "self-constructor-in-macro/enum": "#[pin_project(PinnedDrop, project = P)] enum S<T> { A { p: Option<T> }, B }\n%s S { fn NAME(self: Pin<&mut Self>) { if false { let _ = vec![Self::A { p: None }]; } } }\n",
    "macro-argument-with-fn": "#[pin_project(PinnedDrop)] struct S { #[pin] p: u8 }\nmacro_rules! pass { ($($t:tt)*) => { $($t)* } }\n%s S { fn NAME(self: Pin<&mut Self>) { pass! { let f: fn(u8) -> u8 = |x| x; let _ = f(self.p); } } }\n",
    "macro-argument-with-fn-pointer-to-self": "#[pin_project(PinnedDrop)] struct S { #[pin] p: u8 }\nmacro_rules! pass { ($($t:tt)*) => { $($t)* } }\n%s S { fn NAME(self: Pin<&mut Self>) { pass! { let f: Option<unsafe extern \"C\" fn(&Self) -> [fn(Self); 1]> = None; let _ = (f, self.p); } } }\n",
}


def known_programs():
    from . import verdict
    from .kinds import PRE
    out = []
    for k, src in KNOWN.items():
        if "S<T>" in src:
            src = src.replace("%s S {", "%s S<T> {")
        g = "<T>" if "S<T>" in src else ""
        ref = src.replace("(PinnedDrop)", "").replace("PinnedDrop, ", "") % ("impl" + g)
        out += verdict.accept("method/" + k, PRE + ref.replace("NAME", "body"))
        out += verdict.accept(k, PRE + src.replace("%s", "#[pinned_drop] impl" + g + " PinnedDrop for").replace("NAME", "drop"))
    return out


def c06(c):
    from . import verdict
    verdict.decide(c, known_programs())
    suite.run_suite(c, cases(c), per=10)
    c.rule = ("each body fragment alone and random mixes of them (wrapped in blocks, loops, closures, macro arguments, or delivered as fragments of macro_rules) are compiled both as pinned "
              "destructor and as an inherent method of a twin type; the logged observations must be equal; distinct by body text")
