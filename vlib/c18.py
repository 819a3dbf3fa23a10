"""C18: generated code under an undefined-behaviour interpreter and an address sanitizer."""
import os
import random
import re
import shutil
from . import c19, core, decl, runeng, verdict
from .runeng import CLASS

HEAD = r"""#![allow(warnings)]
use pin_project::{pin_project, pinned_drop};
use std::pin::{Pin, pin};
use std::future::Future;
use std::task::{Context, Poll, Waker};
use std::marker::{PhantomData, PhantomPinned};
use vrt::{Tok, PTok, ATok, ZTok, PZTok, Fld, sink};
fn ev(n: &str) { println!("E\t{}", n); }
"""

# Self-contained programs; the interpreter is the oracle, `ev` lines are the evidence of progress.
HAND = {}
HAND["futures"] = r"""
#[pin_project] struct Counted<F> { #[pin] fut: F, polls: Box<u32>, log: Vec<u32> }
impl<F: Future> Future for Counted<F> { type Output = (F::Output, u32);
  fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> { let this = self.project(); **this.polls += 1; this.log.push(**this.polls);
    match this.fut.poll(cx) { Poll::Ready(v) => Poll::Ready((v, **this.polls)), Poll::Pending => { **this.polls += 10; this.log.push(0); Poll::Pending } } } }
#[pin_project(project = JoinProj, project_replace = JoinOwn)] enum Maybe<F: Future> { Run(#[pin] F, Box<u8>), Done { out: F::Output, n: Box<u8> }, Gone }
#[pin_project] struct Join<A: Future, B: Future> { #[pin] a: Maybe<A>, mid: Box<u64>, #[pin] b: Maybe<B> }
impl<F: Future> Future for Maybe<F> { type Output = ();
  fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
    let out = match self.as_mut().project() { JoinProj::Run(f, n) => { **n += 1; match f.poll(cx) { Poll::Ready(v) => v, Poll::Pending => return Poll::Pending } }, _ => return Poll::Ready(()) };
    match self.as_mut().project_replace(Maybe::Done { out, n: Box::new(1) }) { JoinOwn::Run(_, n) => sink(*n as u64), _ => unreachable!() }
    Poll::Ready(()) } }
impl<A: Future, B: Future> Future for Join<A, B> { type Output = (A::Output, B::Output);
  fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> { let mut this = self.project(); **this.mid += 1;
    let (x, y) = (this.a.as_mut().poll(cx), this.b.as_mut().poll(cx)); **this.mid += 1;
    if x.is_ready() && y.is_ready() { match (this.a.project_replace(Maybe::Gone), this.b.project_replace(Maybe::Gone)) { (JoinOwn::Done { out: a, .. }, JoinOwn::Done { out: b, .. }) => Poll::Ready((a, b)), _ => unreachable!() } } else { Poll::Pending } } }
struct Yield(bool); impl Future for Yield { type Output = (); fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> { if self.0 { Poll::Ready(()) } else { self.0 = true; Poll::Pending } } }
async fn work(n: u32) -> String { let mut buf = [1u32, 2, 3]; let s = String::from("x"); let r = &mut buf; for i in 0..n { r[(i % 3) as usize] += i; Yield(false).await; let q = &s; Yield(false).await; sink(q.len() as u64); } format!("{:?}{}", r, s) }
fn run<F: Future>(f: F) -> (F::Output, usize) { let mut f = Box::pin(f); let mut cx = Context::from_waker(Waker::noop()); let mut n = 0; loop { n += 1; if let Poll::Ready(v) = f.as_mut().poll(&mut cx) { return (v, n) } } }
fn main() {
  let (v, n) = run(Counted { fut: work(3), polls: Box::new(0), log: vec![] }); assert_eq!(n, 7); ev(&v.0);
  let (v, n) = run(Join { a: Maybe::Run(work(2), Box::new(0)), mid: Box::new(0), b: Maybe::Run(Counted { fut: work(4), polls: Box::new(0), log: vec![] }, Box::new(0)) }); ev(&format!("{:?} {}", v, n));
  // dropped half way
  { let mut f = Box::pin(Join { a: Maybe::Run(work(2), Box::new(0)), mid: Box::new(0), b: Maybe::Run(work(5), Box::new(0)) }); let mut cx = Context::from_waker(Waker::noop()); for _ in 0..6 { let _ = f.as_mut().poll(&mut cx); } }
  { let mut f = pin!(Counted { fut: Join { a: Maybe::Run(work(1), Box::new(0)), mid: Box::new(0), b: Maybe::Run(work(2), Box::new(0)) }, polls: Box::new(0), log: vec![] }); let mut cx = Context::from_waker(Waker::noop()); while f.as_mut().poll(&mut cx).is_pending() {} }
  ev("END");
}
"""
HAND["self-referential"] = r"""
struct Own { x: u32, me: *const u32, p: PhantomPinned }
impl Own { fn new(x: u32) -> Self { Own { x, me: std::ptr::null(), p: PhantomPinned } }
  fn init(self: Pin<&mut Self>) { unsafe { let t = self.get_unchecked_mut(); t.me = &raw const t.x; } }
  fn bump(self: Pin<&mut Self>) { unsafe { let t = self.get_unchecked_mut(); let q = t.me as *mut u32; let _ = q; t.x += 1; t.me = &raw const t.x; } }
  fn get(self: Pin<&Self>) -> u32 { assert_eq!(self.me, &raw const self.x); unsafe { *self.me } } }
impl Drop for Own { fn drop(&mut self) { if !self.me.is_null() { assert_eq!(self.me, &raw const self.x, "moved"); } } }
#[pin_project(project = SP, project_ref = SR, project_replace = SO)] struct S { a: Box<u32>, #[pin] o: Own, b: [u32; 3], #[pin] q: Own }
#[pin_project(project = EP, project_ref = ER, project_replace = EO)] enum E { X(u8, #[pin] Own), Y { #[pin] o: Own, n: String }, Z }
#[pin_project(PinnedDrop)] struct D { #[pin] o: Own, v: Vec<u8> }
#[pinned_drop] impl PinnedDrop for D { fn drop(mut self: Pin<&mut Self>) { let mut p = self.as_mut().project(); p.v.push(1); p.o.as_mut().bump(); p.v.push(2); sink(p.o.as_ref().get() as u64); sink(self.v.len() as u64); } }
fn main() {
  let mut s = Box::pin(S { a: Box::new(1), o: Own::new(2), b: [3; 3], q: Own::new(4) });
  { let p = s.as_mut().project(); p.o.init(); p.q.init(); }
  for i in 0..4 { let mut p = s.as_mut().project(); **p.a += 1; p.o.as_mut().bump(); p.b[0] += 1; p.q.as_mut().bump(); **p.a += 1; p.b[2] += i; sink(p.o.as_ref().get() as u64); sink(p.q.as_ref().get() as u64); std::mem::swap(&mut p.b[1], &mut *p.a); }
  { let r = s.as_ref().project_ref(); let r2 = s.as_ref().project_ref(); ev(&format!("{} {} {:?} {}", r.a, r2.o.get(), r.b, r2.q.get())); sink(r.o.get() as u64); }
  for _ in 0..2 { let SO { a, b, .. } = s.as_mut().project_replace(S { a: Box::new(9), o: Own::new(8), b: [0; 3], q: Own::new(7) }); { let p = s.as_mut().project(); p.o.init(); p.q.init(); } sink(*a as u64 + b[0] as u64); let p = s.as_mut().project(); sink(p.o.as_ref().get() as u64); drop(a); sink(p.q.as_ref().get() as u64); }
  { let mut p = s.as_mut().project(); p.o.set(Own::new(1)); p.o.as_mut().init(); sink(p.o.as_ref().get() as u64); }
  drop(s);
  let mut e = Box::pin(E::X(1, Own::new(1)));
  for i in 0..6 { match e.as_mut().project() { EP::X(n, o) => { *n += 1; let mut o = o; o.as_mut().init(); o.as_mut().bump(); sink(o.as_ref().get() as u64 + *n as u64) } EP::Y { mut o, n } => { o.as_mut().init(); n.push('x'); sink(o.as_ref().get() as u64) } EP::Z => {} }
    match e.as_ref().project_ref() { ER::X(n, o) => sink(o.get() as u64), ER::Y { o, n } => sink(o.get() as u64 + n.len() as u64), ER::Z => {} }
    let new = match i % 3 { 0 => E::Y { o: Own::new(5), n: String::from("n") }, 1 => E::Z, _ => E::X(3, Own::new(2)) };
    match e.as_mut().project_replace(new) { EO::X(n, PhantomData) => sink(n as u64), EO::Y { n, o: PhantomData } => sink(n.len() as u64), EO::Z => {} } ev("replaced"); }
  drop(e);
  let mut d = Box::pin(D { o: Own::new(1), v: vec![] }); d.as_mut().project().o.init(); drop(d);
  { let mut d = pin!(D { o: Own::new(1), v: vec![] }); d.as_mut().project().o.init(); }
  ev("END");
}
"""
HAND["interleaved"] = r"""
#[pin_project(project = P, project_ref = R, project_replace = O)] struct S<'a, T> { #[pin] a: T, b: &'a mut u32, #[pin] c: Box<u32>, d: Box<u32>, #[pin] e: &'a mut u32, f: std::cell::Cell<u32>, #[pin] g: std::cell::RefCell<Vec<u8>>, h: Option<Box<u32>>, #[pin] i: (u8, u16), j: [u8; 3] }
fn mk<'a>(x: &'a mut u32, y: &'a mut u32) -> S<'a, PTok> { S { a: PTok::new(), b: x, c: Box::new(1), d: Box::new(2), e: y, f: Default::default(), g: Default::default(), h: Some(Box::new(3)), i: (1, 2), j: [1, 2, 3] } }
fn noalias(a: &mut u32, b: &mut u32, c: &mut u32, d: &mut u32) { *a += 1; *b += 1; *c += 1; *d += 1; *a += *b; *d += *c; }
fn main() {
  let (mut x, mut y, mut x2, mut y2) = (1, 2, 3, 4);
  let mut s = Box::pin(mk(&mut x, &mut y));
  for round in 0..3 {
    let P { mut a, b, mut c, d, mut e, f, mut g, h, mut i, j } = s.as_mut().project();
    **b += 1; **c += 1; **d += 1; **e += 1; f.set(f.get() + 1); g.borrow_mut().push(1); **h.as_mut().unwrap() += 1; i.0 += 1; j[0] += 1;
    unsafe { a.as_mut().get_unchecked_mut() }.touch(); a.rd();
    noalias(b, &mut **d, &mut **c, &mut **e);
    noalias(&mut **d, h.as_mut().unwrap(), &mut **e, b);
    { let (p, q, r) = (&mut *j, &mut *i, &mut *h); p[1] += 1; q.1 += 1; *r = Some(Box::new(round)); p[2] += q.0; }
    g.as_mut().get_mut().borrow_mut().push(2); c.as_mut().set(Box::new(5)); **c += 1; i.set((7, 8)); *d = Box::new(1); **d += 1; **b += **e;
    a.rd(); unsafe { a.as_mut().get_unchecked_mut() }.touch();
    ev("mutable round");
  }
  { let r1 = s.as_ref().project_ref(); let r2 = s.as_ref().project_ref(); r1.f.set(5); r2.f.set(r1.f.get() + 1); r1.g.borrow_mut().push(9); sink(r2.g.borrow().len() as u64); sink(**r1.d as u64 + **r2.c as u64 + **r1.b as u64 + **r2.e as u64); r1.a.rd(); r2.a.rd(); let c: Pin<&Box<u32>> = r1.c; let c2 = c; sink(**c.get_ref() as u64 + **c2.get_ref() as u64); ev("shared round"); }
  let own = s.as_mut().project_replace(mk(&mut x2, &mut y2));
  let O { b, mut d, f, h, j, .. } = own;
  { let p = s.as_mut().project(); *b += 1; **p.b += 1; *d += **p.d; **p.d += *d; f.set(1); p.f.set(2); drop(h); **p.h.as_mut().unwrap() += 1; sink(j[0] as u64 + p.j[0] as u64); *b += **p.b; }
  drop(d); s.as_ref().project_ref().a.rd(); drop(s); *b += 1; sink(*b as u64);
  // cells shared between a value and the outside
  #[pin_project(project = CP, project_ref = CR)] enum C<'a> { A { #[pin] c: std::cell::UnsafeCell<u32>, r: &'a std::cell::Cell<u32> }, B(#[pin] std::cell::Cell<u32>) }
  let o = std::cell::Cell::new(1); let mut v = pin!(C::A { c: std::cell::UnsafeCell::new(1), r: &o });
  match v.as_ref().project_ref() { CR::A { c, r } => { unsafe { *c.get() += 1 }; r.set(2); o.set(3); match v.as_ref().project_ref() { CR::A { c: c2, .. } => unsafe { *c2.get() += 1; *c.get() += 1 }, _ => {} } } CR::B(_) => {} }
  match v.as_mut().project() { CP::A { c, r } => { r.set(4); sink(unsafe { *c.get() } as u64) } CP::B(_) => {} } v.set(C::B(std::cell::Cell::new(1))); match v.as_ref().project_ref() { CR::B(c) => c.set(2), _ => {} }
  ev("END");
}
"""
HAND["unsized"] = r"""
#[pin_project] struct N<T: ?Sized> { h: Box<u32>, #[pin] t: T }
#[pin_project] struct U<T: ?Sized>(#[pin] PTok, u8, T);
#[pin_project(PinnedDrop)] struct D<T: ?Sized + Fld>(Tok, #[pin] PTok, #[pin] T);
#[pinned_drop] impl<T: ?Sized + Fld> PinnedDrop for D<T> { fn drop(self: Pin<&mut Self>) { let p = self.project(); p.0.touch(); unsafe { p.2.get_unchecked_mut() }.touch(); p.1.rd(); } }
fn main() {
  let mut a: Pin<Box<N<[Tok]>>> = Box::pin(N { h: Box::new(1), t: [Tok::new(), Tok::new()] });
  { let p = a.as_mut().project(); **p.h += 1; for t in p.t.get_mut() { t.touch() } **p.h += 1; } { let r = a.as_ref().project_ref(); sink(**r.h as u64 + r.t.len() as u64); for t in r.t.get_ref() { t.rd() } } drop(a);
  let mut b: Pin<Box<N<dyn Fld>>> = Box::pin(N { h: Box::new(1), t: (PTok::new(), 7u64) }); { let p = b.as_mut().project(); **p.h += 1; unsafe { p.t.get_unchecked_mut() }.touch(); **p.h += 1; } b.as_ref().project_ref().t.rd(); drop(b);
  let mut c: Pin<Box<U<str0>>> = Box::pin(U(PTok::new(), 1, [1u8, 2, 3])); { let mut p = c.as_mut().project(); p.2[0] = 9; *p.1 += 1; unsafe { p.0.as_mut().get_unchecked_mut() }.touch(); p.2[2] = *p.1; } sink(c.as_ref().project_ref().2.len() as u64); drop(c);
  let mut e: Pin<Box<N<[u64]>>> = Box::pin(N { h: Box::new(1), t: [] }); { let p = e.as_mut().project(); **p.h += p.t.len() as u32; } drop(e);
  let mut d: Pin<Box<D<dyn Fld>>> = Box::pin(D(Tok::new(), PTok::new(), [Tok::new(), Tok::new()])); { let mut p = d.as_mut().project(); p.0.touch(); unsafe { p.2.as_mut().get_unchecked_mut() }.touch(); p.0.rd(); } drop(d);
  let r: Pin<std::rc::Rc<N<dyn Fld>>> = std::rc::Rc::pin(N { h: Box::new(1), t: ATok::mk(&mut vrt::Rng::new(1)) }); let r2 = r.clone(); r.as_ref().project_ref().t.rd(); drop(r); r2.as_ref().project_ref().t.rd(); drop(r2);
  let mut st = D(Tok::new(), PTok::new(), 5u64); { let p: Pin<&mut D<dyn Fld>> = unsafe { Pin::new_unchecked(&mut st) }; let q = p.project(); q.0.touch(); unsafe { q.2.get_unchecked_mut() }.touch(); }
  drop(st);
  ev("END");
}
#[allow(non_camel_case_types)] type str0 = [u8];
"""
HAND["odd-layouts"] = r"""
use std::mem::{ManuallyDrop, MaybeUninit};
use std::convert::Infallible;
#[pin_project(project = P, project_ref = R, project_replace = O)] struct M<const N: usize> { u: MaybeUninit<[u64; N]>, #[pin] pu: MaybeUninit<Box<u32>>, #[pin] md: ManuallyDrop<Box<u32>>, k: ManuallyDrop<Box<u32>>, #[pin] z: [PZTok; 2], zz: (), n: Option<std::num::NonZeroU8>, b: bool, c: char }
#[pin_project(project = EP, project_ref = ER, project_replace = EO)] enum Niche<'a> { A(#[pin] bool, &'a u8), B(&'a mut u8, #[pin] Option<Box<u8>>), C { #[pin] r: Box<u8> }, D }
#[pin_project(project = NP, project_ref = NR, project_replace = NO)] enum Never { A(#[pin] Tok, Tok), N(Infallible, #[pin] Tok), M { #[pin] x: Infallible, y: Tok } }
#[pin_project(project = RP, project_ref = RR, project_replace = RO)] #[repr(u8)] enum Rep { A(#[pin] Tok, u8), B { x: u16, #[pin] y: ATok }, C }
#[pin_project(project = CP, project_ref = CR, project_replace = CO)] #[repr(C, align(64))] struct Al { a: u8, #[pin] b: PTok, c: u8 }
#[pin_project(project_replace)] #[repr(transparent)] struct Tr(#[pin] Box<u32>, ());
#[pin_project(project = OP, project_replace = OO)] enum OneRef<'a> { A(#[pin] &'a mut u32) }
fn main() {
  let mk = || M::<4> { u: MaybeUninit::uninit(), pu: MaybeUninit::uninit(), md: ManuallyDrop::new(Box::new(1)), k: ManuallyDrop::new(Box::new(2)), z: [PZTok::mk(&mut vrt::Rng::new(1)), PZTok::mk(&mut vrt::Rng::new(1))], zz: (), n: None, b: true, c: 'x' };
  let mut m = Box::pin(mk()); { let mut p = m.as_mut().project(); p.u.write([1; 4]); ***p.k = 3; *p.b = false; *p.c = 'y'; *p.n = std::num::NonZeroU8::new(3); unsafe { ManuallyDrop::drop(p.md.as_mut().get_mut()); ManuallyDrop::drop(p.k); *p.k = ManuallyDrop::new(Box::new(9)); p.md.set(ManuallyDrop::new(Box::new(8))); } }
  { let r = m.as_ref().project_ref(); sink(unsafe { r.u.assume_init_ref()[0] }); sink(***r.k as u64 + ***r.md.get_ref() as u64); }
  unsafe { let q = m.as_mut().project().md.get_mut(); ManuallyDrop::drop(q); }
  let O { u, k, b, c, n, .. } = m.as_mut().project_replace(mk()); sink(unsafe { u.assume_init() }[3]); drop(ManuallyDrop::into_inner(k)); sink(b as u64 + c as u64 + n.unwrap().get() as u64);
  let O { u, k, .. } = { unsafe { let q = m.as_mut().project().md.get_mut(); ManuallyDrop::drop(q); } m.as_mut().project_replace(mk()) }; let _still_uninit = u; drop(ManuallyDrop::into_inner(k));
  unsafe { let p = m.as_mut().project(); ManuallyDrop::drop(p.md.get_mut()); ManuallyDrop::drop(p.k); } drop(m); ev("uninit");
  let (x, mut y) = (1u8, 2u8); let mut e = Box::pin(Niche::A(true, &x));
  for i in 0..6u8 { match e.as_mut().project() { EP::A(mut b, r) => { b.set(i % 2 == 0); sink(**r as u64) } EP::B(r, mut o) => { **r += 1; o.set(Some(Box::new(**r))); **o.as_mut().as_mut().get_mut().as_mut().unwrap() += 1; **r += 1 } EP::C { mut r } => { **r += 1 } EP::D => {} }
    match e.as_ref().project_ref() { ER::A(b, r) => sink(*b as u64 + **r as u64), ER::B(r, o) => sink(**r as u64 + o.is_some() as u64), ER::C { r } => sink(**r as u64), ER::D => {} }
    if i == 1 { let n = Niche::B(unsafe { &mut *(&raw mut y) }, None); match e.as_mut().project_replace(n) { EO::A(PhantomData, r) => sink(*r as u64), EO::B(r, PhantomData) => *r += 1, EO::C { r: PhantomData } => {}, EO::D => {} } }
    else { let n = match i % 3 { 0 => Niche::C { r: Box::new(i) }, 1 => Niche::D, _ => Niche::A(false, &x) }; match e.as_mut().project_replace(n) { EO::A(PhantomData, r) => sink(*r as u64), EO::B(r, PhantomData) => *r += 1, EO::C { r: PhantomData } => {}, EO::D => {} } } } drop(e); ev("niche");
  let mut n = Box::pin(Never::A(Tok::new(), Tok::new())); match n.as_mut().project() { NP::A(mut a, b) => { b.touch(); a.touch(); b.touch() } NP::N(i, _) => match *i {}, NP::M { x, .. } => match *x.get_mut() {} } match n.as_ref().project_ref() { NR::A(a, b) => { a.rd(); b.rd() } _ => {} } match n.as_mut().project_replace(Never::A(Tok::new(), Tok::new())) { NO::A(_, b) => b.rd(), NO::N(i, _) => match i {}, NO::M { y, .. } => y.rd() } drop(n); ev("never");
  let mut r = Box::pin(Rep::A(Tok::new(), 1)); for i in 0..4 { match r.as_mut().project() { RP::A(mut t, n) => { *n += 1; t.touch(); *n += 1 } RP::B { x, mut y } => { *x += 1; y.touch(); *x += 1 } RP::C => {} } match r.as_mut().project_replace(match i % 3 { 0 => Rep::B { x: 1, y: ATok::new() }, 1 => Rep::C, _ => Rep::A(Tok::new(), 2) }) { RO::A(_, n) => sink(n as u64), RO::B { x, .. } => sink(x as u64), RO::C => {} } } drop(r); ev("repr");
  let mut a = Box::pin(Al { a: 1, b: PTok::new(), c: 2 }); { let mut p = a.as_mut().project(); *p.a += 1; unsafe { p.b.as_mut().get_unchecked_mut() }.touch(); *p.c += *p.a; } let CO { a: x1, c, .. } = a.as_mut().project_replace(Al { a: 3, b: PTok::new(), c: 4 }); sink((x1 + c) as u64); drop(a);
  let mut t = pin!(Tr(Box::new(1), ())); **t.as_mut().project().0 += 1; let _ = t.as_mut().project_replace(Tr(Box::new(2), ())); **t.as_mut().project().0 += 1; sink(**t.as_ref().project_ref().0.get_ref() as u64);
  let mut w = 1; { let mut o = pin!(OneRef::A(&mut w)); match o.as_mut().project() { OP::A(mut r) => { **r += 1; **r.as_mut() += 1 } } } w += 1; sink(w as u64);
  ev("END");
}
"""
HAND["results"] = r"""
use std::panic::{catch_unwind, AssertUnwindSafe};
#[pin_project(project = P, project_replace = O)] struct S { a: Tok, #[pin] b: PTok, c: Box<Tok>, #[pin] d: Vec<PTok>, e: Vec<Tok> }
#[pin_project(project = EP, project_replace = EO)] enum E<'a> { A { #[pin] a: PTok, b: &'a mut u32, c: Tok }, B(Tok, #[pin] PTok, #[pin] Tok), C }
fn s() -> S { S { a: Tok::new(), b: PTok::new(), c: Box::new(Tok::new()), d: vec![PTok::new(), PTok::new()], e: vec![Tok::new()] } }
#[pin_project(project_replace)] struct Deep { #[pin] x: S, y: Tok }
fn main() {
  // results are kept, moved, sent away and dropped in any order while the place lives on
  let mut v = Box::pin(s()); let mut kept = vec![]; for i in 0..4 { kept.push(v.as_mut().project_replace(s())); let p = v.as_mut().project(); p.a.touch(); p.c.touch(); if i == 2 { kept.remove(0); } for k in &mut kept { k.a.touch(); k.c.touch(); k.e.push(Tok::new()); } p.a.rd(); }
  kept.reverse(); drop(v); for k in &mut kept { k.a.touch() } let O { a, c, .. } = kept.pop().unwrap(); drop(kept); a.rd(); drop(c); drop(a); ev("kept");
  // a destructor fails in every position
  for k in 1..12 { let mut v = Box::pin(s()); vrt::arm(k); let r = catch_unwind(AssertUnwindSafe(|| drop(v.as_mut().project_replace(s())))); let left = vrt::pending(); { let p = v.as_mut().project(); p.a.touch(); unsafe { p.b.get_unchecked_mut() }.touch(); p.c.touch(); p.e.push(Tok::new()); } let _ = v.as_mut().project_replace(s()); if r.is_ok() && left { break } ev("fault") }
  for k in 1..8 { let (mut x, mut y, mut z) = (1, 2, 3); let ry = &mut y; let mut v = Box::pin(E::A { a: PTok::new(), b: &mut x, c: Tok::new() }); vrt::arm(k); let _ = catch_unwind(AssertUnwindSafe(|| { let ry = ry; match v.as_mut().project_replace(E::B(Tok::new(), PTok::new(), Tok::new())) { EO::A { b, .. } => *b += 1, _ => {} } let _ = v.as_mut().project_replace(E::A { a: PTok::new(), b: ry, c: Tok::new() }); let _ = v.as_mut().project_replace(E::C); })); vrt::pending(); match v.as_mut().project() { EP::A { b, c, .. } => { **b += 1; c.touch() } EP::B(a, _, mut t) => { a.touch(); t.touch() } EP::C => {} } let _ = v.as_mut().project_replace(E::A { a: PTok::new(), b: &mut z, c: Tok::new() }); ev("enum fault") }
  // while unwinding already
  struct Rep<'a>(Pin<&'a mut S>); impl Drop for Rep<'_> { fn drop(&mut self) { let o = self.0.as_mut().project_replace(s()); o.a.rd(); self.0.as_mut().project().a.touch(); } }
  let mut v = Box::pin(s()); let _ = catch_unwind(AssertUnwindSafe(|| { let _r = Rep(v.as_mut()); std::panic::resume_unwind(Box::new(1)); })); v.a.rd(); drop(v); ev("while unwinding");
  let mut d = Box::pin(Deep { x: s(), y: Tok::new() }); let o = d.as_mut().project_replace(Deep { x: s(), y: Tok::new() }); o.y.rd(); let i = d.as_mut().project().x.project_replace(s()); i.a.rd(); drop(d); drop(i); drop(o);
  ev("END");
}
"""
HAND["pinned-drop"] = r"""
use std::panic::{catch_unwind, AssertUnwindSafe};
#[pin_project(PinnedDrop, project = P)] struct S<'a, T: Fld> { #[pin] a: T, b: &'a mut Vec<u32>, c: Option<Tok>, #[pin] d: PTok }
#[pinned_drop] impl<T: Fld> PinnedDrop for S<'_, T> { fn drop(mut self: Pin<&mut Self>) { let mut p = self.as_mut().project(); p.b.push(1); let t = p.c.take(); unsafe { p.a.as_mut().get_unchecked_mut() }.touch(); p.d.rd(); drop(t); p.b.push(2); *p.c = Some(Tok::new()); self.as_mut().project().a.set(T::mk(&mut vrt::Rng::new(3))); vrt::on_body(0, vec![]); let f = || self.b.len(); sink(f() as u64); } }
#[pin_project(PinnedDrop, project = EP)] enum E<'a> { A(#[pin] PTok, &'a std::cell::Cell<u32>), B { x: Tok, #[pin] y: S<'a, Tok> } }
#[pinned_drop] impl PinnedDrop for E<'_> { fn drop(self: Pin<&mut Self>) { match self.project() { EP::A(mut t, c) => { c.set(c.get() + 1); unsafe { t.as_mut().get_unchecked_mut() }.touch() } EP::B { x, y } => { x.touch(); y.project().b.push(7); x.touch() } } } }
fn main() {
  let mut log = vec![];
  for k in 0..8 { vrt::arm(k); let v = Box::pin(S { a: PTok::new(), b: &mut log, c: Some(Tok::new()), d: PTok::new() }); let _ = catch_unwind(AssertUnwindSafe(|| drop(v))); vrt::pending(); ev("drop"); }
  for k in 0..8 { vrt::arm(k); let mut lg2 = vec![]; let _ = catch_unwind(AssertUnwindSafe(|| { let mut v = pin!(S { a: Tok::new(), b: &mut log, c: None, d: PTok::new() }); v.as_mut().project().a.touch(); v.set(S { a: Tok::new(), b: &mut lg2, c: None, d: PTok::new() }); })); vrt::pending(); log.push(1); }
  let c = std::cell::Cell::new(0); let mut l2 = vec![]; { let mut e = Box::pin(E::A(PTok::new(), &c)); e.set(E::B { x: Tok::new(), y: S { a: Tok::new(), b: &mut l2, c: None, d: PTok::new() } }); e.set(E::A(PTok::new(), &c)); } sink(c.get() as u64 + l2.len() as u64);
  { let a = std::sync::Arc::pin(E::A(PTok::new(), &c)); let b = a.clone(); drop(a); drop(b); } { let v: Vec<E<'_>> = vec![E::A(PTok::new(), &c), E::A(PTok::new(), &c)]; let mut it = v.into_iter(); it.next(); } { let x = [E::A(PTok::new(), &c)]; let [y] = x; drop(y) }
  ev("END");
}
"""
HAND["threads"] = r"""
use std::sync::{Arc, Mutex, atomic::{AtomicU32, Ordering}};
use std::thread;
#[pin_project(project = P, project_ref = R, project_replace = O)] struct S<'a> { a: Box<u32>, #[pin] b: Vec<u32>, c: &'a mut u32, #[pin] d: [u32; 2], e: AtomicU32, #[pin] f: Mutex<u32> }
#[pin_project(project = EP, project_ref = ER)] enum E { A(Box<u32>, #[pin] String), B { x: Vec<u8>, #[pin] y: u64, z: u8 } }
#[pin_project(PinnedDrop)] struct D(Tok, #[pin] Vec<u32>); #[pinned_drop] impl PinnedDrop for D { fn drop(self: Pin<&mut Self>) { let p = self.project(); p.0.touch(); p.1.get_mut().push(1); } }
fn main() {
  let mut w = 1; let mut s = Box::pin(S { a: Box::new(1), b: vec![1], c: &mut w, d: [1, 2], e: AtomicU32::new(0), f: Mutex::new(0) });
  for _ in 0..2 {
    let P { a, mut b, c, mut d, e, f } = s.as_mut().project();
    thread::scope(|t| { t.spawn(move || { **a += 1; thread::yield_now(); **a += 1 }); t.spawn(move || { b.push(2); thread::yield_now(); b.push(3) }); t.spawn(move || { **c += 1; **c += 1 }); let d0 = &mut d; t.spawn(move || { d0[0] += 1; thread::yield_now(); d0[1] += 1 }); let (e, f) = (&*e, f.as_ref()); for _ in 0..2 { t.spawn(move || { e.fetch_add(1, Ordering::Relaxed); *f.get_ref().lock().unwrap() += 1 }); } });
    ev("disjoint");
    let sh = s.as_ref();
    thread::scope(|t| { for _ in 0..3 { t.spawn(move || { let r = sh.project_ref(); sink(**r.a as u64 + r.b.len() as u64 + r.d[0] as u64 + **r.c as u64); r.e.fetch_add(1, Ordering::Relaxed); *r.f.get_ref().lock().unwrap() += 1; thread::yield_now(); sink(r.d[1] as u64) }); } });
    ev("shared");
  }
  let r = s.as_ref().project_ref(); let (ra, rb) = (r.a, r.b); thread::scope(|t| { t.spawn(move || sink(**ra as u64)); t.spawn(move || sink(rb.len() as u64)); t.spawn(move || sink(rb[0] as u64 + **ra as u64)); });
  let mut w2 = 5; let own = s.as_mut().project_replace(S { a: Box::new(4), b: vec![], c: &mut w2, d: [0; 2], e: AtomicU32::new(0), f: Mutex::new(0) }); thread::scope(|t| { t.spawn(move || { let O { mut a, c, .. } = own; *a += 1; *c += *a; }); let p = s.as_mut().project(); **p.a += 1; **p.c += 1; }); drop(s); ev("replaced");
  let e = Arc::pin(E::B { x: vec![1, 2], y: 3, z: 4 }); let hs: Vec<_> = (0..3).map(|i| { let e = e.clone(); thread::spawn(move || { match e.as_ref().project_ref() { ER::A(..) => 0, ER::B { x, y, z } => x.len() as u64 + *y + *z as u64 } }) }).collect(); drop(e); for h in hs { sink(h.join().unwrap()) }
  let mut e = Box::pin(E::A(Box::new(1), String::new())); match e.as_mut().project() { EP::A(b, s) => thread::scope(|t| { t.spawn(move || **b += 1); t.spawn(move || s.get_mut().push('x')); }), _ => {} } let h = thread::spawn(move || { let mut e = e; e.set(E::B { x: vec![], y: 1, z: 2 }); match e.as_mut().project() { EP::B { x, mut y, z } => { x.push(1); *y += 1; *z += 1 } _ => {} } e }); drop(h.join().unwrap());
  let d = Arc::pin(D(Tok::new(), vec![])); let hs: Vec<_> = (0..3).map(|_| { let d = d.clone(); thread::spawn(move || { sink(d.as_ref().project_ref().1.len() as u64); drop(d) }) }).collect(); sink(d.1.len() as u64); drop(d); for h in hs { h.join().unwrap() }
  ev("END");
}
"""
HAND["documented"] = r"""
// the idioms of the crate's documentation and examples
#[pin_project(project = StructProj, project_ref = StructRef)] struct Struct<T, U> { #[pin] pinned: T, unpinned: U }
impl<T, U> Struct<T, U> { fn method(self: Pin<&mut Self>) -> (Pin<&mut T>, &mut U) { let this = self.project(); (this.pinned, this.unpinned) } fn get(self: Pin<&Self>) -> (Pin<&T>, &U) { let StructRef { pinned, unpinned } = self.project_ref(); (pinned, unpinned) } fn into(self: Pin<&mut Self>) -> StructProj<'_, T, U> { self.project() } }
#[pin_project(project = EnumProj)] enum Either<A, B> { Left(#[pin] A), Right(#[pin] B) }
impl<A: Iterator, B: Iterator<Item = A::Item>> Either<A, B> { fn next(self: Pin<&mut Self>) -> Option<A::Item> where A: Unpin, B: Unpin { match self.project() { EnumProj::Left(mut a) => a.next(), EnumProj::Right(mut b) => b.next() } } }
#[pin_project] struct Nested<T, U> { #[pin] a: Struct<T, U>, #[pin] b: Either<T, U>, c: Struct<Box<U>, u8> }
impl<T, U> Nested<T, U> { fn all(self: Pin<&mut Self>) -> (Pin<&mut T>, &mut U, Pin<&mut Either<T, U>>, &mut Struct<Box<U>, u8>) { let p = self.project(); let (t, u) = p.a.method(); (t, u, p.b, p.c) } }
#[pin_project] struct Lend<'a, T> { #[pin] inner: Pin<&'a mut T>, other: Pin<&'a mut u8> }
#[pin_project] struct Buf { #[pin] store: [u8; 4], len: usize }
impl Buf { fn parts<'a>(self: &'a mut Pin<&mut Self>) -> (&'a mut [u8], &'a mut usize) { let p = self.as_mut().project(); (&mut p.store.get_mut()[..], p.len) } }
fn main() {
  let mut n = Box::pin(Nested { a: Struct { pinned: PTok::new(), unpinned: Tok::new() }, b: Either::Left(PTok::new()), c: Struct { pinned: Box::new(Tok::new()), unpinned: 1 } });
  for _ in 0..3 { let (t, u, e, c) = n.as_mut().all(); u.touch(); unsafe { t.get_unchecked_mut() }.touch(); c.unpinned += 1; match e.project() { EnumProj::Left(x) => { u.touch(); unsafe { x.get_unchecked_mut() }.touch() } EnumProj::Right(y) => unsafe { y.get_unchecked_mut() }.touch() } c.pinned.touch(); u.rd(); Pin::new(c).project().pinned.touch(); n.as_mut().project().b.set(Either::Right(Tok::new())); }
  { let (t, u) = n.as_ref().project_ref().a.get(); t.rd(); u.rd(); } drop(n);
  let mut it = pin!(Either::Left::<_, std::vec::IntoIter<u8>>([1u8, 2].into_iter())); while let Some(x) = it.as_mut().next() { sink(x as u64) } it.set(Either::Right(vec![3u8].into_iter())); sink(it.as_mut().next().unwrap() as u64);
  let (mut x, mut y) = (PTok::new(), 3u8); { let mut l = pin!(Lend { inner: unsafe { Pin::new_unchecked(&mut x) }, other: Pin::new(&mut y) }); for _ in 0..2 { let p = l.as_mut().project(); **p.other += 1; unsafe { p.inner.get_mut().as_mut().get_unchecked_mut() }.touch(); **p.other += 1; } let r = l.as_ref().project_ref(); r.inner.rd(); sink(**r.other as u64); } x.rd(); y += 1;
  let mut b = pin!(Buf { store: [0; 4], len: 0 }); let mut b2 = b.as_mut(); for i in 0..4 { let (s, l) = b2.parts(); s[*l] = i; *l += 1; s[0] += *l as u8; } sink(b.store[3] as u64 + b.len as u64);
  ev("END");
}
"""

MODELS = {"stacked": [], "tree": ["-Zmiri-tree-borrows"]}
BADWORDS = re.compile(r"error: (Undefined Behavior|memory leaked|.*data race|.*deadlock|abnormal termination|.*the evaluated program (aborted|panicked|deadlocked|leaked))|Undefined Behavior|memory leaked|[Dd]ata race")


def miri(c, art, src, name, model, seed=0, edition="2021", limit=600):
    d = os.path.join(c.wd.path, "%s_%d" % (re.sub(r"\W", "_", name)[:30], core.uniq()))
    os.makedirs(d)
    p = os.path.join(d, "main.rs")
    with open(p, "w") as f:
        f.write(src)
    cmd = ["rustup", "run", "nightly", "miri", "--sysroot", art.sysroot, "--edition", edition, "--crate-type", "bin", "--crate-name", "prog",
           "-A", "warnings", "--target", core.TRIPLE] + art.flags + art.externs() + MODELS[model] + ["-Zmiri-seed=%d" % seed, "-Zmiri-disable-isolation", p]
    rc, out, err, st = core.run(cmd, timeout=limit, cwd=d)
    shutil.rmtree(d, ignore_errors=True)
    if st == "timeout":
        return "slow", out, err
    if rc == 0 and out.rstrip().endswith("END"):
        return "clean", out, err
    if re.search(r"unsupported operation|internal compiler error|can't call foreign function", err):
        raise core.Inconclusive("interpreter cannot run %s: %s" % (name, err[-400:]))
    if re.search(r"^error\[E\d+\]", err, re.M) and not out:
        return "rejected", out, err
    if BADWORDS.search(err) or "panicked at" in err or out.count("\n") > 0 and rc not in (0, None):
        return "bad", out, err
    if re.search(r"^error", err, re.M):
        return "rejected", out, err
    return "bad", out, err


def first(err):
    m = re.search(r"^error: .*(?:\n.*){0,8}", err, re.M)
    return (m.group(0) if m else err[-600:])[:900]


def usable(c, ds, edition, hist, steps):
    """Declarations of the batch that the current tree accepts."""
    for _ in range(4):
        r = c.rustc(decl.program(ds, 1, hist, steps), name="pre", edition=edition, crate_type="bin")
        shutil.rmtree(os.path.dirname(r.path), ignore_errors=True)
        if r.ok:
            return ds
        good = []
        for d in ds:
            g = runeng.deps_closure(d, ds)
            r1 = c.rustc(decl.program(g, 1, hist, steps), name="pre1", edition=edition, crate_type="bin")
            shutil.rmtree(os.path.dirname(r1.path), ignore_errors=True)
            if r1.ok:
                good.append(d)
        c.count("rejected_declarations", len(ds) - len(good))
        if not good or len(good) == len(ds):
            break
        ds = good
    return []


def interp(c, art, batches, per, hist, steps):
    foc = ["replace", "pdrop", None, "project", "replace"]

    def one(i):
        try:
            rng = random.Random("C18m/%s/%d" % (c.seed, i))
            ed = ["2021", "2024", "2018"][i % 3]
            ds = usable(c, runeng.gen_batch(rng, i * 100, per, foc[i % len(foc)]), ed, hist, steps)
            if not ds:
                c.count("batches_without_declarations")
                return
            model = "stacked" if i % 2 == 0 else "tree"
            src = decl.program(ds, c.seed * 17 + i, hist, steps)
            v, out, err = miri(c, art, src, "batch", model, seed=i, edition=ed, limit=400)
            note(c, ds, out, "interpreted_" + model)
            if v == "slow":
                c.count("interpreter_timeouts")
            elif v == "rejected":
                c.count("rejected_programs")
            elif v != "clean":
                done = {l.split("\t")[1] for l in out.splitlines() if l.startswith("S\t")}
                cur = next((d for d in ds if d.mod not in done), None)
                msg = first(err)
                if cur is None:
                    c.violate("interpreter/%s/batch%d" % (model, i), "%s borrows: %s" % (model, msg), src=src, output=err[-4000:])
                else:
                    c.violate("interpreter/%s/%s" % (model, cur.mod), "%s borrows: %s" % (model, msg), src=decl.program(runeng.deps_closure(cur, ds), c.seed * 17 + i, hist, steps), output=err[-4000:], declaration=decl.decl_src(cur))
        except core.Inconclusive as e:
            c.inconclusive(str(e))
    core.pmap(one, range(batches))


def note(c, ds, out, tag):
    by = {d.mod: d for d in ds}
    for l in out.splitlines():
        p = l.split("\t")
        if p[0] == "S" and p[1] in by:
            kv = dict(x.split("=") for x in p[2:])
            c.case("%s %s" % (tag, decl.shape(by[p[1]])), True, n=int(kv["histories"]))
            c.count(tag + "_declarations")
            for k in ("histories", "injected", "drops", "reads"):
                c.count("%s_%s" % (tag, k), int(kv.get(k, 0)))


def hand(c, art, seeds):
    jobs = []
    for n, body in HAND.items():
        for m in MODELS:
            for s in (range(seeds) if n == "threads" else (0,)):
                jobs.append((n, m, s))

    def one(j):
        n, m, s = j
        try:
            v, out, err = miri(c, art, HEAD + HAND[n], n, m, seed=s + 100 * c.seed)
            c.case("program %s/%s/%d" % j, True)
            c.count("program_events", out.count("E\t"))
            if v == "slow":
                c.inconclusive("interpreter too slow on " + n)
            elif v == "rejected":
                c.count("rejected_programs")
            elif v != "clean":
                c.violate("program/%s/%s" % (n, m), "%s (%s borrows, schedule %d): %s" % (n, m, s, first(err)), src=HEAD + HAND[n], output=err[-4000:])
        except core.Inconclusive as e:
            c.inconclusive(str(e))
    core.pmap(one, jobs)
    c.cov["schedules"] = seeds


def asan(c, art, batches, per, hist, steps):
    foc = ["replace", "pdrop", None]

    def build(src, ed, opt):
        d = os.path.join(c.wd.path, "asan_%d" % core.uniq())
        os.makedirs(d)
        p, o = os.path.join(d, "main.rs"), os.path.join(d, "out.bin")
        with open(p, "w") as f:
            f.write(src)
        cmd = ["rustc", core.NIGHTLY, "--edition", ed, "--crate-type", "bin", "--crate-name", "prog", "-A", "warnings", "--target", core.TRIPLE, "-Zsanitizer=address",
               "-C", "opt-level=%d" % opt, "-C", "codegen-units=8", "-o", o] + art.flags + art.externs() + [p]
        rc, out, err, st = core.run(cmd, timeout=400, cwd=d)
        if rc != 0:
            shutil.rmtree(d, ignore_errors=True)
            return None
        return d, o

    def execute(d, o):
        rc, out, err, st = core.run([o], timeout=240, env=core.env_clean({"ASAN_OPTIONS": "detect_leaks=1:detect_stack_use_after_return=1:exitcode=77", "RUST_BACKTRACE": "0"}))
        shutil.rmtree(d, ignore_errors=True)
        return rc, out, err, st

    def one(i):
        try:
            rng = random.Random("C18a/%s/%d" % (c.seed, i))
            ed = ["2021", "2024", "2018"][i % 3]
            ds = usable(c, runeng.gen_batch(rng, i * 100, per, foc[i % 3]), ed, hist, steps)
            if not ds:
                return
            src = decl.program(ds, c.seed * 19 + i, hist, steps)
            b = build(src, ed, i % 3)
            if b is None:
                c.count("rejected_programs")
                return
            rc, out, err, st = execute(*b)
            note(c, ds, out, "sanitized")
            if st == "timeout":
                raise core.Inconclusive("sanitized program timed out")
            if rc != 0 or not out.rstrip().endswith("END"):
                if "LeakSanitizer has encountered a fatal error" in err:
                    c.count("leak_checks_unavailable")
                    return
                done = {l.split("\t")[1] for l in out.splitlines() if l.startswith("S\t")}
                cur = next((d for d in ds if d.mod not in done), None)
                m = re.search(r"ERROR: .*(?:\n.*){0,6}", err)
                c.violate("sanitizer/%s" % (cur.mod if cur else "batch%d" % i), "address sanitizer: rc=%s %s" % (rc, (m.group(0) if m else err[-500:])), src=decl.program(runeng.deps_closure(cur, ds), c.seed * 19 + i, hist, steps) if cur else src, output=err[-4000:])
        except core.Inconclusive as e:
            c.inconclusive(str(e))
    core.pmap(one, range(batches))

    def two(n):
        try:
            for opt in (0, 3):
                b = build(HEAD + HAND[n], "2021", opt)
                if b is None:
                    c.count("rejected_programs")
                    return
                rc, out, err, st = execute(*b)
                c.case("sanitized %s/%d" % (n, opt), True)
                if "LeakSanitizer has encountered a fatal error" in err:
                    c.count("leak_checks_unavailable")
                elif rc != 0 or not out.rstrip().endswith("END"):
                    c.violate("sanitized-program/" + n, "address sanitizer on %s (opt-level %d): rc=%s %s" % (n, opt, rc, err[:600]), src=HEAD + HAND[n], output=err[-4000:])
        except core.Inconclusive as e:
            c.inconclusive(str(e))
    core.pmap(two, [n for n in HAND])


def optimized(c, batches):
    """The full monitors on optimised builds: miscompilation shows as a wrong observation or double destruction."""
    def on_v(d, cls, msg, src):
        if cls in ("double", "crash"):
            c.violate("%s/%s" % (cls, d.mod), "%s: %s" % (cls, msg), src=src)

    def one(i):
        try:
            rng = random.Random("C18o/%s/%d" % (c.seed, i))
            ds = runeng.gen_batch(rng, i * 1000, 22, ["replace", "pdrop"][i % 2])
            runeng.run_batch(c, ds, c.seed * 7 + i, 60, 16, "2021", on_v, extra=["-C", "opt-level=3"])
        except core.Inconclusive as e:
            c.inconclusive(str(e))
    core.pmap(one, range(batches))


# declarations whose expansions name every helper of the run-time library
HELPERS = ["#[pin_project(project = Pr, project_ref = Rf, project_replace = Ow)] struct S<T, U> { #[pin] a: T, b: U }", "#[pin_project(project = Pr, project_ref = Rf, project_replace = Ow)] enum S<T, U> { A { #[pin] a: T, b: U }, B(#[pin] T, U), C }",
           "#[pin_project(project_replace)] struct S(#[pin] String, String);", "#[pin_project(PinnedDrop)] struct S { #[pin] a: u8 } #[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) {} }", "#[pin_project(UnsafeUnpin)] struct S<T>(#[pin] T);", "#[pin_project(!Unpin)] struct S(#[pin] u8);"]


def entries(c, art):
    """Helpers that expansions reach by path, called from safe code with dangling pointers: rejected, or harmless under the interpreter."""
    paths = {"UnsafeDropInPlaceGuard::new", "UnsafeOverwriteGuard::new", "UnsafeDropInPlaceGuard", "PinnedDrop::drop"}
    for h in HELPERS:
        paths |= set(re.findall(r"__private::([A-Za-z_]\w*(?:::[A-Za-z_]\w*)*)", c19.expanded(c, "use pin_project::{pin_project, pinned_drop}; use ::core::pin::Pin;\n" + h)))
    for x in list(paths):
        if "::" not in x:
            paths |= {x + "::new", x + "::from", x + "::new_unchecked"}
    c.count("library_paths_in_expansions", len(paths))
    calls = ["%s(p)", "%s(p, String::new())", "%s(p, p)", "%s(p as *const String)", "%s::<String>(p)", "%s(p, || ())", "%s { target: p, value: ::core::mem::ManuallyDrop::new(String::new()) }", "%s { 0: p }", "%s(p, &mut String::new())", "%s(Pin::new(&mut *Box::new(String::new())))",
             "%s(&mut p)", "%s(&p)", "%s(p, 1)", "%s(String::new(), p)"]
    items = [("entry/" + k % x, "use ::core::pin::Pin; #[forbid(unsafe_code)] pub fn main() { let mut p: *mut String = ::core::ptr::NonNull::<String>::dangling().as_ptr(); { let _g = %s; } println!(\"END\"); }" % (k % ("::pin_project::__private::" + x)), "")
             for x in sorted(paths) for k in calls]
    got = []
    verdict.reject_batch(c, items, per=60, head="#![allow(warnings)]\n", collect=got)

    def one(x):
        try:
            v, out, err = miri(c, art, "#![allow(warnings)]\n" + x[1], "entry", "stacked")
            c.case("interpreted " + x[0], True)
            if v == "bad":
                c.violate("library/" + x[0], "safe call of a library helper: " + first(err), src=x[1], output=err[-4000:])
        except core.Inconclusive as e:
            c.inconclusive(str(e))
    core.pmap(one, got)
    c.count("accepted_library_calls", len(got))


def c18(c):
    art = core.build_nightly("miri")
    hand(c, art, c.pick(6, 64))
    entries(c, art)
    interp(c, art, c.pick(40, 400), 6, c.pick(3, 8), 8)
    asan(c, core.build_nightly("asan"), c.pick(8, 64), 20, c.pick(60, 300), 16)
    optimized(c, c.pick(4, 24))
    if c.cov.get("batches_without_declarations", 0) + c.cov.get("rejected_programs", 0) > 20:
        c.inconclusive("most generated batches are rejected by the current tree")
    c.sample({"program": "self-referential", "source": HAND["self-referential"][:1500]})
    c.rule = ("generated declarations driven through histories with injected destructor panics and hand-written programs (futures, self-references, unsized, threads, odd layouts, results outliving places) run under the interpreter with "
              "both aliasing models and leak and race detection, under the address sanitizer with leak detection, and optimised under the full monitors; distinct by (tool, declaration shape) or (program, model, schedule)")
