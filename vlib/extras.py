"""Hand-written runtime workloads for shapes that a sized Subject cannot express."""

DST = r"""
#![allow(warnings)]
use pin_project::{pin_project, pinned_drop};
use std::pin::Pin;
use vrt::*;
macro_rules! decls { ($m:ident, $args:tt, $pd:ident) => {
    mod $m { use super::*;
        #[pin_project $args] pub struct N<T: ?Sized> { pub head: Tok, #[pin] pub pinned: PTok, pub tail: T }
        #[pin_project $args] pub struct P<T: ?Sized>(pub Tok, pub u8, #[pin] pub T);
        #[pin_project $args] pub struct L<'a, T: ?Sized + 'a> where T: Send { pub r: &'a u64, pub head: Tok, #[pin] pub tail: T }
        $pd!();
    }
} }
macro_rules! none { () => {} }
macro_rules! pd { () => {
    #[pinned_drop] impl<T: ?Sized> PinnedDrop for N<T> { fn drop(self: Pin<&mut Self>) { let a = addr_of(&*self); let p = self.project(); on_body(a, vec![addr_of(&*p.head), addr_of(&*p.pinned), addr_of(&*p.tail)]); } }
    #[pinned_drop] impl<T: ?Sized> PinnedDrop for P<T> { fn drop(self: Pin<&mut Self>) { let a = addr_of(&*self); let p = self.project(); on_body(a, vec![addr_of(&*p.0), addr_of(&*p.1), addr_of(&*p.2)]); } }
    #[pinned_drop] impl<T: ?Sized + Send> PinnedDrop for L<'_, T> { fn drop(self: Pin<&mut Self>) { let a = addr_of(&*self); let p = self.as_ref().project_ref(); on_body(a, vec![addr_of(*p.r), addr_of(&*p.head), addr_of(&*p.tail)]); } }
} }
decls!(plain, (), none);
decls!(dropping, (PinnedDrop), pd);
decls!(both, (PinnedDrop, !Unpin), pd);
fn script(body: Option<Ev>, parts: &[&dyn Fld]) -> Vec<Ev> { let mut v: Vec<Ev> = body.into_iter().collect(); for p in parts { p.script(&mut v); } v }
fn ck(what: &str, class: &str, ok: bool, msg: String) { if !ok { println!("V\t{}\t{}\t{}", what, class, msg.replace('\n', " ")); } else { N.with(|n| n.set(n.get() + 1)); } }
thread_local! { static N: std::cell::Cell<u64> = std::cell::Cell::new(0); }
macro_rules! run { ($m:ident, $pd:expr) => {{
    let mut r = Rng::new(7);
    for round in 0..6u64 {
        // slice tail
        { let mut b: Pin<Box<$m::N<[Tok]>>> = match round % 3 { 0 => Box::pin($m::N { head: Tok::new(), pinned: PTok::new(), tail: [] }) as _, 1 => Box::pin($m::N { head: Tok::new(), pinned: PTok::new(), tail: [Tok::new()] }), _ => Box::pin($m::N { head: Tok::new(), pinned: PTok::new(), tail: [Tok::new(), Tok::new(), Tok::new()] }) };
          let (h, p, t, n) = (addr_of(&b.head), addr_of(&b.pinned), addr_of(&b.tail), b.tail.len());
          { let q = b.as_mut().project(); let a: &mut Tok = q.head; let bb: Pin<&mut PTok> = q.pinned; let cc: &mut [Tok] = q.tail;
            ck("dst-slice", "proj", (addr_of(&*a), addr_of(&*bb), addr_of(&*cc), cc.len()) == (h, p, t, n), format!("addresses")); for x in cc.iter_mut() { x.touch(); } a.touch(); }
          { let q = b.as_ref().project_ref(); let cc: &[Tok] = q.tail; let bb: Pin<&PTok> = q.pinned; ck("dst-slice", "proj", (addr_of(cc), addr_of(&*bb)) == (t, p), format!("addresses")); }
          let mut want = vec![]; if $pd { want.push(Ev::Body { addr: addr_of(&*b), fields: vec![h, p, t] }); }
          b.head.script(&mut want); b.pinned.script(&mut want); b.tail.script(&mut want);
          take_log(); drop(b); let got = take_log(); ck("dst-slice", "drop", got == want, format!("{:?} expected {:?}", got, want)); }
        // trait object tail, pinned
        { let mut b: Pin<Box<$m::P<dyn Fld>>> = if round % 2 == 0 { Box::pin($m::P(Tok::new(), 1, PTok::new())) } else { Box::pin($m::P(Tok::new(), 1, (ATok::new(), PTok::new()))) };
          let (h, t, sz) = (addr_of(&b.0), addr_of(&b.2), std::mem::size_of_val(&b.2));
          { let q = b.as_mut().project(); let a: &mut Tok = q.0; let cc: Pin<&mut dyn Fld> = q.2; ck("dst-dyn", "proj", (addr_of(&*a), addr_of(&*cc), std::mem::size_of_val(&*cc)) == (h, t, sz), format!("addresses")); }
          { let q = b.as_ref().project_ref(); let cc: Pin<&dyn Fld> = q.2; ck("dst-dyn", "proj", addr_of(&*cc) == t, format!("addresses")); }
          let mut want = vec![]; if $pd { want.push(Ev::Body { addr: addr_of(&*b), fields: vec![h, addr_of(&b.1), t] }); }
          b.0.script(&mut want); b.2.script(&mut want);
          take_log(); drop(b); let got = take_log(); ck("dst-dyn", "drop", got == want, format!("{:?} expected {:?}", got, want)); }
        // with a lifetime, unsized pinned tail
        { let x = 5u64; let mut b: Pin<Box<$m::L<'_, [PTokS]>>> = Box::pin($m::L { r: &x, head: Tok::new(), tail: [PTokS(PTok::new()), PTokS(PTok::new())] });
          let (h, t) = (addr_of(&b.head), addr_of(&b.tail));
          { let q = b.as_mut().project(); let cc: Pin<&mut [PTokS]> = q.tail; ck("dst-life", "proj", (addr_of(&*q.head), addr_of(&*cc), cc.len()) == (h, t, 2), format!("addresses")); }
          let mut want = vec![]; if $pd { want.push(Ev::Body { addr: addr_of(&*b), fields: vec![addr_of(b.r), h, t] }); }
          b.head.script(&mut want); for p in b.tail.iter() { p.0.script(&mut want); }
          take_log(); drop(b); let got = take_log(); ck("dst-life", "drop", got == want, format!("{:?} expected {:?}", got, want)); }
        // forgotten values run nothing
        { let b = $m::P(Tok::new(), 2, PTok::new()); take_log(); let mut m = std::mem::ManuallyDrop::new(b); ck("forget", "drop", take_log().is_empty(), "forgotten value was destroyed".into());
          let mut want = vec![]; if $pd { want.push(Ev::Body { addr: addr_of(&*m), fields: vec![addr_of(&m.0), addr_of(&m.1), addr_of(&m.2)] }); } m.0.script(&mut want); m.2.script(&mut want);
          unsafe { std::mem::ManuallyDrop::drop(&mut m) }; let got = take_log(); ck("forget", "drop", got == want, format!("{:?} expected {:?}", got, want)); }
        // shared owners, in arrays, in other threads
        { let a: std::sync::Arc<$m::N<u8>> = std::sync::Arc::new($m::N { head: Tok::new(), pinned: PTok::new(), tail: 1 }); let b = a.clone(); take_log(); drop(a); ck("arc", "drop", take_log().is_empty(), "early".into()); let n = if $pd { 3 } else { 2 }; drop(b); let g = take_log().len(); ck("arc", "drop", g == n, format!("{} events", g)); }
        { let arr = [$m::P(Tok::new(), 1, PTok::new()), $m::P(Tok::new(), 2, PTok::new())]; let arr = Box::new(arr); let mut want = vec![]; for e in arr.iter() { if $pd { want.push(Ev::Body { addr: addr_of(e), fields: vec![addr_of(&e.0), addr_of(&e.1), addr_of(&e.2)] }); } e.0.script(&mut want); e.2.script(&mut want); } take_log(); drop(arr); let got = take_log(); ck("array", "drop", got == want, format!("{:?} expected {:?}", got, want)); }
        { let h = std::thread::spawn(|| { let v = $m::P(Tok::new(), 3, PTok::new()); take_log(); std::thread_local! { static K: std::cell::RefCell<Option<u8>> = std::cell::RefCell::new(None) }; drop(v); take_log().len() }); let n = h.join().unwrap(); ck("thread", "drop", n == if $pd { 3 } else { 2 }, format!("{} events", n)); }
        { // held across an await point in a dropped future
          async fn f(x: $m::P<PTok>) { let mut x = x; let _p = std::future::pending::<()>().await; let _ = &mut x; }
          let mut fut = Box::pin(f($m::P(Tok::new(), 4, PTok::new())));
          use std::future::Future; let w = std::task::Waker::noop(); let mut cx = std::task::Context::from_waker(&w); assert!(fut.as_mut().poll(&mut cx).is_pending());
          take_log(); drop(fut); let g = take_log().len(); ck("future", "drop", g == if $pd { 3 } else { 2 }, format!("{} events", g)); }
        { // temporary at the end of a statement; moved into a closure and dropped with it; mem::take-like swaps before pinning
          take_log(); let _ = $m::P(Tok::new(), 5, PTok::new()).1; let g = take_log().len(); ck("temporary", "drop", g == if $pd { 3 } else { 2 }, format!("{} events", g));
          let v = $m::P(Tok::new(), 6, PTok::new()); let cl = move || { let _ = &v; }; take_log(); drop(cl); let g = take_log().len(); ck("closure", "drop", g == if $pd { 3 } else { 2 }, format!("{} events", g));
          let mut o = Some($m::P(Tok::new(), 7, PTok::new())); let t = o.take(); take_log(); drop(o); ck("taken", "drop", take_log().is_empty(), "early".into()); drop(t); let g = take_log().len(); ck("taken", "drop", g == if $pd { 3 } else { 2 }, format!("{} events", g));
          let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _v = $m::P(Tok::new(), 8, PTok::new()); take_log(); std::panic::resume_unwind(Box::new(Injected)); })); let g = take_log().len(); ck("unwind", "drop", r.is_err() && g == if $pd { 3 } else { 2 }, format!("{} events", g)); }
        let _ = r.next();
    }
}} }
pub struct PTokS(PTok); unsafe impl Send for PTokS {}
fn main() { run!(plain, false); run!(dropping, true); run!(both, true);
    N.with(|n| println!("S\textras\thistories=6\tchecks={}\tevents=0\tinjected=0\tstates=0", n.get())); println!("END"); }
"""


def run_extra(c, src, props, cls_map, edition="2021"):
    from . import core, runeng
    r = c.rustc(src, name="extras", edition=edition, emit="link", crate_type="bin")
    if not r.ok:
        c.violate("rejected/extras", "legal workload rejected: " + r.brief(), src=src)
        return
    rc, out, err, st = core.run([r.out], timeout=200, cpu=100)
    vs, stats = runeng.parse_out(out)
    for what, cls, msg in vs:
        if cls_map.get(cls, set()) & props:
            c.violate("%s/%s" % (cls, what), "%s: %s" % (what, msg), src=src)
    for k, s in stats.items():
        c.case("extras", n=int(s["checks"]))
        c.count("extra_checks", int(s["checks"]))
    if "END" not in out.splitlines()[-1:]:
        if st == "timeout":
            raise core.Inconclusive("extras timed out")
        c.violate("crash/extras", "workload died rc=%s: %s" % (rc, err[-800:]), src=src)
