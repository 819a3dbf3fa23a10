"""Values of the declarations of the C15 grammar, observed at run time.

Type parameters are instantiated with types that satisfy every bound the grammar writes: a copyable one, and ones
whose destructor is logged (movable or not).  A field of a type without drop glue is filled with a bit pattern (it is only
ever addressed), the others are built by a trait that is specialised for the containers of the grammar.  Every logged
value has a number and every field knows its numbers, so exactly-once, order and place are decided from the log."""
import random
import re
from . import c15, suite

HEAD = r"""
#![feature(specialization, unboxed_closures, fn_traits, tuple_trait)]
pub mod uni {
    use ::std::cell::{Cell, RefCell};
    use ::std::pin::Pin;
    use ::std::panic::{catch_unwind, AssertUnwindSafe};
    thread_local! {
        static NEXT: Cell<u64> = Cell::new(1);
        static LIVE: RefCell<::std::collections::BTreeSet<u64>> = RefCell::new(::std::collections::BTreeSet::new());
        static LOG: RefCell<Vec<(u64, usize)>> = RefCell::new(Vec::new());
        static PANIC: Cell<u64> = Cell::new(0);
        static DEPTH: Cell<usize> = Cell::new(0);
    }
    pub const MAGIC: u64 = 0x5eed_0000_c0de_0000;
    pub const BODY: u64 = u64::MAX;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)] pub struct Uni(pub u32);
    #[repr(C)] #[derive(Debug)] pub struct D<P>(u64, P);
    impl<P: Default> D<P> { pub fn new() -> Self { let n = NEXT.with(|x| { let n = x.get(); x.set(n + 1); n }); LIVE.with(|l| l.borrow_mut().insert(n)); D(n ^ MAGIC, P::default()) } }
    impl<P: Default> Clone for D<P> { fn clone(&self) -> Self { D::new() } }
    impl<P> Drop for D<P> { fn drop(&mut self) { let n = self.0 ^ MAGIC; LIVE.with(|l| l.borrow_mut().remove(&n)); LOG.with(|l| l.borrow_mut().push((n, self as *const Self as *const u8 as usize))); if PANIC.with(|p| p.get()) == n { PANIC.with(|p| p.set(0)); panic!("injected") } } }
    pub fn body(a: usize) { LOG.with(|l| l.borrow_mut().push((BODY, a))); if PANIC.with(|p| p.get()) == BODY { PANIC.with(|p| p.set(0)); panic!("injected") } }
    pub type Mv = D<()>; pub type Pn = D<::std::marker::PhantomPinned>;
    macro_rules! each { ($([$($g:tt)*] $t:ty),*) => { $(
        impl<$($g)*> Iterator for $t { type Item = u8; fn next(&mut self) -> Option<u8> { None } }
        impl<$($g)*> From<$t> for String { fn from(_: $t) -> String { String::new() } }
        impl<$($g)*> PartialEq<Vec<u8>> for $t { fn eq(&self, _: &Vec<u8>) -> bool { true } }
        impl<$($g)*> AsRef<[u8]> for $t { fn as_ref(&self) -> &[u8] { &[] } }
        impl<$($g)* const ZZ: usize> AsRef<[u8; ZZ]> for $t { fn as_ref(&self) -> &[u8; ZZ] { loop {} } }
        calls!([$($g)*] $t, [] (u8,), u8); calls!([$($g)*] $t, ['q,] (&'q u8,), &'q u8); calls!([$($g)*] $t, ['q,] (&'q u16,), ()); calls!([$($g)*] $t, [] (), ()); calls!([$($g)*] $t, ['q,] (&'q Uni,), ()); calls!([$($g)*] $t, ['q, QP] (&'q D<QP>,), ());
    )* } }
    macro_rules! calls { ([$($g:tt)*] $t:ty, [$($h:tt)*] $a:ty, $o:ty) => {
        impl<$($h)* $($g)*> FnOnce<$a> for $t { type Output = $o; extern "rust-call" fn call_once(self, _: $a) -> $o { loop {} } }
        impl<$($h)* $($g)*> FnMut<$a> for $t { extern "rust-call" fn call_mut(&mut self, _: $a) -> $o { loop {} } }
        impl<$($h)* $($g)*> Fn<$a> for $t { extern "rust-call" fn call(&self, _: $a) -> $o { loop {} } }
    } }
    each!([] Uni, [] Mv, [] Pn);
    impl PartialEq<Mv> for Pn { fn eq(&self, _: &Mv) -> bool { true } } impl PartialEq<Pn> for Mv { fn eq(&self, _: &Pn) -> bool { true } } impl PartialEq for Mv { fn eq(&self, _: &Mv) -> bool { true } } impl PartialEq for Pn { fn eq(&self, _: &Pn) -> bool { true } }
    impl<P> PartialEq<Uni> for D<P> { fn eq(&self, _: &Uni) -> bool { true } } impl<P> PartialEq<D<P>> for Uni { fn eq(&self, _: &D<P>) -> bool { true } }
    impl From<Mv> for Pn { fn from(_: Mv) -> Pn { loop {} } } impl From<Pn> for Mv { fn from(_: Pn) -> Mv { loop {} } } impl From<Uni> for Mv { fn from(_: Uni) -> Mv { loop {} } } impl From<Uni> for Pn { fn from(_: Uni) -> Pn { loop {} } } impl From<Mv> for Uni { fn from(_: Mv) -> Uni { loop {} } } impl From<Pn> for Uni { fn from(_: Pn) -> Uni { loop {} } }

    pub trait Mk: Sized { fn mk() -> Option<Self>; }
    impl<T> Mk for T { default fn mk() -> Option<T> {
        if ::std::mem::needs_drop::<T>() { return None }
        let mut m = ::std::mem::MaybeUninit::<T>::uninit();
        unsafe { let p = m.as_mut_ptr() as *mut u8; for i in 0..::std::mem::size_of::<T>() { *p.add(i) = if i % 4 == 0 { 1 } else { 0 } } Some(m.assume_init()) }
    } }
    fn deep<X>(f: impl FnOnce() -> Option<X>) -> Option<X> { if DEPTH.with(|d| d.get()) > 5 { return None } DEPTH.with(|d| d.set(d.get() + 1)); let r = f(); DEPTH.with(|d| d.set(d.get() - 1)); r }
    impl<P: Default> Mk for D<P> { fn mk() -> Option<Self> { Some(D::new()) } }
    impl Mk for String { fn mk() -> Option<Self> { Some(String::from("heap")) } }
    impl<X> Mk for Vec<X> { fn mk() -> Option<Self> { Some(deep(|| Some(vec![X::mk()?, X::mk()?])).unwrap_or(Vec::new())) } }
    impl<X> Mk for Box<X> { fn mk() -> Option<Self> { deep(|| Some(Box::new(X::mk()?))) } }
    impl<X> Mk for ::std::rc::Rc<X> { fn mk() -> Option<Self> { deep(|| Some(::std::rc::Rc::new(X::mk()?))) } }
    impl<X> Mk for Pin<Box<X>> { fn mk() -> Option<Self> { deep(|| Some(Box::pin(X::mk()?))) } }
    impl<X> Mk for Option<X> { fn mk() -> Option<Self> { Some(deep(|| X::mk())) } }
    impl<X, Y> Mk for Result<X, Y> { fn mk() -> Option<Self> { deep(|| Some(Ok(X::mk()?))) } }
    impl<X> Mk for RefCell<X> { fn mk() -> Option<Self> { Some(RefCell::new(X::mk()?)) } }
    impl<X> Mk for (X,) { fn mk() -> Option<Self> { Some((X::mk()?,)) } }
    impl<X, Y> Mk for (X, Y) { fn mk() -> Option<Self> { Some((X::mk()?, Y::mk()?)) } }
    impl<X, const N: usize> Mk for [X; N] { fn mk() -> Option<Self> { let mut v = Vec::new(); for _ in 0..N { v.push(X::mk()?); } v.try_into().ok() } }
    impl<K, X> Mk for ::std::collections::BTreeMap<K, X> { fn mk() -> Option<Self> { Some(::std::collections::BTreeMap::new()) } }
    impl<'a> Mk for ::std::borrow::Cow<'a, str> { fn mk() -> Option<Self> { Some(::std::borrow::Cow::Owned(String::from("heap"))) } }

    pub fn mark() -> u64 { NEXT.with(|n| n.get()) }
    pub fn ar<T>(x: &T) -> (usize, usize) { (x as *const T as *const u8 as usize, ::std::mem::size_of::<T>()) }
    pub type Shape = (usize, Vec<(usize, usize)>);
    pub trait Subj: Sized {
        const PD: bool; const DROPS: bool; const PINS: &'static [&'static [bool]];
        fn zz_mk(v: usize) -> Option<(Self, Vec<(u64, u64)>)>;
        fn zz_direct(&self) -> Shape;
        fn zz_p(self: Pin<&mut Self>) -> Option<Shape>;
        fn zz_r(self: Pin<&Self>) -> Option<Shape>;
        fn zz_o(self: Pin<&mut Self>, v: Self, mid: &mut dyn FnMut()) -> bool;
    }
    fn log() -> Vec<(u64, usize)> { LOG.with(|l| ::std::mem::take(&mut *l.borrow_mut())) }
    fn nums(l: &[(u64, usize)]) -> Vec<u64> { l.iter().map(|x| x.0).collect() }
    fn ck(p: &str, ok: bool, m: impl FnOnce() -> String) { if p == crate::WANT { vrt::ck(ok, m) } }
    fn make<S: Subj>(v: usize) -> Option<(Pin<Box<S>>, Vec<Vec<u64>>)> {
        DEPTH.with(|d| d.set(0));
        let r = S::zz_mk(v); log();
        let (s, rs) = r?;
        let b = Box::pin(s);
        if b.zz_direct().0 != v { ::std::mem::forget(b); return None }
        let ids = rs.iter().map(|(a, z)| (*a..*z).filter(|n| LIVE.with(|l| l.borrow().contains(n))).collect()).collect();
        Some((b, ids))
    }
    fn inline<S: Subj>(b: &S, ids: &[Vec<u64>]) -> Vec<(u64, usize)> {
        let mut out = vec![];
        for (f, n) in b.zz_direct().1.iter().zip(ids) { for k in n { let mut a = f.0; while a + 8 <= f.0 + f.1 { if a % 8 == 0 && unsafe { ::std::ptr::read_volatile(a as *const u64) } == (k ^ MAGIC) { out.push((*k, a)) } a += 1 } } }
        out
    }
    fn flat(ids: &[Vec<u64>], pins: &[bool], which: Option<bool>) -> Vec<u64> { ids.iter().zip(pins).filter(|(_, p)| which.map_or(true, |w| w == **p)).flat_map(|(i, _)| i.iter().cloned()).collect() }
    fn ending<S: Subj>(p: &str, b: Pin<Box<S>>, ids: &[Vec<u64>], what: &str, panic: u64) {
        let a = &*b as *const S as *const u8 as usize;
        let at = inline(&*b, ids);
        log(); PANIC.with(|p| p.set(panic));
        let r = catch_unwind(AssertUnwindSafe(move || drop(b))); PANIC.with(|p| p.set(0));
        let l = log();
        let mut want = if S::PD { vec![BODY] } else { vec![] };
        want.extend(ids.iter().flatten());
        ck(p, nums(&l) == want, || format!("{}: destructor events {:?}, expected {:?}", what, nums(&l), want));
        ck(p, r.is_err() == (panic != 0), || format!("{}: panic lost or added", what));
        for (n, x) in &l { if *n == BODY { ck(p, *x == a, || format!("{}: destructor body at another address", what)) } if let Some(y) = at.iter().find(|y| y.0 == *n) { ck("C02", y.1 == *x, || format!("{}: {} destroyed at another address", what, n)) } }
    }
    pub fn drive<S: Subj>() {
        ck("C05", ::std::mem::needs_drop::<S>() == (S::PD || S::DROPS), || format!("needs_drop is {}", ::std::mem::needs_drop::<S>()));
        let n = S::PINS.len();
        for v in 0..n {
            let Some((mut b, ids)) = make::<S>(v) else { continue };
            let d = b.zz_direct();
            let r = b.as_ref().zz_r();
            let p = b.as_mut().zz_p();
            for (nm, x) in [("project_ref", r), ("project", p)] { if let Some(x) = x { ck("C01", x == d, || format!("{} of variant {}: fields at {:?}, expected {:?}", nm, v, x, d)); } }
            let l = log(); ck("C01", l.is_empty(), || format!("projecting ran destructors: {:?}", l));
            ck("C01", b.zz_direct() == d, || format!("projecting changed the variant"));
            ending("C05", b, &ids, "drop", 0);
            if S::PD { if let Some((b, ids)) = make::<S>(v) { ending("C05", b, &ids, "drop with panicking body", BODY) } }
            for k in 0..ids.iter().flatten().count().min(4) { if let Some((b, ids)) = make::<S>(v) { let x = *ids.iter().flatten().nth(k).unwrap(); ending("C05", b, &ids, "drop with panicking field", x) } }
            'w: for w in 0..n {
                let mut k = 0;
                loop {
                    let Some((mut b, ids)) = make::<S>(v) else { break };
                    let Some((nb, nids)) = make::<S>(w) else { break };
                    let pinned = flat(&ids, S::PINS[v], Some(true)); let rest = flat(&ids, S::PINS[v], Some(false));
                    let at = inline(&*b, &ids);
                    let who = if k == 0 { "C03" } else { "C04" };
                    let faulty = if k == 0 { 0 } else { pinned[k - 1] };
                    let new = unsafe { *Pin::into_inner_unchecked(nb) };
                    log(); PANIC.with(|p| p.set(faulty));
                    let mut mid = None;
                    let r = catch_unwind(AssertUnwindSafe(|| b.as_mut().zz_o(new, &mut || mid = Some(log())))); PANIC.with(|p| p.set(0));
                    let after = log();
                    match r { Ok(false) => break 'w, Ok(true) => {
                        let mid = mid.unwrap();
                        ck(who, faulty == 0, || format!("replace: panic of a pinned destructor lost"));
                        ck("C03", nums(&mid) == pinned, || format!("replace {}->{}: events {:?}, expected {:?}", v, w, nums(&mid), pinned));
                        ck("C03", nums(&after) == rest, || format!("drop of the result {}->{}: events {:?}, expected {:?}", v, w, nums(&after), rest));
                        for (n, x) in &mid { if let Some(y) = at.iter().find(|y| y.0 == *n) { ck("C02", y.1 == *x, || format!("replace: pinned {} destroyed at another address", n)) } }
                    } Err(_) => {
                        let p: Vec<u64> = nums(&after).into_iter().filter(|x| pinned.contains(x)).collect(); let mut q: Vec<u64> = nums(&after).into_iter().filter(|x| !pinned.contains(x)).collect(); q.sort();
                        ck(who, faulty != 0, || format!("replace: unexpected panic"));
                        ck(who, p == pinned, || format!("panicking replace {}->{}: pinned events {:?}, expected {:?}", v, w, p, pinned));
                        let mut rr = rest.clone(); rr.sort(); ck(who, q == rr, || format!("panicking replace {}->{}: unpinned events {:?}, expected {:?}", v, w, q, rr));
                        for (n, x) in &after { if pinned.contains(n) { if let Some(y) = at.iter().find(|y| y.0 == *n) { ck("C02", y.1 == *x, || format!("panicking replace: pinned {} destroyed at another address", n)) } } }
                    } }
                    ck(who, b.zz_direct().0 == w, || format!("replace {}->{}: the place holds variant {}", v, w, b.zz_direct().0));
                    ending(who, b, &nids, "drop of the replacement", 0);
                    k += 1;
                    if k > pinned.len().min(5) { break }
                }
            }
        }
    }
}
"""
HEAD = " ".join(l.strip() for l in HEAD.strip().split("\n"))

TYPES = ("impl<X> crate::uni::Mk for Ty<X> { fn mk() -> ::core::option::Option<Self> { ::core::option::Option::Some(Ty(<::std::boxed::Box<X> as crate::uni::Mk>::mk()?)) } } "
         "impl<X> crate::uni::Mk for sub::In<X> { fn mk() -> ::core::option::Option<Self> { ::core::option::Option::Some(sub::In(<X as crate::uni::Mk>::mk()?)) } } "
         "impl Ob for crate::uni::Uni {} impl<X> Ob for crate::uni::D<X> {} "
         "impl<'l> crate::uni::Mk for ::std::boxed::Box<dyn Ob + 'l> { fn mk() -> ::core::option::Option<Self> { ::core::option::Option::Some(::std::boxed::Box::new(crate::uni::Mv::new())) } } "
         "impl<'l> crate::uni::Mk for ::std::boxed::Box<dyn Ob + ::core::marker::Send + 'l> { fn mk() -> ::core::option::Option<Self> { ::core::option::Option::Some(::std::boxed::Box::new(crate::uni::Mv::new())) } } ")


def subject(rng, t):
    """(impl of Subj for the annotated type, the same without projections, instantiation)."""
    g = t.g
    txt = " ".join([p[2] for p in g.params] + g.where)
    inst = []
    for k, n, d, _ in g.params:
        if k == "l":
            inst.append("'static")
        elif k == "c":
            inst.append("true" if n == "FLAG" else rng.choice(["2", "3"]))
        else:
            e = re.escape(n)
            copy = re.search(r"(?<!\w)%s\b[^,]*\bCopy\b" % e, txt) or re.search(r"%s>: Copy" % e, txt)
            unpin = re.search(r"(?<!\w)%s: [^,]*Unpin" % e, txt)
            inst.append("crate::uni::Uni" if copy else "crate::uni::Mv" if unpin or rng.random() < 0.4 else "crate::uni::Pn")
    full = "S" + ("<%s>" % ", ".join(inst) if inst else "")
    V = "::std::vec::Vec"
    O = "::core::option::Option"
    SH = "crate::uni::Shape"
    en = t.kind == "enum"

    def shape(expr, ty, acc):
        if not en:
            return "let p = %s; (0, ::std::vec![%s])" % (expr, ", ".join("crate::uni::ar(%sp.%s)" % (acc, nm) for nm, _, _ in t.shapes[0][1]))
        arms = "".join("%s::%s { %s.. } => (%d, ::std::vec![%s]), " % (ty, v, "".join("%s: x%d, " % (nm, i) for i, (nm, _, _) in enumerate(fs)), k, ", ".join("crate::uni::ar(&*x%d)" % i for i in range(len(fs)))) for k, (v, fs) in enumerate(t.shapes))
        return "match %s { %s _ => (99, ::std::vec![]) }" % (expr, arms)
    mk = ""
    for k, (v, fs) in enumerate(t.shapes):
        s = "let m0 = crate::uni::mark(); "
        for i, (nm, ty, _) in enumerate(fs):
            s += "let x%d = <%s as crate::uni::Mk>::mk()?; let m%d = crate::uni::mark(); " % (i, ty, i + 1)
        mk += "%d => { %s %s::Some((Self%s { %s }, ::std::vec![%s])) } " % (k, s, O, "::" + v if en else "", ", ".join("%s: x%d" % (nm, i) for i, (nm, _, _) in enumerate(fs)), ", ".join("(m%d, m%d)" % (i, i + 1) for i in range(len(fs))))
    pins = "&[%s]" % ", ".join("&[%s]" % ", ".join("true" if p else "false" for _, _, p in fs) for _, fs in t.shapes)
    drops = " || ".join("::core::mem::needs_drop::<%s>()" % ty for _, fs in t.shapes for _, ty, _ in fs if "Self" not in ty)
    rec = any("Self" in ty for _, fs in t.shapes for _, ty, _ in fs)
    pd = "PinnedDrop" in t.args

    def imp(ann):
        has = lambda x: ann and (not en or x in t.args)
        o = "::core::pin::Pin"
        ms = ["const PD: bool = %s; const DROPS: bool = %s; const PINS: &'static [&'static [bool]] = %s;" % ("true" if pd and ann else "false", drops if not rec else "::core::mem::needs_drop::<Self>()", pins),
              "fn zz_mk(v: usize) -> %s<(Self, %s<(u64, u64)>)> { match v { %s _ => %s::None } }" % (O, V, mk, O),
              "fn zz_direct(&self) -> %s { %s }" % (SH, shape("self", "Self", "&")),
              "fn zz_p(self: %s<&mut Self>) -> %s<%s> { %s }" % (o, O, SH, "%s::Some({ %s })" % (O, shape("self.project()", "SP", "&*")) if has("project = SP") else O + "::None"),
              "fn zz_r(self: %s<&Self>) -> %s<%s> { %s }" % (o, O, SH, "%s::Some({ %s })" % (O, shape("self.project_ref()", "SR", "&*")) if has("project_ref = SR") else O + "::None"),
              "fn zz_o(self: %s<&mut Self>, v: Self, mid: &mut dyn ::core::ops::FnMut()) -> bool { %s }" % (o, "let out = self.project_replace(v); mid(); ::core::mem::drop(out); true" if ann and "project_replace = SO" in t.args else "::core::mem::forget(v); false")]
        r = "impl%s crate::uni::Subj for S%s%s { %s } pub fn run() { crate::uni::drive::<%s>(); }" % (g.impl(), g.args(), g.wh(), " ".join(ms), full)
        if pd and ann:
            r += " #[pinned_drop] impl%s PinnedDrop for S%s%s { fn drop(self: ::core::pin::Pin<&mut Self>) { crate::uni::body(&*self as *const Self as *const u8 as usize); } }" % (g.impl(), g.args(), g.wh())
        return r
    return imp(True), imp(False), full


def campaign(c, n, focus=""):
    rng = random.Random("%s/grun/%s" % (c.prop, c.seed))
    items = []
    while len(items) < n:
        a, d, u, pu, t = c15.declaration(rng, dead=float(rng.random() < 0.15))
        if not t.sized or focus == "replace" and "project_replace = SO" not in t.args or focus == "drop" and "PinnedDrop" not in t.args and rng.random() < 0.7:
            continue
        ia, ip, full = subject(rng, t)
        items.append(("run %s as %s: %s %s" % (c.prop, full, a, d), c15.PRE + TYPES + c15.strip(d) + " " + ip, c15.PRE + TYPES + a + " " + d + " " + ia))
    env = {"RUSTC_BOOTSTRAP": "1"}
    feat, rest = HEAD.split("] ", 1)
    extra = " pub const WANT: &str = \"%s\"; %s" % (c.prop, rest)
    ok = c15.twins(c, items, extra=extra, feat=feat + "]", env=env)
    suite.run_suite(c, [suite.Case(x[0], x[2]) for x in ok], per=40, head=feat + "]\n" + c15.CRATE + extra + "\n", kind="instantiated_declaration", env=env)


def layout(c, n):
    """C17, C08: size, alignment, niches, offsets and drop glue of instantiated declarations against the plain text."""
    rng = random.Random("%s/layout/%s" % (c.prop, c.seed))
    items = []
    while len(items) < n:
        a, d, u, pu, t = c15.declaration(rng, dead=float(rng.random() < 0.15))
        pd = "PinnedDrop" in t.args
        if not t.sized or c.prop == "C08" and not any(x in t.args for x in ("!Unpin", "UnsafeUnpin")):
            continue
        ia, ip, full = subject(rng, t)
        imp = " #[pinned_drop] impl%s PinnedDrop for S%s%s { fn drop(self: ::core::pin::Pin<&mut Self>) {} }" % (t.g.impl(), t.g.args(), t.g.wh()) if pd else ""
        ms = ["size_of::<%s>()", "align_of::<%s>()", "size_of::<::core::option::Option<%s>>()", "size_of::<::core::option::Option<::core::option::Option<%s>>>()"] + ([] if pd else ["needs_drop::<%s>() as usize"])
        ms = ["::core::mem::" + m % full for m in ms] + ([] if t.kind == "enum" else ["::core::mem::offset_of!(%s, %s)" % (full, nm) for nm, _, _ in t.shapes[0][1]])
        offs = "pub fn offs() -> ::std::vec::Vec<usize> { ::std::vec![%s] }" % ", ".join(ms)
        q = 'vrt::leq("size, alignment, sizes in one and two Options%s, offsets", offs(), pl::offs()); ' % ("" if pd else ", drop glue")
        plain = c15.strip(d)
        run = " pub fn run() { %s}" % q
        pl = c15.PRE + TYPES + "pub mod pl { use super::*; %s %s }" % (plain, offs)
        items.append(("layout %s as %s: %s %s" % (c.prop, full, a, d), pl + c15.strip(d) + " " + offs, pl + a + " " + d + imp + " " + offs + run))
    env = {"RUSTC_BOOTSTRAP": "1"}
    feat, rest = HEAD.split("] ", 1)
    extra = " pub const WANT: &str = \"%s\"; %s" % (c.prop, rest)
    ok = c15.twins(c, items, extra=extra, feat=feat + "]", env=env)
    suite.run_suite(c, [suite.Case(x[0], x[2]) for x in ok], per=40, head=feat + "]\n" + c15.CRATE + extra + "\n", kind="layout_declaration", env=env)
