"""C20: how long projections borrow; C22: their thread-safety."""
import random
from . import generic, rnd, suite, verdict
from .kinds import K, KINDS

PRE = "use pin_project::{pin_project, pinned_drop}; use ::core::pin::Pin; use ::core::marker::{PhantomPinned, PhantomData}; pub struct F(pub u8, PhantomPinned); pub struct G(pub String); fn mkf() -> F { F(1, PhantomPinned) } fn mkg() -> G { G(String::new()) } fn touch<T: ?Sized>(_: &T) {} fn touchm<T: ?Sized>(_: &mut T) {} fn eat<T>(_: T) {} "


# ------------------------------------------------------------------ random straight-line histories against a loan model

class Hist:
    """Random straight-line client code; `ok` says whether the loans it needs are compatible."""

    def __init__(self, rng, k, owner):
        self.rng, self.k = rng, k
        ops = []
        nv = 0
        vars_ = {}                     # name -> (kind, loan)
        loans = []                     # [mutable, created, last]
        acc = []                       # (time, mutable)
        tm = 0
        n = rng.randrange(3, 11)
        enum = k.kind.startswith("ev")

        def split(expr, ty, a, b):
            return k.split(expr, ty, a, b, mut=True)
        for _ in range(n):
            tm += 1
            r = rng.random()
            if r < 0.2:
                a, b = "a%d" % nv, "b%d" % nv
                nv += 1
                ops.append(split("s.as_mut().project()", "SP", a, b))
                acc.append((tm, True))
                loans.append([True, tm, tm])
                vars_[a] = ("pm", len(loans) - 1)
                vars_[b] = ("m", len(loans) - 1)
            elif r < 0.4:
                a, b = "a%d" % nv, "b%d" % nv
                nv += 1
                ops.append(split("s.as_ref().project_ref()", "SR", a, b))
                acc.append((tm, False))
                loans.append([False, tm, tm])
                vars_[a] = ("pr", len(loans) - 1)
                vars_[b] = ("r", len(loans) - 1)
            elif r < 0.47:
                o = "o%d" % nv
                nv += 1
                ops.append("let %s = s.as_mut().project_replace(%s);" % (o, k.make("mkf()", "mkg()")))
                acc.append((tm, True))
                vars_[o] = ("o", None)
            elif r < 0.55:
                ops.append("let _x: Pin<&S> = s.as_ref();")
                acc.append((tm, False))
            elif r < 0.6:
                ops.append("{ let t: &S = &*s; touch(t); }")
                acc.append((tm, False))
            elif r < 0.65:
                ops.append("s.set(%s);" % k.make("mkf()", "mkg()"))
                acc.append((tm, True))
            elif r < 0.7:
                p = "p%d" % nv
                nv += 1
                ops.append("let mut %s = s.as_mut().project();" % p)
                acc.append((tm, True))
                loans.append([True, tm, tm])
                vars_[p] = ("o", len(loans) - 1)
            elif vars_:
                v = rng.choice(sorted(vars_))
                kd, l = vars_[v]
                if l is not None:
                    loans[l][2] = tm
                if kd in ("r", "pr") and rng.random() < 0.4:
                    w = "c%d" % nv
                    nv += 1
                    ops.append("let mut %s = %s;" % (w, v))
                    vars_[w] = (kd, l)
                elif kd == "pm":
                    ops.append(rng.choice(["touch(&*%s);", "touch(&%s);", "let _: Pin<&mut F> = %s.as_mut();", "%s.set(mkf());"]) % v)
                elif kd == "m":
                    ops.append(rng.choice(["touch(&*%s);", "*%s = mkg();", "touchm(&mut *%s);", "%s.0.clear();"]) % v)
                elif kd == "pr":
                    ops.append(rng.choice(["touch(&*%s);", "touch(&%s.0);"]) % v)
                elif kd == "r":
                    ops.append(rng.choice(["touch(%s);", "touch(&%s.0);"]) % v)
                else:
                    ops.append("touch(&%s);" % v)
        if rng.random() < 0.2 and owner != "arg":
            tm += 1
            ops.append("eat(s);")
            acc.append((tm, True))
            cand = [v for v in vars_]
            if cand and rng.random() < 0.5:
                tm += 1
                v = rng.choice(cand)
                if vars_[v][1] is not None:
                    loans[vars_[v][1]][2] = tm
                ops.append("touch(&%s);" % v)
        self.ok = True
        for t, m in acc:
            for lm, c0, last in loans:
                if c0 < t < last and (m or lm):
                    self.ok = False
        self.body = " ".join(ops)
        init = {"box": "let mut s = ::std::boxed::Box::pin(%s);" % k.make("mkf()", "mkg()"), "arg": "", "local": "let mut s = ::core::pin::pin!(%s);" % k.make("mkf()", "mkg()")}[owner]
        sig = "fn u(mut s: Pin<&mut S>)" if owner == "arg" else "fn u()"
        self.src = PRE + k.decl + " " + sig + " { " + init + " " + self.body + " }"


# ------------------------------------------------------------------ hand-written lifetimes

def programs(kind):
    """(name, accepted?, source) for one kind."""
    k = K(kind, "project_replace = SO", F="F", G="G")
    g = K(kind, "project_replace = SO", gen="<T, U>", F="T", G="U")
    l = K(kind, "project_replace = SO", gen="<'a, T>", F="&'a T", G="&'a mut T")
    sp, spr = k.split("s.project()", "SP"), k.split("s.project_ref()", "SR")
    o = []

    def A(n, body, d=k):
        o.append((n, True, PRE + d.decl + " " + body))

    def R(n, body, d=k):
        o.append((n, False, PRE + d.decl + " " + body))
    A("full lifetime mut", "fn u<'p>(s: Pin<&'p mut S>) -> (Pin<&'p mut F>, &'p mut G) { %s (f, g) }" % sp)
    A("full lifetime ref", "fn u<'p>(s: Pin<&'p S>) -> (Pin<&'p F>, &'p G) { %s (f, g) }" % spr)
    A("full lifetime ref inner", "fn u<'p>(s: Pin<&'p S>) -> (&'p F, &'p G) { %s (f.get_ref(), g) }" % spr)
    A("named projection lifetime", "fn u<'p>(s: Pin<&'p mut S>) -> SP<'p> { s.project() } fn v<'p>(s: Pin<&'p S>) -> SR<'p> { s.project_ref() } fn w(s: Pin<&mut S>) -> SP<'_> { s.project() }")
    A("shorter", "fn u<'q, 'p: 'q>(s: Pin<&'p mut S>) -> SP<'q> { s.project() } fn v<'q, 'p: 'q>(p: SP<'p>) -> SP<'q> { p } fn w<'q, 'p: 'q>(p: SR<'p>) -> SR<'q> { p }")
    R("longer mut", "fn u<'p, 'q>(s: Pin<&'p mut S>) -> SP<'q> { s.project() }")
    R("longer ref", "fn u<'p, 'q>(s: Pin<&'p S>) -> SR<'q> { s.project_ref() }")
    R("static mut", "fn u(s: Pin<&mut S>) -> SP<'static> { s.project() }")
    R("static ref", "fn u(s: Pin<&S>) -> SR<'static> { s.project_ref() }")
    R("extend projection", "fn u<'q, 'p: 'q>(p: SP<'q>) -> SP<'p> { p }")
    R("extend ref projection", "fn u<'q, 'p: 'q>(p: SR<'q>) -> SR<'p> { p }")
    R("pinned field longer", "fn u<'p, 'q>(s: Pin<&'p mut S>) -> Pin<&'q mut F> { %s f }" % sp)
    R("unpinned field longer", "fn u<'p, 'q>(s: Pin<&'p mut S>) -> &'q mut G { %s g }" % sp)
    R("pinned ref field longer", "fn u<'p, 'q>(s: Pin<&'p S>) -> Pin<&'q F> { %s f }" % spr)
    R("unpinned ref field longer", "fn u<'p, 'q>(s: Pin<&'p S>) -> &'q G { %s g }" % spr)
    R("as_mut outlives reborrow", "fn u<'p>(s: &mut Pin<&'p mut S>) -> SP<'p> { s.as_mut().project() }")
    A("as_mut reborrow", "fn u<'x, 'p>(s: &'x mut Pin<&'p mut S>) -> SP<'x> { s.as_mut().project() }")
    R("as_ref outlives reborrow", "fn u<'p>(s: &Pin<&'p mut S>) -> SR<'p> { s.as_ref().project_ref() }")
    A("as_ref of shared pin", "fn u<'p>(s: &Pin<&'p S>) -> SR<'p> { (*s).project_ref() }")
    R("local value", "fn u<'p>() -> SP<'p> { let s = ::core::pin::pin!(%s); s.project() }" % k.make("mkf()", "mkg()"))
    R("local box", "fn u<'p>() -> SR<'p> { let s = ::std::boxed::Box::pin(%s); s.as_ref().project_ref() }" % k.make("mkf()", "mkg()"))
    R("local box field", "fn u<'p>() -> &'p mut G { let mut s = ::std::boxed::Box::pin(%s); %s g }" % (k.make("mkf()", "mkg()"), k.split("s.as_mut().project()", "SP")))
    A("leaked box", "fn u() -> SP<'static> { let s: &'static mut S = ::std::boxed::Box::leak(::std::boxed::Box::new(%s)); let s = unsafe { Pin::new_unchecked(s) }; s.project() }" % k.make("mkf()", "mkg()"))
    R("consumed", "fn u(s: Pin<&mut S>) { let p = s.project(); let q = s.project(); }")
    A("shared not consumed", "fn u(s: Pin<&S>) { let p = s.project_ref(); let q = s.project_ref(); touch(&p); touch(&q); touch(&*s); }")
    R("use twice field", "fn u(s: Pin<&mut S>) { %s let a = g; let b = g; touch(a); }" % sp)
    A("copy shared field", "fn u(s: Pin<&S>) -> (Pin<&F>, Pin<&F>, &G, &G) { %s let (a, b) = (f, g); (a, f, b, g) }" % spr)
    A("simultaneous", "fn u(s: Pin<&mut S>) { let (mut f, g) = { %s (f, g) }; f.as_mut().set(mkf()); g.0.clear(); touch(&*f); touch(g); f.set(mkf()); }" % sp)
    A("loop", "fn u(mut s: Pin<&mut S>) { for _ in 0..3 { %s touch(&f); g.0.clear(); } loop { let p = s.as_mut().project(); touch(&p); break; } s.project(); }" % k.split("s.as_mut().project()", "SP"))
    R("loop keeping", "fn u(mut s: Pin<&mut S>) { let mut v = vec![]; for _ in 0..3 { %s v.push(g); } }" % k.split("s.as_mut().project()", "SP"))
    A("loop keeping shared", "fn u(s: Pin<&mut S>) { let mut v = vec![]; for _ in 0..3 { %s v.push((f, g)); } touch(&v); }" % k.split("s.as_ref().project_ref()", "SR"))
    A("conditional return", "fn u<'p>(mut s: Pin<&'p mut S>, c: bool) -> Option<&'p mut G> { if c { %s return Some(g); } s.as_mut().project(); None }" % sp)
    A("get_mut of unpinned part", "fn u(s: Pin<&mut S>) -> &mut String { %s &mut g.0 }" % sp)
    A("replaced value borrows nothing", "fn u(mut s: Pin<&mut S>) { let o = s.as_mut().project_replace(%s); let p = s.as_mut().project(); touch(&p); touch(&o); s.set(%s); touch(&o); }" % (k.make("mkf()", "mkg()"), k.make("mkf()", "mkg()")))
    A("replaced value outlives", "fn u() -> SO { let mut s = ::std::boxed::Box::pin(%s); let o = s.as_mut().project_replace(%s); drop(s); o } fn v() -> SO { let s = ::core::pin::pin!(%s); s.project_replace(%s) } fn w<X: 'static>(x: X) { } fn x(s: Pin<&mut S>) { w(s.project_replace(%s)) }" % ((k.make("mkf()", "mkg()"),) * 5))
    A("moved out of replaced", "fn u(s: Pin<&mut S>) -> G { %s let _: PhantomData<F> = f; g }" % k.split("s.project_replace(%s)" % k.make("mkf()", "mkg()"), "SO"))
    R("replace while borrowed", "fn u(mut s: Pin<&mut S>) { %s s.as_mut().project_replace(%s); touch(g); }" % (k.split("s.as_mut().project()", "SP"), k.make("mkf()", "mkg()")))
    R("replace while shared", "fn u(mut s: Pin<&mut S>) { %s s.as_mut().project_replace(%s); touch(g); }" % (k.split("s.as_ref().project_ref()", "SR"), k.make("mkf()", "mkg()")))
    R("replace through shared", "fn u(s: Pin<&S>) { s.project_replace(%s); }" % k.make("mkf()", "mkg()"))
    R("project through shared", "fn u(s: Pin<&S>) { s.project(); }")
    R("write through shared", "fn u(s: Pin<&S>) { %s g.0.clear(); }" % spr)
    R("set pinned through shared", "fn u(s: Pin<&S>) { %s f.set(mkf()); }" % spr)
    R("drop owner while borrowed", "fn u(mut s: Pin<::std::boxed::Box<S>>) { %s drop(s); touch(g); }" % k.split("s.as_mut().project()", "SP"))
    A("drop owner afterwards", "fn u(mut s: Pin<::std::boxed::Box<S>>) { let p = s.as_mut().project(); drop(s); }")
    R("move owner while shared", "fn u(s: Pin<::std::boxed::Box<S>>) { %s let t = s; touch(g); }" % k.split("s.as_ref().project_ref()", "SR"))
    A("closures", "fn u(s: Pin<&mut S>) { %s let mut a = || { f.as_mut().set(mkf()) }; let mut b = || g.0.clear(); a(); b(); a(); }" % k.split("s.project()", "SP", mut=True))
    A("scoped threads", "fn u(s: Pin<&mut S>) { %s ::std::thread::scope(|t| { t.spawn(move || touch(&*f)); t.spawn(move || g.0.clear()); }); }" % sp)
    R("thread 'static", "fn u(s: Pin<&mut S>) { %s ::std::thread::spawn(move || g.0.clear()); }" % sp)
    # variance
    A("shared covariant", "fn u<'p, 'a>(x: SR<'p, &'static u8, &'static u8>) -> SR<'p, &'a u8, &'a u8> { x }", g)
    R("mut invariant pinned", "fn u<'p, 'a>(x: SP<'p, &'static u8, ()>) -> SP<'p, &'a u8, ()> { x }", g)
    R("mut invariant unpinned", "fn u<'p, 'a>(x: SP<'p, (), &'static u8>) -> SP<'p, (), &'a u8> { x }", g)
    R("mut invariant pinned longer", "fn u<'p, 'a>(x: SP<'p, &'a u8, ()>) -> SP<'p, &'static u8, ()> { x }", g)
    R("shared not longer", "fn u<'p, 'a>(x: SR<'p, &'a u8, ()>) -> SR<'p, &'static u8, ()> { x }", g)
    A("owned covariant", "fn u<'a>(x: SO<&'static u8, &'static u8>) -> SO<&'a u8, &'a u8> { x }", g)
    R("owned not longer", "fn u<'a>(x: SO<(), &'a u8>) -> SO<(), &'static u8> { x }", g)
    R("shorten through mut", "fn u<'a>(s: Pin<&mut S<u8, &'static u8>>, x: &'a u8) { %s *g = x; }" % g.split("s.project()", "SP"), g)
    A("write same lifetime", "fn u<'a>(s: Pin<&mut S<u8, &'a u8>>, x: &'a u8) { %s *g = x; }" % g.split("s.project()", "SP"), g)
    R("shorten pinned through mut", "fn u<'a>(s: Pin<&mut S<&'static u8, u8>>, x: &'a u8) { %s *f.get_mut() = x; }" % g.split("s.project()", "SP"), g)
    # inner lifetimes
    A("copy inner reference out", "fn u<'p, 'a, T>(s: Pin<&'p mut S<'a, T>>) -> &'a T { %s *f }" % l.split("s.project()", "SP"), l)
    A("copy inner reference out of shared", "fn u<'p, 'a, T>(s: Pin<&'p S<'a, T>>) -> &'a T { %s *f }" % l.split("s.project_ref()", "SR"), l)
    R("inner reference itself", "fn u<'p, 'a, T>(s: Pin<&'p mut S<'a, T>>) -> &'a &'a T { %s &*f.get_mut() }" % l.split("s.project()", "SP"), l)
    R("inner mutable reference out", "fn u<'p, 'a, T>(s: Pin<&'p mut S<'a, T>>) -> &'a mut T { %s &mut **g }" % l.split("s.project()", "SP"), l)
    A("inner mutable reborrow", "fn u<'p, 'a, T>(s: Pin<&'p mut S<'a, T>>) -> &'p mut T { %s &mut **g }" % l.split("s.project()", "SP"), l)
    R("inner mutable through shared", "fn u<'p, 'a, T>(s: Pin<&'p S<'a, T>>) -> &'p mut T { %s &mut **g }" % l.split("s.project_ref()", "SR"), l)
    A("inner mutable moved by replace", "fn u<'p, 'a, T>(s: Pin<&'p mut S<'a, T>>, n: S<'a, T>) -> &'a mut T { %s g }" % l.split("s.project_replace(n)", "SO"), l)
    A("borrow inner of value", "fn u() { let x = 1u8; let mut y = 2u8; { let mut s = ::std::boxed::Box::pin(%s); let p = s.as_mut().project(); touch(&p); } y += 1; let _ = x; }" % l.make("&x", "&mut y"), l)
    R("use borrowed while value lives", "fn u() { let x = 1u8; let mut y = 2u8; let mut s = ::std::boxed::Box::pin(%s); y += 1; touch(&s.as_mut().project()); }" % l.make("&x", "&mut y"), l)
    # futures
    A("poll", "impl<T: ::core::future::Future, U: Unpin + FnMut()> ::core::future::Future for S<T, U> { type Output = T::Output; fn poll(mut self: Pin<&mut Self>, cx: &mut ::core::task::Context<'_>) -> ::core::task::Poll<T::Output> { loop { %s (g)(); match f.poll(cx) { ::core::task::Poll::Pending => { s_done(); return ::core::task::Poll::Pending }, r => return r } } } } fn s_done() {}" % g.split("self.as_mut().project()", "SP"), g)
    A("async block", "async fn u(mut s: Pin<&mut S>) { async fn n() {} { %s n().await; g.0.clear(); touch(&*f); } n().await; s.project(); }" % k.split("s.as_mut().project()", "SP"))
    if kind == "named":
        A("field access", "fn u(s: Pin<&mut S>) -> (Pin<&mut F>, &mut G) { let p = s.project(); (p.f, p.g) }")
        A("field access temporaries", "fn u<'p>(mut s: Pin<&'p mut S>) { s.as_mut().project().g.0.clear(); s.as_mut().project().f.set(mkf()); touch(&*s.as_ref().project_ref().f); let g: &mut G = s.project().g; g.0.clear(); }")
        R("field after move", "fn u(s: Pin<&mut S>) { let p = s.project(); let a = p.g; touch(a); let b = p.g; }")
        A("field refs mutable vars", "fn u(s: Pin<&mut S>) { let mut p = s.project(); p.f.as_mut().set(mkf()); *p.g = mkg(); p.f.set(mkf()); touch(p.g); }")
    return o


def c20(c):
    rng = random.Random("C20/%s" % c.seed)
    acc, rej = [], []
    for kind in KINDS:
        for n, ok, src in programs(kind):
            (acc if ok else rej).append((("%s/%s" % (kind, n)), src) if ok else ("%s/%s" % (kind, n), src, "a borrow outlives or conflicts"))
    n = c.pick(1500, 20000)
    na = nr = 0
    for i in range(n):
        kind = rng.choice(KINDS)
        k = K(kind, "project_replace = SO", F="F", G="G")
        h = Hist(rng, k, rng.choice(["box", "arg", "local"]))
        nm = "history/%s/%s" % (kind, h.src[len(PRE) + len(k.decl):])
        if h.ok:
            acc.append((nm, h.src))
            na += 1
        else:
            rej.append((nm, h.src, "conflicting accesses while a projection is live"))
            nr += 1
    c.cov["histories"] = {"compatible": na, "conflicting": nr}
    verdict.accept_batch(c, acc, per=40)
    verdict.reject_batch(c, rej, per=60, head="#![allow(warnings)]\n")
    rnd.c20(c, c.pick(400, 4000))
    generic.attacks(c, c.pick(1500, 15000), "C20")
    c.rule = "client programs over the three projections of four declaration kinds: hand-written lifetime and variance programs with their accepted counterparts, and random straight-line histories of projections, uses, copies, replacements and drops whose compatibility a loan model predicts, and lifetime programs over random declarations; distinct by program"


# ------------------------------------------------------------------ C22

# type, expression is not needed: probes only
TYPES = ["u8", "::core::cell::Cell<u8>", "::std::rc::Rc<u8>", "::std::sync::MutexGuard<'static, u8>", "*const u8", "PhantomPinned", "&'static ::core::cell::Cell<u8>", "&'static mut ::core::cell::Cell<u8>", "::std::sync::Arc<::core::cell::Cell<u8>>",
         "::std::sync::Mutex<::core::cell::Cell<u8>>", "PhantomData<*mut u8>", "PhantomData<::core::cell::Cell<u8>>", "dyn_s", "dyn_", "fn(::std::rc::Rc<u8>)", "::core::option::Option<::std::rc::Rc<()>>", "(::core::cell::Cell<u8>, PhantomPinned)",
         "Pin<::std::boxed::Box<::std::rc::Rc<u8>>>", "::std::sync::mpsc::Receiver<u8>", "SyncNotSend", "SendNotSync", "String", "[::core::cell::UnsafeCell<u8>; 2]"]
ALIAS = {"dyn_s": "::std::boxed::Box<dyn Fn() + Send>", "dyn_": "::std::boxed::Box<dyn Fn()>"}
PRE22 = ("use pin_project::{pin_project, pinned_drop, UnsafeUnpin}; use ::core::pin::Pin; use ::core::marker::{PhantomPinned, PhantomData};\n"
         "pub struct SyncNotSend(*const u8); unsafe impl Sync for SyncNotSend {} pub struct SendNotSync(*const u8); unsafe impl Send for SendNotSync {}\n"
         "pub struct Pr<T>(PhantomData<T>); impl<T> Clone for Pr<T> { fn clone(&self) -> Self { Pr(PhantomData) } } impl<T> Copy for Pr<T> {} fn of<A, B>(_: fn(A) -> B) -> Pr<B> { Pr(PhantomData) } fn of2<A, A2, B>(_: fn(A, A2) -> B) -> Pr<B> { Pr(PhantomData) }\n"
         "trait NoS { fn send(&self) -> bool { false } } impl<T> NoS for &Pr<T> {} trait YesS { fn send(&self) -> bool { true } } impl<T: Send> YesS for Pr<T> {}\n"
         "trait NoY { fn sync(&self) -> bool { false } } impl<T> NoY for &Pr<T> {} trait YesY { fn sync(&self) -> bool { true } } impl<T: Sync> YesY for Pr<T> {}\n")


def decl22(rng):
    kind = rng.choice(["named", "tuple", "enum"])
    gen = rng.random() < 0.5
    arg = rng.choice(TYPES)
    arg = ALIAS.get(arg, arg)
    vs = []
    for i in range(rng.choice([1, 2, 3]) if kind == "enum" else 1):
        st = kind if kind != "enum" else rng.choice(["named", "tuple"])
        fs = []
        for j in range(rng.choice([1, 1, 2, 3])):
            t = rng.choice(TYPES) if rng.random() < 0.5 else "u8"
            t = ALIAS.get(t, t)
            inst = t
            if gen and (rng.random() < 0.4 or (i == 0 and j == 0)):
                w = rng.choice(["T", "T", "(T, u8)", "::core::option::Option<T>", "PhantomData<T>", "::std::boxed::Box<T>"])
                t, inst = w, w.replace("T>", arg + ">").replace("(T,", "(%s," % arg) if w != "T" else arg
            fs.append(("f%d" % j, t, inst, rng.random() < 0.5))
        vs.append(("V%d" % i, st, fs))
    extra = rng.choice(["", "", ", !Unpin", ", UnsafeUnpin"])
    pd = rng.random() < 0.2
    named = rng.random() < 0.5 or kind == "enum"
    a = "project = SP, project_ref = SR" + ("" if pd else ", project_replace = SO") if named else ("project_replace" if not pd else "")
    if pd:
        extra += ", PinnedDrop"
    a = (a + extra).lstrip(", ")
    body = []
    for n, st, fs in vs:
        fl = ", ".join("%s%s%s" % ("#[pin] " if p else "", f + ": " if st == "named" else "", t) for f, t, _, p in fs)
        body.append(n + (" { %s }" if st == "named" else "(%s)") % fl)
    g = "<T>" if gen else ""
    d = "#[pin_project%s] pub " % ("(%s)" % a if a else "")
    if kind == "enum":
        d += "enum S%s { %s }" % (g, ", ".join(body))
    else:
        d += "struct S%s %s%s" % (g, body[0][2:], ";" if kind == "tuple" else "")
    if pd:
        d += " #[pinned_drop] impl%s PinnedDrop for S%s { fn drop(self: Pin<&mut Self>) {} }" % (g, g)
    I = "S<%s>" % arg if gen else "S"
    fl = [f for v in vs for f in v[2]]

    def tup(f):
        return "(%s,)" % ", ".join(f(x) for x in fl)
    refs = {
        "value": tup(lambda x: x[2]),
        "project": tup(lambda x: ("Pin<&'static mut %s>" if x[3] else "&'static mut %s") % x[2].replace("dyn Fn()", "(dyn Fn())") if False else ("Pin<&'static mut %s>" if x[3] else "&'static mut %s") % x[2]),
        "project_ref": tup(lambda x: ("Pin<&'static %s>" if x[3] else "&'static %s") % x[2]),
        "replace": tup(lambda x: "PhantomData<%s>" % x[2] if x[3] else x[2]),
    }
    s = PRE22 + d + "\ntype I = %s;\n" % I
    b = ""
    probes = [("value", "Pr::<I>(PhantomData)"), ("project", "of::<Pin<&'static mut I>, _>(I::project)"), ("project_ref", "of::<Pin<&'static I>, _>(I::project_ref)")]
    if not pd:
        probes.append(("replace", "of2::<Pin<&'static mut I>, I, _>(I::project_replace)"))
    for n, e in probes:
        b += "    { let p = %s; vrt::leq(\"%s Send\", (&p).send(), vrt::is!(%s: ::core::marker::Send)); vrt::leq(\"%s Sync\", (&p).sync(), vrt::is!(%s: ::core::marker::Sync)); }\n" % (e, n, refs[n], n, refs[n])
    # the containers themselves
    b += "    vrt::leq(\"pinned reference Send\", vrt::is!(Pin<&'static mut I>: Send), vrt::is!(Pin<&'static mut %s>: Send)); vrt::leq(\"shared pinned reference Send\", vrt::is!(Pin<&'static I>: Send), vrt::is!(&'static %s: Send));\n" % (refs["value"], refs["value"])
    return d + " // " + I, s + "pub fn run() {\n" + b + "}\n"


def generic22(kind):
    """What generic code may rely on."""
    o = []
    g = K(kind, "project_replace = SO", gen="<T, U>", F="T", G="U")
    ref = {"SP<'static, T, U>": ("Pin<&'static mut T>", "&'static mut U"), "SR<'static, T, U>": ("Pin<&'static T>", "&'static U"), "SO<T, U>": ("PhantomData<T>", "U"), "S<T, U>": ("T", "U")}
    for ty, (a, b) in ref.items():
        for q in ("Send", "Sync"):
            for bt in ("", "Send", "Sync", "Send + Sync"):
                for bu in ("", "Send", "Sync", "Send + Sync"):
                    need = {("SP", "Send"): "Send", ("SP", "Sync"): "Sync", ("SR", "Send"): "Sync", ("SR", "Sync"): "Sync", ("SO", "Send"): "Send", ("SO", "Sync"): "Sync", ("S<", "Send"): "Send", ("S<", "Sync"): "Sync"}[(ty[:2], q)]
                    ok = need in bt and need in bu
                    src = PRE22.split("\n")[0] + " " + g.decl + " fn q<X: %s>() {} fn u<T: 'static%s, U: 'static%s>() { q::<%s>() }" % (q, " + " + bt if bt else "", " + " + bu if bu else "", ty)
                    o.append(("%s/%s/%s/T:%s/U:%s" % (kind, ty, q, bt, bu), ok, src))
    return o


def c22(c):
    rng = random.Random("C22/%s" % c.seed)
    cs = []
    # every single field type, pinned and not, every kind
    for i in range(c.pick(900, 10000)):
        k, s = decl22(rng)
        cs.append(suite.Case("random/%d" % i, s, key=k))
    suite.run_suite(c, cs, per=25)
    acc, rej = [], []
    for kind in KINDS:
        for n, ok, src in generic22(kind):
            if ok:
                acc.append((n, src))
            else:
                rej.append((n, src, "thread-safety that the fields do not provide"))
    verdict.accept_batch(c, acc, per=64)
    verdict.reject_batch(c, rej, per=64, head="#![allow(warnings)]\n")
    generic.family(c, c.pick(4000, 30000), "C22")
    c.rule = "random declarations over field types of every thread-safety class: Send and Sync of the type and of the results of all projections (named or not) compared with a tuple of the plain references or markers; generic code under every bound combination by verdict; distinct by declaration"
