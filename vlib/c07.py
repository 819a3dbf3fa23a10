"""C07/C08: who is Unpin. Concrete probes at run time, bounds in generic code by verdict."""
import random
import re
from . import c15, frag, generic, grun, suite, verdict

PRE = r"""
use pin_project::{pin_project, pinned_drop, UnsafeUnpin};
use ::core::pin::Pin;
use ::core::marker::{PhantomData, PhantomPinned};
pub struct Pn(u8, PhantomPinned); pub struct Un(u8);
pub trait Tr { type A; type B; }
impl Tr for u8 { type A = u8; type B = Pn; }
impl Tr for u16 { type A = Pn; type B = String; }
impl Tr for Pn { type A = String; type B = u8; }
impl Tr for String { type A = PhantomPinned; type B = PhantomPinned; }
impl<X> Tr for [X; 2] { type A = X; type B = [X; 1]; }
pub trait Mk {} impl Mk for u8 {} impl Mk for Pn {}
pub struct Cond<T>(PhantomPinned, PhantomData<T>); impl<T: Mk> Unpin for Cond<T> {}
pub struct Never<T: ?Sized>(PhantomPinned, PhantomData<T>);
pub struct Always<T: ?Sized>(PhantomPinned, PhantomData<T>); impl<T: ?Sized> Unpin for Always<T> {}
pub struct Lf<'a>(&'a u8, PhantomPinned); impl<'a> Unpin for Lf<'a> {}
pub struct Cn<const N: usize>(PhantomPinned); impl Unpin for Cn<1> {} impl Unpin for Cn<2> {}
#[pin_project] pub struct In<T> { #[pin] t: T, u: Pn }
#[pin_project(!Unpin)] pub struct InNot<T>(T);
#[pin_project(UnsafeUnpin)] pub struct InUn<T>(#[pin] T); unsafe impl<T: Mk> UnsafeUnpin for InUn<T> {}
#[pin_project(project = InEP)] pub enum InE<T, U> { A(#[pin] T), B { u: U }, C }
#[pin_project] pub struct Us<T: ?Sized> { #[pin] a: u8, b: Pn, #[pin] t: T }
pub type Al<T> = (T, u8);
pub type Id<T: ?Sized> = T;
pub trait Same { type T: ?Sized; } impl<X: ?Sized> Same for X { type T = X; }
macro_rules! ty { ($($t:tt)*) => { $($t)* }; }
macro_rules! tyf { ($t:ty) => { $t }; }
// what a field is must not be guessed from its name
macro_rules! spell { ($($n:ident)*) => {
    #[allow(non_camel_case_types)] pub mod un { $(pub type $n = super::Un;)* }
    #[allow(non_camel_case_types)] pub mod pn { $(pub type $n = super::Pn;)* }
    #[allow(non_camel_case_types)] pub mod wr { $(pub type $n<T> = (T, super::Always<T>);)* }
    #[allow(non_camel_case_types)] pub mod bx { $(pub type $n<T> = ::std::boxed::Box<T>;)* }
} }
spell!(PhantomPinned PhantomData ManuallyDrop MaybeUninit Box Rc Arc Pin Option Vec String str u8 i32 usize bool char Cell RefCell
    UnsafeCell Unpin Drop Copy Sized Future Mutex Wrapper AlwaysUnpin Result NonNull Never Ref RefMut Cow Ptr T U Pn Projection In);
"""
SPELL = re.search(r"spell!\((.*?)\);", PRE, re.S).group(1).split()
# P = type parameter, N = const parameter, 'l = lifetime
ATOM = ["u8", "Pn", "PhantomPinned", "String", "Box<Pn>", "&'static Pn", "Pin<Box<Pn>>", "*const Pn", "fn(Pn) -> Pn",
        "Never<u8>", "Always<Pn>", "Cond<u8>", "Cond<u16>", "Cn<1>", "Cn<3>", "()", "::std::cell::Cell<u8>", "::std::cell::UnsafeCell<u8>",
        "::std::rc::Rc<Pn>", "dyn_placeholder"]
PAR = ["P", "(P, u8)", "[P; 2]", "Option<P>", "Box<P>", "&'static P", "&'static mut P", "*mut P", "PhantomData<P>", "fn(P) -> u8", "Vec<P>",
       "Never<P>", "Always<P>", "Cond<P>", "<P as Tr>::A", "<P as Tr>::B", "In<P>", "InNot<P>", "InUn<P>", "InE<P, Pn>", "InE<u8, P>",
       "InE<Pn, P>", "Al<P>", "::core::mem::ManuallyDrop<P>", "::std::cell::UnsafeCell<P>", "Pin<Box<P>>", "Pin<&'static mut P>", "(P::A, Option<P::B>)",
       "Result<P, Pn>", "[Pn; 0]", "[P; 0]", "::std::sync::Arc<P>", "(u8, (P,))", "PhantomData<(P, Pn)>", "In<In<P>>", "Box<dyn Fn(P) -> P>"]
INST = ["u8", "u16", "Pn", "String", "[u8; 2]", "[Pn; 2]"]


HEADS = ["Option<%s>", "[%s; 2]", "Cond<%s>", "In<%s>", "Vec<%s>", "(%s, u8)", "PhantomData<%s>", "Al<%s>", "InUn<%s>", "Never<%s>", "Always<%s>",
         "::core::mem::ManuallyDrop<%s>", "Result<%s, u8>", "<%s as Tr>::A", "<%s as Tr>::B", "(((%s,),),)"]


def respell(rng, ty):
    return rng.choice(["(%s)", "<%s as Same>::T", "ty!(%s)", "Id<%s>", "tyf![%s]", "((%s))", "<Id<%s> as Same>::T"]) % ty


def draw(rng, tps, cps, lts, fav=None):
    if rng.random() < 0.15:
        n = rng.choice(SPELL)
        r = rng.randrange(6)
        t = rng.choice(tps + ["Pn", "u8"])
        return "un::" + n if r < 2 else "pn::" + n if r < 4 else "%s::%s<%s>" % (["wr", "bx"][r - 4], n, t)
    if fav and rng.random() < 0.4:
        # several fields that differ in one argument only
        return fav % rng.choice(tps + tps + ["Pn", "u8", "u16"] if "Tr>" not in fav else tps + ["u8", "u16", "Pn"])
    ty = draw1(rng, tps, cps, lts)
    return respell(rng, ty) if rng.random() < 0.12 else ty


def draw1(rng, tps, cps, lts):
    r = rng.random()
    if tps and r < 0.7:
        t = rng.choice(PAR)
        return re.sub(r"\bP\b", rng.choice(tps), t)
    if cps and r < 0.8:
        return rng.choice(["Cn<N>", "[Pn; N]", "[u8; N]", "Option<Cn<N>>"])
    if lts and r < 0.9:
        return rng.choice(["&%s Pn", "&%s mut Pn", "Lf<%s>", "Cond<&%s u8>", "In<&%s Pn>", "::std::borrow::Cow<%s, str>", "PhantomData<&%s Pn>"]) % rng.choice(lts)
    a = rng.choice(ATOM)
    return "Box<dyn Fn()>" if a == "dyn_placeholder" else a


def subst(ty, tps, inst, cps, cinst, lts):
    ty = re.sub(r"(?<![:\w])([TUV])::([AB])\b", r"<\1 as Tr>::\2", ty)
    for t, i in zip(tps, inst):
        ty = re.sub(r"(?<!::)\b%s\b" % t, i, ty)
    for k, i in zip(cps, cinst):
        ty = re.sub(r"\b%s\b" % k, i, ty)
    for l in lts:
        ty = re.sub(re.escape(l) + r"\b", "'static", ty)
    return ty


def declaration(rng, args, mode):
    tps = rng.choice([[], ["T"], ["T"], ["T", "U"], ["T", "U", "V"]])
    cps = ["N"] if rng.random() < 0.25 else []
    lts = rng.choice([[], [], ["'a"], ["'a", "'b"], ["'pin"]])
    kind = rng.choice(["named", "tuple", "enum", "enum"])
    nf = rng.choice([1, 2, 2, 3, 3, 4, 5, 7, 13])
    fav = rng.choice(HEADS) if rng.random() < 0.5 else None
    pp = rng.choice([0.3, 0.55, 0.55, 0.9, 1.0])
    variants = []
    for v in range(1 if kind != "enum" else rng.choice([1, 2, 3, 3, 4, 7])):
        fs = []
        for i in range(nf if kind != "enum" else rng.choice([0, 1, 2, 3])):
            pinned = rng.random() < pp
            ty = draw(rng, tps, cps, lts, fav)
            cfg = None
            r = rng.random()
            if r < 0.12:
                cfg = "off"
                ty = rng.choice(["Pn", "Nonexistent<T>", "PhantomPinned"])
            elif r < 0.2:
                cfg = "on"
            pinform = "#[pin]"
            if pinned and rng.random() < 0.12:
                pinform = rng.choice(["#[cfg_attr(all(), pin)]", "#[cfg_attr(all(), pin)]", "#[r#pin]", "#[cfg_attr(all(), r#pin)]"])
            if not pinned and rng.random() < 0.12:
                pinform, offpin = "#[cfg_attr(any(), pin)]", True
            else:
                offpin = False
            fs.append((ty, pinned, cfg, pinform, offpin))
        style = {"named": "named", "tuple": "tuple"}.get(kind) or rng.choice(["named", "tuple"])
        variants.append((style, fs))
    if not any(f[2] != "off" for _, fs in variants for f in fs):
        variants[0][1].append((draw(rng, tps, cps, lts), True, None, "#[pin]", False))
    live = " ".join(f[0] for _, fs in variants for f in fs if f[2] != "off")
    ph = []
    for t in tps:
        ph.append("PhantomData<%s>" % t)
    for l in lts:
        ph.append("&%s ()" % l)
    variants[-1][1].append(("(%s)" % "".join(p + ", " for p in ph) if ph else "u8", False, None, "", False))

    unsized = kind != "enum" and rng.random() < 0.12
    if unsized:
        t = rng.choice(tps + ["Pn", "u8"])
        ty = rng.choice(["dyn ::core::fmt::Debug", "dyn ::core::fmt::Debug + Send", "dyn ::core::any::Any", "dyn ::core::fmt::Debug + Unpin", "dyn Send + Unpin + Sync", "[%s]" % t, "[%s]" % t, "str", "[(%s, u8)]" % t, "[Cond<%s>]" % t,
                         "dyn Fn(%s) -> u8" % t, "dyn FnMut() + 'static", "(dyn ::core::fmt::Debug + Send)", "dyn for<'x> Fn(&'x u8) -> &'x u8 + Unpin", "Us<[%s]>" % t, "Us<dyn ::core::fmt::Debug>", "Id<[%s]>" % t, "ty!([%s])" % t, "<[%s] as Same>::T" % t,
                         "::core::mem::ManuallyDrop<[%s]>" % t, "::std::cell::UnsafeCell<[%s]>" % t])
        variants[-1][1].append((ty, rng.random() < 0.8, None, rng.choice(["#[pin]", "#[pin]", "#[cfg_attr(all(), pin)]", "#[r#pin]"]), False))

    def fld(i, style, f):
        ty, pinned, cfg, pf, offpin = f
        ps = [{"off": "#[cfg(any())] ", "on": "#[cfg(all())] ", None: ""}[cfg], pf + " " if pinned or offpin else ""]
        if rng.random() < 0.15:
            ps.append(rng.choice(["#[doc = \"x\"] ", "#[allow(unused)] ", "#[doc(hidden)] ", "#[rustfmt::skip] ", "#[cfg_attr(any(), pin)] ", "#[deprecated] "]))
        rng.shuffle(ps)
        s = "".join(ps)
        ty = frag.mark("ty", ty)
        return s + ("%s: %s" % (frag.mark("ident", "f%d" % i), ty) if style == "named" else ty)
    gen = ", ".join(lts + ["%s: Tr + 'static" % t for t in tps] + ["const %s: usize" % k for k in cps])
    gen = "<%s>" % gen if gen else ""
    args = args + [x for x in ("project = SP", "project_ref = SR") if rng.random() < 0.4]
    if "PinnedDrop" not in args and not unsized and rng.random() < 0.3:
        args.append("project_replace = SO" if kind == "enum" or rng.random() < 0.6 else "project_replace")
    if kind == "enum" and not any(x.startswith("project") for x in args):
        args.append("project = SP")
    rng.shuffle(args)
    a = ", ".join(args)
    attr = "#[pin_project(%s)]" % a if a else "#[pin_project]"
    bodies = []
    for style, fs in variants:
        b = ", ".join(fld(i, style, f) for i, f in enumerate(fs))
        bodies.append("{ %s }" % b if style == "named" else "(%s)" % b)
    if kind == "named":
        src = "%s pub struct S%s %s" % (attr, gen, bodies[0])
    elif kind == "tuple":
        src = "%s pub struct S%s%s;" % (attr, gen, bodies[0])
    else:
        vs = ["V%d %s" % (i, b) for i, b in enumerate(bodies)]
        if rng.random() < 0.3:
            vs.append("Unit")
        if rng.random() < 0.2:
            vs.append("#[cfg(any())] Gone(#[pin] Pn)")
        rng.shuffle(vs)
        src = "%s pub enum S%s { %s }" % (attr, gen, ", ".join(vs))
    pinned = [f[0] for _, fs in variants for f in fs if f[1] and f[2] != "off"]
    src = frag.deliver(rng, src) if rng.random() < 0.25 else frag.strip(src)
    return src, pinned, tps, cps, lts, kind


def sname(tps, inst, cps, cinst, lts):
    a = ["'static"] * len(lts) + list(inst) + list(cinst)
    return "S<%s>" % ", ".join(a) if a else "S"


def insts(rng, tps, cps, n):
    seen = []
    for _ in range(n):
        x = (tuple(rng.choice(INST) for _ in tps), tuple(rng.choice(["0", "1", "3"]) for _ in cps))
        if x not in seen:
            seen.append(x)
    return seen


def c07_cases(c):
    rng = random.Random("C07/%s" % c.seed)
    out = []
    for i in range(c.pick(2400, 16000)):
        args = ["PinnedDrop"] if rng.random() < 0.25 else []
        src, pinned, tps, cps, lts, kind = declaration(rng, args, "default")
        body = ""
        for inst, cin in insts(rng, tps, cps, 6):
            want = " && ".join(["true"] + ["vrt::is!(%s: Unpin)" % subst(t, tps, inst, cps, cin, lts) for t in pinned])
            body += "    vrt::eq(vrt::is!(%s: Unpin), %s);\n" % (sname(tps, inst, cps, cin, lts), want)
        pd = ""
        if args:
            g = ", ".join(lts + ["%s: Tr + 'static" % t for t in tps] + ["const N: usize" for _ in cps])
            ta = ", ".join(lts + tps + cps)
            pd = "#[pinned_drop] impl%s PinnedDrop for S%s { fn drop(self: Pin<&mut Self>) {} }\n" % ("<%s>" % g if g else "", "<%s>" % ta if ta else "")
        s = PRE + src + "\n" + pd + "pub fn run() {\n" + body + "}\n"
        out.append(suite.Case("probe/%d" % i, s, key=src, nontrivial=bool(pinned)))
    # unsized, recursive, shadowing names
    hand = [
        ("unsized", "#[pin_project] pub struct S<T: ?Sized> { a: Pn, #[pin] t: T }",
         [("S<[u8]>", "true"), ("S<[Pn]>", "false"), ("S<str>", "true"), ("S<dyn ::core::fmt::Debug>", "false"), ("S<dyn ::core::fmt::Debug + Unpin>", "true"), ("S<S<[Pn]>>", "false"), ("S<S<[u8]>>", "true")]),
        ("unsized-unpinned", "#[pin_project] pub struct S<T: ?Sized> { #[pin] a: u8, t: T }",
         [("S<[Pn]>", "true"), ("S<dyn ::core::fmt::Debug>", "true")]),
        ("unsized-tuple-life", "#[pin_project] pub struct S<'a, T: ?Sized>(&'a u8, #[pin] T);",
         [("S<'static, [Pn]>", "false"), ("S<'static, [u8]>", "true")]),
        ("recursive-box", "#[pin_project] pub struct S<T> { #[pin] t: T, #[pin] next: Option<Box<S<T>>> }", [("S<u8>", "true"), ("S<Pn>", "false")]),
        ("recursive-plain", "#[pin_project] pub struct S<T> { #[pin] t: T, next: Option<::std::rc::Rc<S<T>>> }", [("S<u8>", "true"), ("S<Pn>", "false")]),
        ("shadow-param", "pub struct T(PhantomPinned); #[pin_project] pub struct S<U> { #[pin] t: T, u: U } #[pin_project] pub struct S2<T> { #[pin] t: T } #[pin_project] pub struct S3<T> { t: T, #[pin] p: PhantomData<u8> }",
         [("S<u8>", "false"), ("S2<u8>", "true"), ("S2<T>", "false"), ("S3<T>", "true")]),
        ("only-unpinned", "#[pin_project] pub struct S<T, U>(T, U);", [("S<Pn, Pn>", "true"), ("S<u8, Pn>", "true")]),
        ("hrtb", "#[pin_project] pub struct S<F> where F: for<'x> Fn(&'x u8) -> &'x u8 { #[pin] f: F, #[pin] g: for<'y> fn(&'y Pn) -> &'y Pn }", [("S<fn(&u8) -> &u8>", "true")]),
        ("default-param", "#[pin_project] pub struct S<T = Pn, U = u8> { #[pin] t: T, u: U }", [("S", "false"), ("S<u8>", "true"), ("S<u8, Pn>", "true"), ("S<Pn, u8>", "false")]),
        ("two-enums", "#[pin_project(project = P1)] pub enum S<T, U> { A(#[pin] T), B(#[pin] U), C(T, U) }", [("S<u8, u8>", "true"), ("S<Pn, u8>", "false"), ("S<u8, Pn>", "false")]),
        ("self-ty", "#[pin_project] pub struct S<T> where Self: Sized { #[pin] t: T, b: Option<Box<Self>> }", [("S<u8>", "true"), ("S<Pn>", "false")]),
        ("self-assoc", "#[pin_project] pub struct S<T: Tr> { #[pin] t: <Self as Tr>::A, q: PhantomData<T> } impl<T: Tr> Tr for S<T> { type A = T::A; type B = T::B; }", [("S<u8>", "true"), ("S<u16>", "false")]),
        ("many", "#[pin_project] pub struct S<T>(#[pin] u8, #[pin] u8, #[pin] u8, #[pin] u8, #[pin] u8, #[pin] u8, #[pin] u8, #[pin] u8, #[pin] u8, #[pin] u8, #[pin] u8, #[pin] T);", [("S<u8>", "true"), ("S<Pn>", "false")]),
        ("first-of-many", "#[pin_project] pub struct S<T>(#[pin] T, #[pin] u8, #[pin] u8);", [("S<u8>", "true"), ("S<Pn>", "false")]),
        ("last-variant", "#[pin_project(project = P1)] pub enum S<T> { A, B(u8), C { x: u8, #[pin] t: T } }", [("S<u8>", "true"), ("S<Pn>", "false")]),
        ("first-variant", "#[pin_project(project_ref = P1)] pub enum S<T> { C { #[pin] t: T, x: u8 }, B(u8), A }", [("S<u8>", "true"), ("S<Pn>", "false")]),
        ("replace-only", "#[pin_project(project_replace = P1)] pub enum S<T> { C { #[pin] t: T, x: u8 }, B(u8), A }", [("S<u8>", "true"), ("S<Pn>", "false")]),
        ("nested", "#[pin_project] pub struct Q<T> { #[pin] t: T } #[pin_project] pub struct S<T> { #[pin] q: Q<Q<T>>, z: Pn }", [("S<u8>", "true"), ("S<Pn>", "false")]),
        ("mutual", "#[pin_project] pub struct Q<T> { #[pin] t: T, #[pin] s: Vec<S<T>> } #[pin_project] pub struct S<T> { #[pin] q: Option<Box<Q<T>>>, #[pin] z: T }", [("S<u8>", "true"), ("S<Pn>", "false"), ("Q<u8>", "true"), ("Q<Pn>", "false")]),
    ]
    for name, decl, probes in hand:
        body = "".join("    vrt::eq(vrt::is!(%s: Unpin), %s);\n" % p for p in probes)
        out.append(suite.Case("hand/" + name, PRE + decl + "\npub fn run() {\n" + body + "}\n"))
    return out


def c07_verdicts():
    out = []
    head = "#![allow(warnings)]\n" + PRE + "fn au<X: ?Sized + Unpin>() {}\n"
    forms = [("struct", "#[pin_project] pub struct S<T, U> { #[pin] t: %s, u: U }"),
             ("tuple", "#[pin_project] pub struct S<T, U>(U, #[pin] %s);"),
             ("enum", "#[pin_project(project = SP)] pub enum S<T, U> { A(U), B { #[pin] t: %s }, C }"),
             ("where", "#[pin_project] pub struct S<T, U> where T: Sized, U: Sized { u: U, #[pin] t: %s }")]
    fields = [("T", "T: Unpin"), ("(T, u8)", "T: Unpin"), ("Option<T>", "T: Unpin"), ("[T; 3]", "T: Unpin"), ("In<T>", "T: Unpin"), ("PhantomData<T>", "T: Unpin"),
              ("::core::mem::ManuallyDrop<T>", "T: Unpin"), ("Cond<T>", "T: Mk"), ("InUn<T>", "T: Mk"), ("Vec<T>", "T: Unpin"), ("InE<T, U>", "T: Unpin")]
    for fname, form in forms:
        for ty, bound in fields:
            out += verdict.attack("generic/%s/%s" % (fname, ty), head + form % ty +
                                  "\nfn g<T, U>() where\n    U: Unpin + Mk //~\n    %s //=\n{ au::<S<T, U>>(); }\n" % bound, "Unpin without the pinned field's bound")
        for ty in ("Box<T>", "&'static T", "Pin<Box<T>>", "*mut T", "u8", "fn(T) -> T", "Always<T>"):
            decl = form % ty
            decl = decl.replace("S<T, U>", "S<T: 'static, U>", 1).replace("{ u: U", "{ x: PhantomData<T>, u: U").replace("{ #[pin] t", "{ x: PhantomData<T>, #[pin] t").replace("(U, #[pin]", "(U, PhantomData<T>, #[pin]")
            out += verdict.accept("unconditional/%s/%s" % (fname, ty), head + decl + "\nfn g<T: 'static, U>() { au::<S<T, U>>(); }\n")
    out += verdict.attack("assoc", head + "#[pin_project] pub struct S<T: Tr> { #[pin] t: T::A, u: T::B }\nfn g<T: Tr>() where\n    T: Unpin, T::B: Unpin //~\n    T::A: Unpin //=\n{ au::<S<T>>(); }\n")
    out += verdict.attack("unsized", head + "#[pin_project] pub struct S<T: ?Sized> { a: Pn, #[pin] t: T }\nfn g<T: ?Sized>() where\n    T: Send //~\n    T: Unpin //=\n{ au::<S<T>>(); }\n")
    out += verdict.attack("lifetime", head + "pub struct Ls<'a>(&'a u8, PhantomPinned); impl Unpin for Ls<'static> {}\n#[pin_project] pub struct S<'a> { #[pin] t: Ls<'a> }\nfn g<'a>() {\n    au::<S<'a>>(); //~\n    au::<S<'static>>(); //=\n}\n")
    out += verdict.attack("const-generic", head + "#[pin_project] pub struct S<const N: usize> { #[pin] t: Cn<N> }\nfn g<const N: usize>() {\n    au::<S<N>>(); //~\n    au::<S<1>>(); //=\n}\n")
    out += verdict.attack("where-implied", head + "#[pin_project] pub struct S<T> where T: Mk { #[pin] t: T }\nfn g<T: Mk>() where\n    u8: Unpin //~\n    T: Unpin //=\n{ au::<S<T>>(); }\n")
    out += verdict.accept("blanket-fn", head + "#[pin_project] pub struct S<T> { #[pin] t: T }\nfn g<T>() where S<T>: Unpin { au::<S<T>>() }\nfn h<T: Unpin>() { g::<T>() }\n")
    out += verdict.accept("get_mut-generic", head + "#[pin_project] pub struct S<T, U> { #[pin] t: T, u: U }\nfn h<T: Unpin, U>(mut s: S<T, U>, u: U) -> S<T, U> { Pin::new(&mut s).get_mut().u = u; s }\n")
    return out


def c07(c):
    suite.run_suite(c, c07_cases(c), per=8)
    verdict.decide(c, c07_verdicts())
    rec = [("recursive-pinned-field-with-lifetime", "struct S<'a> { @ f: Vec<S<'a>>, g: &'a u8 }"), ("recursive-pinned-field", "struct S<T> { @ f: Vec<S<T>>, @ g: T }"),
           ("recursive-enum", "enum S<T> { A(@ Vec<Self>), B { @ t: T }, C(@ ::std::collections::VecDeque<(Self, u8)>) }"), ("mutually-recursive", "struct S<T>(@ Vec<R<T>>, @ T); #[pin_project] struct R<T> { @ s: Vec<S<T>>, @ o: Option<Box<R<T>>> }"),
           ("recursive-unpinned-lifetime", "struct S<'a, T> { f: Vec<S<'a, T>>, @ g: T, h: &'a u8 }"), ("recursive-boxed-lifetime", "struct S<'a, T> { @ f: Option<Box<S<'a, T>>>, @ g: T, h: &'a u8 }")]
    ask = "fn au<X: Unpin>() {} fn chk<'a, T: Unpin>() { au::<S%s>(); }"
    tw = []
    for n, d in rec:
        al = {"S<'a>": "<'a>", "S<T>": "<T>"}.get(d[d.index("S<"):d.index(">") + 1], "<'a, T>")
        tw.append((n, "use ::pin_project::pin_project; " + d.replace("@ ", "").replace("#[pin_project]", "") + ask % al, "use ::pin_project::pin_project; #[pin_project%s] " % ("(project = SP)" if d[0] == "e" else "") + d.replace("@ ", "#[pin] ") + ask % al))
    c15.twins(c, tw)
    generic.family(c, c.pick(4000, 30000), "C07")
    c.rule = "random declarations probed for Unpin at several instantiations and compared with the conjunction over the pinned active field types; plus generic-code verdicts with accepted twins; distinct by declaration text"


# ------------------------------------------------------------------ C08

def c08_cases(c):
    rng = random.Random("C08/%s" % c.seed)
    out = []
    for i in range(c.pick(2400, 16000)):
        mode = rng.choice(["not", "unsafe-none", "unsafe-all", "unsafe-bound", "unsafe-some", "unsafe-field"])
        args = ["!Unpin"] if mode == "not" else ["UnsafeUnpin"]
        if rng.random() < 0.35:
            args.append("PinnedDrop")
        rng.shuffle(args)
        src, pinned, tps, cps, lts, kind = declaration(rng, args, mode)
        g = ", ".join(lts + ["%s: Tr + 'static" % t for t in tps] + ["const N: usize" for _ in cps])
        g = "<%s>" % g if g else ""
        ta = ", ".join(lts + tps + cps)
        ta = "<%s>" % ta if ta else ""
        impl, want = "", lambda inst, cin: "false"
        if mode == "unsafe-all":
            impl = "unsafe impl%s UnsafeUnpin for S%s {}" % (g, ta)
            want = lambda inst, cin: "true"
        elif mode == "unsafe-bound" and tps:
            p = rng.randrange(len(tps))
            b = rng.choice(["Unpin", "Mk", "Send"])
            impl = "unsafe impl%s UnsafeUnpin for S%s where %s: %s {}" % (g, ta, tps[p], b)
            want = lambda inst, cin: "vrt::is!(%s: %s)" % (inst[p], b)
        elif mode == "unsafe-some" and tps:
            sp = tuple(rng.choice(INST) for _ in tps)
            t2 = ", ".join(lts + list(sp) + cps)
            g2 = ", ".join(lts + ["const N: usize" for _ in cps])
            impl = "unsafe impl%s UnsafeUnpin for S<%s> {}" % ("<%s>" % g2 if g2 else "", t2)
            want = lambda inst, cin: "true" if tuple(inst) == sp else "false"
        elif mode == "unsafe-field" and pinned:
            f = pinned[0]
            impl = "unsafe impl%s UnsafeUnpin for S%s where %s: Unpin {}" % (g, ta, f) if tps and any(re.search(r"(?<!::)\b%s\b" % t, f) for t in tps) else ""
            if impl:
                want = lambda inst, cin: "vrt::is!(%s: Unpin)" % subst(f, tps, inst, cps, cin, lts)
        body = ""
        ii = insts(rng, tps, cps, 5)
        if mode == "unsafe-some" and tps:
            ii.append((sp, ("1",) * len(cps)))
        for inst, cin in ii:
            body += "    vrt::eq(vrt::is!(%s: Unpin), %s);\n" % (sname(tps, inst, cps, cin, lts), want(inst, cin))
        pd = "#[pinned_drop] impl%s PinnedDrop for S%s { fn drop(self: Pin<&mut Self>) {} }\n" % (g, ta) if "PinnedDrop" in args else ""
        out.append(suite.Case("%s/%d" % (mode, i), PRE + src + "\n" + impl + "\n" + pd + "pub fn run() {\n" + body + "}\n", key=mode + src))
    # modes do not change anything else
    shapes = [("named", "pub struct S<T> { #[pin] pub a: T, pub b: u8, #[pin] pub c: Pn, pub d: (u8, T) }", "S { a: 1u64, b: 2, c: Pn(3, PhantomPinned), d: (4, 5) }"),
              ("tuple", "pub struct S<T>(#[pin] pub T, pub u8, #[pin] pub Pn);", "S(1u64, 2, Pn(3, PhantomPinned))"),
              ("enum", "pub enum S<T> { A { #[pin] a: T, b: u8 }, B(#[pin] Pn, T), C }", "S::A { a: 1u64, b: 2 }")]
    for nm, d, val in shapes:
        for rep in (False, True):
            mods = ""
            for m, a in (("d", ""), ("n", "!Unpin"), ("u", "UnsafeUnpin"), ("v", "UnsafeUnpin")):
                args = ", ".join(x for x in (a, "project = SP", "project_ref = SR", "project_replace = SO" if rep else "") if x)
                obs = {"named": "let mut v = Box::pin(%s); let base = &*v as *const _ as usize; { let p = v.as_mut().project(); o.push(&*p.a as *const _ as usize - base); o.push(p.b as *const _ as usize - base); o.push(&*p.c as *const _ as usize - base); *p.b = 9; } { let p = v.as_ref().project_ref(); o.push(*p.b as usize); o.push(p.d as *const _ as usize - base); }",
                       "tuple": "let mut v = Box::pin(%s); let base = &*v as *const _ as usize; { let p = v.as_mut().project(); o.push(&*p.0 as *const _ as usize - base); o.push(p.1 as *const _ as usize - base); *p.1 = 9; } { let p = v.as_ref().project_ref(); o.push(*p.1 as usize); o.push(&*p.2 as *const _ as usize - base); }",
                       "enum": "let mut v = Box::pin(%s); let base = &*v as *const _ as usize; match v.as_mut().project() { SP::A { a, b } => { o.push(&*a as *const _ as usize - base); *b = 9; } _ => o.push(0) } match v.as_ref().project_ref() { SR::A { a, b } => { o.push(*b as usize); } _ => o.push(0) }"}[nm] % val
                if rep:
                    obs += {"named": "let r = v.as_mut().project_replace(%s); o.push(r.b as usize); o.push(r.d.1 as usize);", "tuple": "let r = v.as_mut().project_replace(%s); o.push(r.1 as usize);",
                            "enum": "match v.as_mut().project_replace(%s) { SO::A { b, .. } => o.push(b as usize), _ => o.push(0) }"}[nm] % val
                mods += "pub mod %s { use super::*; #[pin_project(%s)] %s\n%s\npub fn go() -> Vec<usize> { let mut o = vec![::core::mem::size_of::<S<u64>>(), ::core::mem::align_of::<S<u64>>(), ::core::mem::needs_drop::<S<u8>>() as usize, ::core::mem::needs_drop::<S<String>>() as usize]; %s o } }\n" % (
                    m, args, d, "unsafe impl<T> UnsafeUnpin for S<T> {}" if m == "v" else "", obs)
            out.append(suite.Case("modes/%s/%s" % (nm, rep), PRE + mods + "pub fn run() { let w = d::go(); vrt::eq(n::go(), w.clone()); vrt::eq(u::go(), w.clone()); vrt::eq(v::go(), w); }\n"))
    return out


def c08_verdicts():
    out = []
    head = "#![allow(warnings)]\n" + PRE + "fn au<X: ?Sized + Unpin>() {}\n"
    for nm, d in [("named", "pub struct S<T: ?Sized> { a: u8, #[pin] t: T }"), ("tuple", "pub struct S<T: ?Sized>(u8, #[pin] T);"), ("unpinned", "pub struct S<T: ?Sized> { a: u8, t: T }")]:
        for inst in ("u8", "[u8]", "str", "dyn Send", "Box<u8>", "()"):
            out += verdict.attack("not/%s/%s" % (nm, inst), head + "#[pin_project(!Unpin)] //~\n#[pin_project] //=\n%s\nfn g() { au::<S<%s>>(); }\n" % (d, inst if inst != "dyn Send" else "dyn Send + Unpin"), "!Unpin type used as Unpin")
        out += verdict.attack("not-generic/" + nm, head + "#[pin_project(!Unpin)] //~\n#[pin_project] //=\n%s\nfn g<T: Unpin>() { au::<S<T>>(); }\n" % d)
        out += verdict.attack("unsafe-none/" + nm, head + "#[pin_project(UnsafeUnpin)]\n%s\nunsafe impl<T: ?Sized> UnsafeUnpin for S<T> {} //=\nstruct Dummy; //~\nfn g() { au::<S<u8>>(); }\n" % d)
        out += verdict.attack("unsafe-bound/" + nm, head + "#[pin_project(UnsafeUnpin)]\n%s\nunsafe impl<T: ?Sized + Mk> UnsafeUnpin for S<T> {}\nfn g<T>() where\n    T: Unpin //~\n    T: Mk //=\n{ au::<S<T>>(); }\n" % d)
    for kind in ("struct S { #[pin] a: u8 }", "struct S(u8);"):
        for a in ("!Unpin", "PinnedDrop, !Unpin"):
            pd = "#[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) {} }" if "Drop" in a else ""
            out += verdict.attack("not-concrete/%s/%s" % (kind, a), head + "#[pin_project(%s)] //~\n#[pin_project(%s)] //=\n%s\n%s\nfn g() { au::<S>(); let mut x: Option<Pin<&mut S>> = None; x.take().unwrap().get_mut(); }\n" % (a, a.replace("!Unpin", "").strip(", "), kind, pd))
    out += verdict.attack("unsafe-lifetime", head + "#[pin_project(UnsafeUnpin)] pub struct S<'a>(#[pin] &'a u8);\nunsafe impl UnsafeUnpin for S<'static> {}\nfn g<'a>() {\n    au::<S<'a>>(); //~\n    au::<S<'static>>(); //=\n}\n")
    return out


def c08(c):
    generic.family(c, c.pick(2500, 20000), "C08")
    grun.layout(c, c.pick(500, 5000))
    suite.run_suite(c, c08_cases(c), per=8)
    verdict.decide(c, c08_verdicts())
    c.rule = "random declarations in the two explicit modes with random marker-trait impls, probed for Unpin at several instantiations; mode-independence of layout and projections; distinct by mode and declaration text"
