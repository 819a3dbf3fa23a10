"""C09/C10: attack programs in safe code, each next to an accepted twin."""
import re

from . import c19, generic, rnd, suite, verdict
from .kinds import KINDS

PRE = r"""#![allow(warnings)]
use pin_project::{pin_project, pinned_drop, UnsafeUnpin};
use core::pin::Pin;
use core::marker::{PhantomPinned, PhantomData};
pub trait Mk {} impl Mk for u8 {} impl Mk for Pn {}
pub trait Other {}
pub struct Pn(u8, PhantomPinned);
pub struct Mine(PhantomPinned);
pub struct G<T>(PhantomPinned, PhantomData<T>);
"""


# destructor implementations that are not of the documented form (bodies; impl heads)
SIGS = ["fn drop(&mut self) {}", "fn drop(&self) {}", "fn drop(self) {}", "fn drop(mut self) {}", "fn drop(self: Self) {}", "fn drop(self: &mut Self) {}", "fn drop(self: Pin<&Self>) {}", "fn drop(self: Pin<Self>) {}",
        "fn drop(self: Pin<Box<Self>>) {}", "fn drop(self: Pin<&mut S>) {}", "fn drop(self: Box<Self>) {}", "fn drop(self: Pin<&mut Self>, x: u8) {}", "fn drop() {}", "fn drop(this: Pin<&mut Self>) {}", "fn drop(_: Pin<&mut Self>) {}",
        "fn drop(self: Pin<&mut Self>) -> u8 { 0 }", "fn drop(self: Pin<&mut Self>) -> Self { loop {} }", "fn drop(self: Pin<&mut Self>) -> ! { loop {} }", "fn drop(self: Pin<&mut Self>) -> Result<(), ()> { Ok(()) }", "unsafe fn drop(self: Pin<&mut Self>) {}", "fn drop_(self: Pin<&mut Self>) {}", "fn r#Drop(self: Pin<&mut Self>) {}",
        "async fn drop(self: Pin<&mut Self>) {}", "const fn drop(self: Pin<&mut Self>) {}", "extern \"C\" fn drop(self: Pin<&mut Self>) {}", "fn drop<T>(self: Pin<&mut Self>) where T: Undefined_ {}", "fn drop(self: Pin<&mut &mut Self>) {}", "fn drop(self: Pin<&mut [Self]>) {}", "fn drop(self: Pin<*mut Self>) {}", "fn drop(self: Pinned<&mut Self>) {}",
        "fn drop(self: Pin<&mut Self>); ", "fn drop(self: Pin<&mut Self, u8>) {}", "fn drop(x: u8, self: Pin<&mut Self>) {}", "fn drop(self: Pin<&mut Self>) {} fn drop(self: Pin<&mut Self>) {}", "fn drop(self: Pin<&mut Self>) {} fn other() {}", "const A: u8 = 1; fn drop(self: Pin<&mut Self>) {}", "type A = u8; fn drop(self: Pin<&mut Self>) {}",
        "fn drop(self: Pin<&mut Self>) {} const A: u8 = 1;", "fn drop(self: Pin<&mut Self>) {} type A = u8;", "", "const A: u8 = 1;", "type A = u8;", "fn other() {}", "pub fn drop(self: Pin<&mut Self>) {}", "m!();", "fn drop(self: Pin<&mut Self>) {} m!();", "fn drop(&mut self, _: u8) {}", "fn drop(self: Option<&mut Self>) {}", "fn drop(self: Rc<&mut Self>) {}", "fn drop(self: ::std::rc::Rc<Self>) {}"]
HEADS = ["#[pinned_drop] unsafe impl PinnedDrop for S", "#[pinned_drop] impl Drop for S", "#[pinned_drop] impl S", "#[pinned_drop] impl Other for S", "#[pinned_drop] impl PinnedDrop for &mut S", "#[pinned_drop] impl PinnedDrop for Box<S>", "#[pinned_drop] impl PinnedDrop for [S]", "#[pinned_drop] impl PinnedDrop for (S,)", "#[pinned_drop] impl !PinnedDrop for S",
         "#[pinned_drop] impl PinnedDrop for dyn Other", "#[pinned_drop] impl<T> PinnedDrop for T", "#[pinned_drop(foo)] impl PinnedDrop for S", "#[pinned_drop] #[pinned_drop] impl PinnedDrop for S", "impl PinnedDrop for S", "#[pinned_drop] impl pin_project::PinnedDrop for S", "#[pinned_drop] impl PinnedDrop for Undefined", "#[pinned_drop] impl PinnedDrop<u8> for S", "#[pinned_drop] impl PinnedDrop for *mut S", "#[pinned_drop] impl PinnedDrop for [S; 1]", "#[pinned_drop] impl PinnedDrop for fn(S)", "#[pinned_drop] impl PinnedDrop for ()", "#[pinned_drop] impl PinnedDrop for !", "#[pinned_drop(PinnedDrop)] impl PinnedDrop for S", "#[pinned_drop = \"x\"] impl PinnedDrop for S", "#[pinned_drop] default impl PinnedDrop for S", "#[pinned_drop] pub impl PinnedDrop for S", "#[pinned_drop] impl Pinned for S", "#[pinned_drop] impl UnsafeUnpin for S"]


def decl(kind, attr, gen, F, G="u8", where="", name="S"):
    w = (" where " + where) if where else ""
    return attr + "\n" + {
        "named": "pub struct %s%s%s { #[pin] f: %s, g: %s }" % (name, gen, w, F, G),
        "tuple": "pub struct %s%s(#[pin] %s, %s)%s;" % (name, gen, F, G, w),
        "evn": "pub enum %s%s%s { Z, A { #[pin] f: %s, g: %s } }" % (name, gen, w, F, G),
        "evt": "pub enum %s%s%s { A(#[pin] %s, %s), Z }" % (name, gen, w, F, G),
    }[kind] + "\n"


MODES = [("default", ""), ("not", "!Unpin"), ("unsafe", "UnsafeUnpin"), ("unsafe-impl", "UnsafeUnpin"), ("pdrop", "PinnedDrop"), ("not-pdrop", "PinnedDrop, !Unpin"),
         ("unsafe-pdrop", "UnsafeUnpin, PinnedDrop"), ("replace", "project_replace = SO")]


def attr_of(kind, a):
    parts = [x for x in (a, "project = SP" if kind.startswith("ev") else "") if x]
    return "#[pin_project(%s)]" % ", ".join(parts) if parts else "#[pin_project]"


def c09_programs():
    out = []
    for kind in KINDS:
        for mname, a in MODES:
            at = attr_of(kind, a)

            def pd(gen, ta, w=""):
                return "#[pinned_drop] impl%s PinnedDrop for S%s %s { fn drop(self: Pin<&mut Self>) {} }\n" % (gen, ta, w) if "PinnedDrop" in a else ""

            def ui(gen, ta, w=""):
                return "unsafe impl%s UnsafeUnpin for S%s %s {}\n" % (gen, ta, w) if mname == "unsafe-impl" else ""
            t = "%s/%s/" % (kind, mname)
            # ---- concrete field
            for fname, F in (("pinned", "Pn"), ("phantom", "PhantomPinned"), ("movable", "u8"), ("mine", "Mine"), ("gen", "G<u8>"), ("dynbox", "Box<dyn Other>"), ("phd", "PhantomData<Pn>")):
                base = PRE + decl(kind, at, "", F) + pd("", "") + ui("", "")
                for iname, w in (("plain", ""), ("where-sized", "where for<'x> &'x u8: Sized"), ("where-never", "where for<'x> str: Sized"), ("where-unpin", "where PhantomPinned: Unpin"), ("where-self", "where Self: Sized"), ("where-f", "where %s: Unpin" % F)):
                    if iname in ("where-unpin",) or (iname == "where-f" and F in ("PhantomPinned", "u8")):
                        continue
                    if iname == "where-never":
                        # an impl that can never apply may be accepted; it must not make the type Unpin
                        if mname != "unsafe-impl" and (fname not in ("movable", "dynbox") or "npin" in a):
                            out += verdict.reject("concrete/%s%s/%s" % (t, fname, iname), base + "impl Unpin for S %s {}\nfn au<X: Unpin>() {}\nfn t() { au::<S>() }\n" % w, "vacuous Unpin impl makes the type Unpin")
                        continue
                    out += verdict.attack("concrete/%s%s/%s" % (t, fname, iname), base + "impl Unpin for S %s {} //~\nimpl Other for S where for<'x> &'x u8: Sized {} //=\n" % w, "extra Unpin impl")
                if mname in ("unsafe-impl",):
                    out += verdict.reject("concrete-dupmarker/" + t + fname, base + "unsafe impl UnsafeUnpin for S {}\n", "second marker impl")
                if not mname.startswith("unsafe"):
                    out += verdict.attack("useless-marker/" + t + fname, base + "unsafe impl UnsafeUnpin for S {} //~\nimpl Other for S {} //=\n", "marker trait implemented without being requested")
                elif mname in ("unsafe", "unsafe-pdrop"):
                    out += verdict.attack("marker-needs-unsafe/" + t + fname, base + "impl UnsafeUnpin for S {} //~\nunsafe impl UnsafeUnpin for S {} //=\n", "marker trait implemented without unsafe")
                    out += verdict.reject("marker-forbid/" + t + fname, "#![forbid(unsafe_code)]\n" + base + "unsafe impl UnsafeUnpin for S {}\n", "marker trait under forbid(unsafe_code)")
            # a field type whose own Unpin impl can never hold (the known trick against negative reasoning)
            for trick in ("where for<'cursed> str: Sized", "where for<'x> Foreign<'x>: Copy_"):
                fore = "pub struct Foreign<'a>(&'a u8); pub trait Copy_ {}\n"
                base = PRE + fore + "pub struct Tr(PhantomPinned); impl Unpin for Tr %s {}\n" % trick + decl(kind, at, "", "Tr") + pd("", "") + ui("", "")
                out += verdict.attack("trick/%s%s" % (t, trick[6:24]), base + "impl Unpin for S {} //~\nimpl Other for S {} //=\n", "negative reasoning trick")
                if mname != "unsafe-impl":
                    out += verdict.reject("trick2/%s%s" % (t, trick[6:24]), base + "impl Unpin for S %s {}\nfn au<X: Unpin>() {}\nfn t() { au::<S>() }\n" % trick, "negative reasoning trick")
            # ---- generic
            for gname, gen, ta, F, impls in [
                ("T", "<T>", "<T>", "T", [
                    ("all", "impl<T> Unpin for S<T> {}"), ("unpin", "impl<T: Unpin> Unpin for S<T> {}"), ("bound", "impl<T: Mk> Unpin for S<T> {}"),
                    ("inst-u8", "impl Unpin for S<u8> {}"), ("inst-pinned", "impl Unpin for S<PhantomPinned> {}"), ("inst-local", "impl Unpin for S<Pn> {}"),
                    ("inst-box", "impl<T> Unpin for S<Box<T>> {}"), ("inst-ref", "impl<'a, T> Unpin for S<&'a T> {}"), ("inst-tuple", "impl<T> Unpin for S<(T, PhantomPinned)> {}"),
                    ("inst-generic-pinned", "impl<T> Unpin for S<G<T>> {}"), ("hrtb", "impl<T> Unpin for S<T> where for<'x> &'x T: Sized {}"), ("inst-str", "impl Unpin for S<[PhantomPinned; 2]> {}"),
                    ("inst-self", "impl<T> Unpin for S<S<T>> {}"), ("fn", "impl Unpin for S<fn(PhantomPinned)> {}"), ("dyn", "impl Unpin for S<Box<dyn Other>> {}"),
                ]),
                ("Opt", "<T>", "<T>", "Option<T>", [("all", "impl<T> Unpin for S<T> {}"), ("inst-pinned", "impl Unpin for S<PhantomPinned> {}"), ("inst-local", "impl Unpin for S<Pn> {}")]),
                ("G", "<T>", "<T>", "G<T>", [("all", "impl<T> Unpin for S<T> {}"), ("inst", "impl Unpin for S<u8> {}"), ("unpin", "impl<T: Unpin> Unpin for S<T> {}")]),
                ("life", "<'a, T>", "<'a, T>", "(T, &'a u8)", [("all", "impl<'a, T> Unpin for S<'a, T> {}"), ("static", "impl<T> Unpin for S<'static, T> {}"), ("static-pinned", "impl Unpin for S<'static, PhantomPinned> {}"), ("any-pinned", "impl<'b> Unpin for S<'b, Pn> {}")]),
                ("const", "<const N: usize>", "<N>", "[Pn; N]", [("all", "impl<const N: usize> Unpin for S<N> {}"), ("three", "impl Unpin for S<3> {}"), ("zero", "impl Unpin for S<0> {}")]),
            ]:
                base = PRE + decl(kind, at, gen, F) + pd(gen, ta) + ui(gen, ta)
                tw = "impl%s Other for S%s {}" % (gen, ta)
                for iname, imp in impls:
                    out += verdict.attack("generic/%s%s/%s" % (t, gname, iname), base + "%s //~\n%s //=\n" % (imp, tw), "extra Unpin impl")
                if not mname.startswith("unsafe"):
                    out += verdict.attack("useless-marker/%s%s" % (t, gname), base + "unsafe impl%s UnsafeUnpin for S%s {} //~\n%s //=\n" % (gen, ta, tw), "useless marker")
                    if gname == "T":
                        for i, inst in enumerate(("u8", "Pn", "PhantomPinned", "Box<u8>")):
                            out += verdict.attack("useless-marker-inst/%s%d" % (t, i), base + "unsafe impl UnsafeUnpin for S<%s> {} //~\n%s //=\n" % (inst, tw), "useless marker")
                        out += verdict.attack("useless-marker-bound/%s" % t, base + "unsafe impl<T: Unpin> UnsafeUnpin for S<T> {} //~\n%s //=\n" % tw, "useless marker")
    # unsized, public, via derive-like macro, inside fn, through an alias
    for mname, a in (("default", ""), ("not", "!Unpin"), ("unsafe", "UnsafeUnpin")):
        at = "#[pin_project(%s)]" % a
        out += verdict.attack("unsized/" + mname, PRE + at + " pub struct S<T: ?Sized> { a: u8, #[pin] t: T }\nimpl<T: ?Sized> Unpin for S<T> {} //~\nimpl<T: ?Sized> Other for S<T> {} //=\n")
        out += verdict.attack("unsized-inst/" + mname, PRE + at + " pub struct S<T: ?Sized> { a: u8, #[pin] t: T }\nimpl Unpin for S<[PhantomPinned]> {} //~\nimpl Other for S<[PhantomPinned]> {} //=\n")
        out += verdict.attack("unsized-dyn/" + mname, PRE + at + " pub struct S<T: ?Sized> { a: u8, #[pin] t: T }\nimpl Unpin for S<dyn Other> {} //~\nimpl Other for S<dyn Other> {} //=\n")
        out += verdict.attack("alias/" + mname, PRE + at + " pub struct S { #[pin] t: Pn }\ntype A = S;\nimpl Unpin for A {} //~\nimpl Other for A {} //=\n")
        out += verdict.attack("in-fn/" + mname, PRE + "fn f() { " + at + " struct S { #[pin] t: Pn }\nimpl Unpin for S {} //~\nimpl Other for S {} //=\n}\n")
        out += verdict.attack("blanket/" + mname, PRE + "pub trait Loc {}\n" + at + " pub struct S { #[pin] t: Pn } impl Loc for S {}\nimpl<T: Loc> Unpin for T {} //~\nimpl<T: Loc> Other for T {} //=\n")
        out += verdict.attack("private-mod/" + mname, PRE + "pub mod m { use super::*; " + at + " pub struct S<T> { #[pin] t: T } }\nimpl Unpin for m::S<Pn> {} //~\nimpl Other for m::S<Pn> {} //=\n")
        out += verdict.attack("only-unpinned/" + mname, PRE + at + " pub struct S { t: Pn }\nimpl Unpin for S {} //~\nimpl Other for S {} //=\n")
        out += verdict.attack("where-decl/" + mname, PRE + at + " pub struct S<T> where T: Mk { #[pin] t: T }\nimpl Unpin for S<Pn> {} //~\nimpl Other for S<Pn> {} //=\n")
        out += verdict.attack("assoc/" + mname, PRE + "pub trait Tr { type A; } impl Tr for u8 { type A = Pn; }\n" + at + " pub struct S<T: Tr> { #[pin] t: T::A }\nimpl Unpin for S<u8> {} //~\nimpl Other for S<u8> {} //=\n")
        out += verdict.attack("derive-alias/" + mname, PRE + "macro_rules! unpin { ($t:ident) => { impl Unpin for $t {} } } macro_rules! oth { ($t:ident) => { impl Other for $t {} } }\n" + at + " pub struct S { #[pin] t: Pn }\nunpin!(S); //~\noth!(S); //=\n")
        out += verdict.attack("auto-struct-name/" + mname, PRE + at + " pub struct S<T> { #[pin] t: T }\nimpl<'a, T> Unpin for __S<'a, T> {} //~\nimpl<T> Other for S<T> {} //=\n", "naming the hidden helper type")
    # the helper types behind the where clauses
    out += verdict.attack("wrapper", PRE + "pub struct L;\nimpl<'a> Unpin for ::pin_project::__private::Wrapper<'a, L> {} //~\nimpl Other for L {} //=\n")
    out += verdict.attack("wrapper-marker", PRE + "#[pin_project(UnsafeUnpin)] pub struct S(#[pin] Pn);\nimpl<'a> UnsafeUnpin for ::pin_project::__private::Wrapper<'a, S> {} //~\nimpl Other for S {} //=\nfn au<T: Unpin>() {}\n")
    out += verdict.attack("wrapper-phantom", PRE + "#[pin_project(!Unpin)] pub struct S(#[pin] Pn);\nimpl<'a> Unpin for ::pin_project::__private::Wrapper<'a, PhantomPinned> {} //~\nimpl Other for S {} //=\n")
    out += verdict.attack("always-unpin", PRE + "#[pin_project] pub struct S<T>(#[pin] T);\nimpl<T> Unpin for ::pin_project::__private::AlwaysUnpin<'static, T> {} //~\nimpl<T> Other for S<T> {} //=\n")
    out += verdict.attack("pinned-field-alias", PRE + "#[pin_project] pub struct S(#[pin] Pn);\nfn au<T: Unpin>() {}\nfn f() {\n    au::<::pin_project::__private::PinnedFieldsOf<Pn>>(); //~\n    au::<u8>(); //=\n}\n", "the helper projection must not make a pinned type Unpin")
    return out


def c09(c):
    ps = c09_programs()
    verdict.decide(c, ps)
    rnd.c09(c, c.pick(700, 8000))
    generic.attacks(c, c.pick(1500, 15000), "C09")
    c.rule = "every kind of type x mode x field shape x way of writing an additional Unpin or marker impl in safe code, each with an accepted twin; the same attacks on random declarations; distinct by (kind, mode, field, attack)"


# ------------------------------------------------------------------ C10

def c10_programs():
    out = []
    for kind in KINDS:
        for mname, a in (("plain", ""), ("not", "!Unpin"), ("unsafe", "UnsafeUnpin"), ("replace", "project_replace = SO"), ("pdrop", "PinnedDrop"), ("pdrop-not", "PinnedDrop, !Unpin")):
            at = attr_of(kind, a)
            t = "%s/%s/" % (kind, mname)
            for gname, gen, ta, F, w in (("conc", "", "", "Pn", ""), ("gen", "<T>", "<T>", "T", ""), ("where", "<T>", "<T>", "T", "T: Mk"), ("life", "<'a, T: 'a>", "<'a, T>", "&'a T", ""), ("const", "<const N: usize>", "<N>", "[u8; N]", "")):
                ww = ("where " + w) if w else ""
                pd = "#[pinned_drop] impl%s PinnedDrop for S%s %s { fn drop(self: Pin<&mut Self>) {} }" % (gen, ta, ww)
                d = PRE + decl(kind, at, gen, F, where=w)
                if "PinnedDrop" in a:
                    out += verdict.attack("drop/" + t + gname, d + pd + "\nimpl%s Drop for S%s %s { fn drop(&mut self) {} } //~\nimpl%s Other for S%s %s {} //=\n" % (gen, ta, ww, gen, ta, ww), "ordinary destructor on an annotated type")
                    out += verdict.attack("missing/" + t + gname, d + "struct Dummy; //~\n%s //=\n" % pd, "requested destructor missing")
                    out += verdict.attack("drop-instead/" + t + gname, d + "impl%s Drop for S%s %s { fn drop(&mut self) {} } //~\n%s //=\n" % (gen, ta, ww, pd), "Drop instead of PinnedDrop")
                    out += verdict.attack("twice/" + t + gname, d + pd + "\n%s //~\nimpl%s Other for S%s %s {} //=\n" % (pd, gen, ta, ww), "two pinned destructors")
                else:
                    out += verdict.attack("drop/" + t + gname, d + "impl%s Drop for S%s %s { fn drop(&mut self) {} } //~\nimpl%s Other for S%s %s {} //=\n" % (gen, ta, ww, gen, ta, ww), "ordinary destructor on an annotated type")
                    out += verdict.attack("unrequested/" + t + gname, d + "%s //~\nimpl%s Other for S%s %s {} //=\n" % (pd, gen, ta, ww), "pinned destructor not requested")
        # coverage: the destructor must exist for every instantiation
        at = attr_of(kind, "PinnedDrop")
        full = "#[pinned_drop] impl<T> PinnedDrop for S<T> { fn drop(self: Pin<&mut Self>) {} }"
        d = PRE + decl(kind, at, "<T>", "T")
        for nm, imp in (("inst", "#[pinned_drop] impl PinnedDrop for S<u8> { fn drop(self: Pin<&mut Self>) {} }"),
                        ("bound", "#[pinned_drop] impl<T: Mk> PinnedDrop for S<T> { fn drop(self: Pin<&mut Self>) {} }"),
                        ("where", "#[pinned_drop] impl<T> PinnedDrop for S<T> where T: Send { fn drop(self: Pin<&mut Self>) {} }"),
                        ("unpin", "#[pinned_drop] impl<T: Unpin> PinnedDrop for S<T> { fn drop(self: Pin<&mut Self>) {} }"),
                        ("nested", "#[pinned_drop] impl<T> PinnedDrop for S<Box<T>> { fn drop(self: Pin<&mut Self>) {} }"),
                        ("static", "#[pinned_drop] impl<T: 'static> PinnedDrop for S<T> { fn drop(self: Pin<&mut Self>) {} }")):
            out += verdict.attack("partial/%s/%s" % (kind, nm), d + "%s //~\n%s //=\n" % (imp, full), "destructor for some instantiations only")
        dl = PRE + decl(kind, at, "<'a>", "&'a u8")
        out += verdict.attack("partial/%s/lifetime" % kind, dl + "#[pinned_drop] impl PinnedDrop for S<'static> { fn drop(self: Pin<&mut Self>) {} } //~\n#[pinned_drop] impl PinnedDrop for S<'_> { fn drop(self: Pin<&mut Self>) {} } //=\n")
        dc = PRE + decl(kind, at, "<const N: usize>", "[u8; N]")
        out += verdict.attack("partial/%s/const" % kind, dc + "#[pinned_drop] impl PinnedDrop for S<3> { fn drop(self: Pin<&mut Self>) {} } //~\n#[pinned_drop] impl<const N: usize> PinnedDrop for S<N> { fn drop(self: Pin<&mut Self>) {} } //=\n")
        # direct invocation, outside
        d = PRE + decl(kind, at, "", "u8") + "#[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) {} }\n"
        for nm, st in (("trait", "::pin_project::__private::PinnedDrop::drop(x)"), ("ufcs", "<S as ::pin_project::__private::PinnedDrop>::drop(x)"), ("assoc", "S::drop(x)"),
                       ("method", "{ use ::pin_project::__private::PinnedDrop; x.drop() }"), ("pointer", "{ let f: fn(Pin<&mut S>) = <S as ::pin_project::__private::PinnedDrop>::drop; f(x) }"),
                       ("dropcall", "Drop::drop(x.get_mut())"), ("dropmethod", "x.get_mut().drop()"), ("use-pin-project", "{ use pin_project::PinnedDrop; PinnedDrop::drop(x) }"),
                       ("inner", "__drop_inner(x)"), ("inner-assoc", "S::__drop_inner(x)"), ("inner-path", "S::drop::__drop_inner(x)"), ("bare-method", "x.drop()"),
                       ("closure", "{ let c = |y: Pin<&mut S>| <S as ::pin_project::__private::PinnedDrop>::drop(y); c(x) }"),
                       ("map", "Some(x).map(::pin_project::__private::PinnedDrop::drop)")):
            out += verdict.attack("call/%s/%s" % (kind, nm), d + "fn t(x: Pin<&mut S>) {\n    %s; //~\n    drop(x); //=\n}\n" % st, "direct call of the destructor body")
        out += verdict.attack("call/%s/unsafe-needed" % kind, d + "fn t(x: Pin<&mut S>) {\n    ::pin_project::__private::PinnedDrop::drop(x); //~\n    drop(x); //=\n}\n")
        # from inside a body
        for gname, gen, ta, F in (("conc", "", "", "u8"), ("gen", "<T>", "<T>", "T")):
            d = PRE + "unsafe fn danger() {}\nstatic mut GLOBAL: u8 = 0;\nextern \"C\" { fn ffi(); }\nunion Un { a: u8, b: i8 }\n" + decl(kind, at, gen, F)
            for nm, st in (("self", "__drop_inner(self)"), ("reborrow", "__drop_inner(self.as_mut())"), ("path", "self::__drop_inner(self)"), ("super", "super::__drop_inner(self)"), ("turbofish", "__drop_inner::<u8>(self)"),
                           ("trait", "::pin_project::__private::PinnedDrop::drop(self)"), ("Self", "Self::drop(self)"), ("ufcs", "<Self as ::pin_project::__private::PinnedDrop>::drop(self)"), ("method", "self.drop()"),
                           ("method-reborrow", "self.as_mut().drop()"), ("PinnedDrop", "PinnedDrop::drop(self)"), ("closure", "(|s: Pin<&mut Self>| __drop_inner(s))(self)"),
                           ("drop-trait", "Drop::drop(unpin(&mut self))"), ("nested-fn", "fn again%s(s: Pin<&mut S%s>) { __drop_inner(s) } again(self)" % (gen, ta)),
                           ("macro", "macro_rules! m { () => { __drop_inner(self) } } m!()"), ("fn-value", "let f = __drop_inner; f(self)"), ("type-name", "S::drop(self)")):
                out += verdict.attack("body/%s/%s/%s" % (kind, gname, nm), d + "fn unpin<X>(x: &mut X) -> &mut X { x }\n#[pinned_drop] impl%s PinnedDrop for S%s { fn drop(mut self: Pin<&mut Self>) {\n    %s; //~\n    let _ = self.as_mut(); //=\n} }\n" % (gen, ta, st), "re-entering the destructor body")
            for nm, st in (("call", "danger()"), ("static", "GLOBAL = 1"), ("deref", "let p = &1u8 as *const u8; let v = *p"), ("unchecked", "let r = self.as_mut().get_unchecked_mut()"), ("ffi", "ffi()"), ("union", "let u = Un { a: 1 }; let v = u.b"), ("new_unchecked", "let p = Pin::new_unchecked(&mut 3u8)"), ("closure", "(|| danger())()"), ("map", "let p = self.as_mut().map_unchecked_mut(|x| x)")):
                out += verdict.attack("unsafe-op/%s/%s/%s" % (kind, gname, nm), d + "#[pinned_drop] impl%s PinnedDrop for S%s { fn drop(mut self: Pin<&mut Self>) {\n    %s; //~\n    unsafe { %s; } //=\n} }\n" % (gen, ta, st, st), "unsafe operation without an unsafe block", edition="2021")
                out += verdict.reject("unsafe-forbid/%s/%s/%s" % (kind, gname, nm), "#![forbid(unsafe_code)]\n" + d.replace("unsafe fn danger() {}\n", "").replace("extern \"C\" { fn ffi(); }\n", "") + "#[pinned_drop] impl%s PinnedDrop for S%s { fn drop(mut self: Pin<&mut Self>) { unsafe { let p = Pin::new_unchecked(&mut 3u8); } } }\n" % (gen, ta), "unsafe block in a body under forbid(unsafe_code)")
            out += verdict.accept("forbid-ok/%s/%s" % (kind, gname), "#![forbid(unsafe_code)]\n" + PRE + decl(kind, at, gen, F) + "#[pinned_drop] impl%s PinnedDrop for S%s { fn drop(mut self: Pin<&mut Self>) { let _ = self.as_mut(); } }\n" % (gen, ta))
    # shapes and signatures
    ok = "fn drop(self: Pin<&mut Self>) {}"
    base = PRE + "#[pin_project(PinnedDrop)] pub struct S { #[pin] f: u8, g: u8 }\n"
    for i, s in enumerate(SIGS):
        out += verdict.attack("sig/%d" % i, base + "macro_rules! m { () => { fn drop(self: Pin<&mut Self>) {} } }\n#[pinned_drop] impl PinnedDrop for S { %s } //~\n#[pinned_drop] impl PinnedDrop for S { %s } //=\n" % (s, ok), "signature " + s)
    for i, h in enumerate(HEADS):
        out += verdict.attack("head/%d" % i, base + "%s { %s } //~\n#[pinned_drop] impl PinnedDrop for S { %s } //=\n" % (h, ok, ok), "head " + h)
    for i, it in enumerate(["struct X;", "fn x() {}", "enum E { A }", "trait PinnedDrop {}", "mod m {}", "const C: u8 = 1;", "type T = u8;", "static Q: u8 = 1;", "use core::fmt;", "extern \"C\" {}", "union U { a: u8 }", "macro_rules! z { () => {} }"]):
        out += verdict.attack("item/%d" % i, PRE + "#[pinned_drop] %s //~\n%s //=\n" % (it, it), "pinned_drop on " + it)
    # accepted spellings
    for i, s in enumerate(["fn drop(self: Pin<&mut Self>) {}", "fn drop(mut self: Pin<&mut Self>) { let _ = self.as_mut(); }", "fn drop(self: core::pin::Pin<&mut Self>) {}", "fn drop(self: ::core::pin::Pin<&mut Self>) -> () {}", "fn drop(self: std::pin::Pin<&mut Self>,) {}", "#[inline] fn drop(self: Pin<&mut Self>) {}", "#[allow(unused)] /** doc */ fn drop(self: Pin<&mut Self>) { return; }", "fn drop(self: Pin<&mut Self>) where u8: Copy {}"]):
        out += verdict.accept("ok-sig/%d" % i, base + "#[pinned_drop] impl PinnedDrop for S { %s }\n" % s)
    # an ordinary destructor hidden behind tricks
    for i, s in enumerate(["impl core::ops::Drop for S { fn drop(&mut self) {} }", "type A = S; impl Drop for A { fn drop(&mut self) {} }", "macro_rules! d { ($t:ident) => { impl Drop for $t { fn drop(&mut self) {} } } } d!(S);", "const _: () = { impl Drop for S { fn drop(&mut self) {} } };", "fn hide() { impl Drop for S { fn drop(&mut self) {} } }", "use core::ops::Drop as D; impl D for S { fn drop(&mut self) {} }", "mod q { impl Drop for super::S { fn drop(&mut self) {} } }"]):
        for a in ("", "PinnedDrop"):
            pd = "#[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) {} }" if a else ""
            out += verdict.attack("hidden-drop/%d/%s" % (i, a), PRE + "#[pin_project(%s)] pub struct S { #[pin] f: u8 }\n%s\n%s //~\nimpl Other for S {} //=\n" % (a, pd, s), "ordinary destructor")
    for i, (n, dd) in enumerate([("slice", "struct S { #[pin] f: Pn, t: [u8] }"), ("str", "struct S { #[pin] f: Pn, #[pin] t: str }"), ("dyn", "struct S { #[pin] f: Pn, #[pin] t: dyn Other }"), ("tuple", "struct S(#[pin] Pn, [u8]);"), ("only", "struct S(#[pin] [Pn]);"), ("nested", "struct S { #[pin] f: Pn, t: Inner } struct Inner(u8, [u8]);"),
                                  ("where", "struct S<T> where T: Other { #[pin] f: T, #[pin] t: [T] }"), ("lifetime", "struct S<'a> { #[pin] f: &'a Pn, #[pin] t: dyn Other + 'a }"), ("const", "struct S<const N: usize> { #[pin] f: [u8; N], #[pin] t: [[u8; N]] }"), ("param", "struct S<T: ?Sized> { #[pin] f: Pn, #[pin] t: T }")]):
        ta = {"where": "<T>", "lifetime": "<'a>", "const": "<N>", "param": "<T>"}.get(n, "")
        gi = {"where": "<T: Other>", "lifetime": "<'a>", "const": "<const N: usize>", "param": "<T: ?Sized>"}.get(n, "")
        for a in ("", "!Unpin", "UnsafeUnpin", "project = P, project_ref = R", "PinnedDrop"):
            pd = "#[pinned_drop] impl%s PinnedDrop for S%s { fn drop(self: Pin<&mut Self>) {} }" % (gi, ta) if a == "PinnedDrop" else ""
            out += verdict.attack("unsized-drop/%s/%s" % (n, a), PRE + "#[pin_project(%s)] %s\n%s\nimpl%s Drop for S%s { fn drop(&mut self) {} } //~\nimpl%s Other for S%s {} //=\n" % (a, dd, pd, gi, ta, gi, ta), "ordinary destructor on an unsized type")
            if not pd:
                out += verdict.attack("unsized-pinned-drop/%s/%s" % (n, a), PRE + "#[pin_project(%s)] %s\n#[pinned_drop] impl%s PinnedDrop for S%s { fn drop(self: Pin<&mut Self>) {} } //~\nimpl%s Other for S%s {} //=\n" % (a, dd, gi, ta, gi, ta), "pinned destructor that was not requested, on an unsized type")
    return out


def discovered(c):
    """The functions which the expansion of a destructor really contains, whatever they are called: calling one from
    the body is rejected, or it is harmless, i.e. the body is seen to run exactly once."""
    bad, names = [], set()
    value = {"named": "S { f: %s, g: 0 }", "tuple": "S(%s, 0)", "evn": "S::A { f: %s, g: 0 }", "evt": "S::A(%s, 0)"}
    for kind in KINDS:
        at = attr_of(kind, "PinnedDrop")
        for gname, gen, ta, F, v in (("conc", "", "", "u8", "1"), ("gen", "<T>", "<T>", "T", "1u8"), ("life", "<'a, T: Mk>", "<'a, T>", "&'a T", "&1u8"), ("const", "<const N: usize>", "<N>", "[u8; N]", "[1; 2]")):
            for bn, body in (("empty", ""), ("self", "let _ = self.as_mut();"), ("inner", "fn own<X>(x: X) -> X { x } let _ = own(self.as_mut());")):
                text = lambda b: (PRE.replace("#![allow(warnings)]", "") + decl(kind, at, gen, F) + "static C: ::core::sync::atomic::AtomicUsize = ::core::sync::atomic::AtomicUsize::new(0);\nfn apply<X, R>(f: fn(X) -> R, x: X) { f(x); }\n"
                                  "#[pinned_drop] impl%s PinnedDrop for S%s { fn drop(mut self: Pin<&mut Self>) { if C.fetch_add(1, ::core::sync::atomic::Ordering::SeqCst) < 3 { %s } %s } }\n" % (gen, ta, b, body)
                                  + "pub fn run() { drop(%s); let n = C.load(::core::sync::atomic::Ordering::SeqCst); vrt::ck(n == 1, || format!(\"the destructor body ran {} times\", n)); }\n" % (value[kind] % v))
                exp = c19.expanded(c, "#![allow(warnings)]\n" + text(""))
                found = sorted(set(re.findall(r"\bfn\s+((?:r#)?\w+)", exp)) - {"drop", "own", "apply", "run"})
                names.update(found)
                for n in found:
                    for st in ("%s(self);", "%s(self.as_mut());", "Self::%s(self);", "self::%s(self);", "super::%s(self);", "S::%s(self);", "self.%s();", "self.as_mut().%s();", "(&mut *self).%s();", "let f = %s; f(self.as_mut());",
                               "%s(&mut *self);", "%s::<Self>(self);", "apply(%s, self.as_mut());", "{ use super::*; %s(self.as_mut()); }"):
                        bad.append(("discovered/%s/%s/%s/%s" % (kind, gname, bn, st % n), text(st % n), "re-entering the destructor body"))
    c.count("discovered_function_names", len(names))
    c.sample({"functions in the expansion": sorted(names)})
    col = []
    verdict.reject_batch(c, bad, per=20, head="#![allow(warnings)]\n", collect=col)
    suite.run_suite(c, [suite.Case(x[0], x[1]) for x in sorted(col)], kind="callable_generated_function")


def c10(c):
    ps = c10_programs()
    verdict.decide(c, ps)
    discovered(c)
    rnd.c10(c, c.pick(700, 8000))
    generic.attacks(c, c.pick(1500, 15000), "C10")
    c.rule = "every kind of type x mode x generics x way of adding, replacing, misdeclaring or directly calling a destructor in safe code, each with an accepted twin; the same attacks on random declarations; distinct by (kind, mode, attack)"
