"""C13: visibility of projection methods, types and fields, for every place in a module tree and from another crate."""
import os
import random
from . import core, rnd, verdict

ALL = ("b", "c", "a", "d", "t", "e", "outer")
VIS = {
    "": ("b", "c"), "pub(self)": ("b", "c"), "pub(in self)": ("b", "c"),
    "pub(super)": ("b", "c", "a", "d"), "pub(in super)": ("b", "c", "a", "d"),
    "pub(in super::super)": ("b", "c", "a", "d", "t", "e"),
    "pub(crate)": ALL, "pub(in crate)": ALL, "pub": ALL,
}
# path from the site to module b
PATH = {"b": "self", "c": "super", "a": "self::b", "d": "super::b", "t": "self::a::b", "e": "super::a::b", "outer": "self::t::a::b"}
METHODS = {"project": ("as_mut", "", "SP", "'_"), "project_ref": ("as_ref", "", "SR", "'_"), "project_replace": ("as_mut", "mk1()", "SO", "")}


def tree(decl, site, use):
    u = {s: "" for s in ALL}
    u[site] = use
    return ("pub mod t { pub mod a { pub mod b { use ::pin_project::pin_project; use ::core::pin::Pin; %s %s pub mod c { %s } } %s pub mod d { %s } } %s pub mod e { %s } } %s"
            % (decl, u["b"], u["c"], u["a"], u["d"], u["t"], u["e"], u["outer"]))


def declaration(kind, tv, fv, macro, named=True, gv=None, which="p"):
    """Field under test (`which`) gets visibility fv, the other one gv."""
    gv = fv if gv is None else gv
    if which == "u":
        fv, gv = gv, fv
    args = "project = SP, project_ref = SR, project_replace = SO" if named or kind == "enum" else "project_replace"
    if kind == "named":
        d = "#[pin_project(%s)] @T struct S { #[pin] @F p: u8, @G u: u8 }" % args
        mk = "S { p: 1, u: 2 }"
    elif kind == "tuple":
        d = "#[pin_project(%s)] @T struct S(#[pin] @F u8, @G u8);" % args
        mk = "S(1, 2)"
    else:
        d = "#[pin_project(%s)] @T enum S { A { #[pin] p: u8, u: u8 }, B(#[pin] u8, u8) }" % args
        mk = "S::A { p: 1, u: 2 }"
    if macro == "plain":
        d = d.replace("@T", tv).replace("@F", fv).replace("@G", gv)
    else:
        d = "macro_rules! m { ($t:vis, $f:vis, $g:vis, x) => { %s } } m!(%s, %s, %s, x);" % (d.replace("@T", "$t").replace("@F", "$f").replace("@G", "$g"), tv, fv, gv)
    return d + " #[allow(private_interfaces)] pub fn mk() -> Pin<Box<S>> { Box::pin(mk1()) } #[allow(private_interfaces)] pub fn mk1() -> S { %s }" % mk


def use_method(site, m):
    acc, arg, _, _ = METHODS[m]
    p = PATH[site]
    return "pub fn use_it() { let mut v = %s::mk(); let _x = v.%s().%s(%s); }" % (p, acc, m, arg and "%s::%s" % (p, arg))


def use_field(site, m, kind, which, how):
    acc, arg, ty, lt = METHODS[m]
    p = PATH[site]
    f = {"named": which, "tuple": "0" if which == "p" else "1"}[kind]
    call = "v.%s().%s(%s)" % (acc, m, arg and "%s::%s" % (p, arg))
    if how == "read":
        return "pub fn use_it() { let mut v = %s::mk(); let x = %s; let _y = &x.%s; }" % (p, call, f)
    return "pub fn use_it() { let mut v = %s::mk(); let %s::%s { %s: _z, .. } = %s; }" % (p, p, ty, f, call)


def use_name(site, ty):
    lt = "<'x>" if ty != "SO" else ""
    return "#[allow(private_interfaces)] pub fn use_it<'x>(_: %s::%s%s) {}" % (PATH[site], ty, lt)


def use_import(site, ty, vis):
    return "%s use %s::%s as Q;" % (vis, PATH[site], ty) if site != "b" else "%s use self::%s as Q;" % (vis, ty)


def in_crate(c):
    rng = random.Random("C13/%s" % c.seed)
    acc, rej = [], []

    def add(name, src, ok, why):
        (acc.append((name, src)) if ok else rej.append((name, src, why)))
    for tv, tsites in VIS.items():
        for kind in ("named", "tuple", "enum"):
            for site in ALL:
                for macro in ("plain", "fragment"):
                    if tv.startswith("pub(in s") and macro == "fragment" and False:
                        continue
                    d = declaration(kind, tv, "" if kind == "enum" else "pub", macro)
                    for m in METHODS:
                        if site in tsites:
                            add("method/%s/%s/%s/%s/%s" % (tv, kind, site, m, macro), tree(d, site, use_method(site, m)), True, "")
                    for m, (_, _, ty, _) in METHODS.items():
                        add("name/%s/%s/%s/%s/%s" % (tv, kind, site, ty, macro), tree(d, site, use_name(site, ty)), site in tsites,
                            "the projection type of a `%s` type is named from a place that cannot name the type" % tv)
    for tv in VIS if c.thorough else ("", "pub(super)", "pub(in super::super)", "pub(crate)", "pub"):
        for fv, fsites in VIS.items():
            for kind in ("named", "tuple"):
                for site in ALL:
                    if site not in VIS[tv]:
                        continue
                    for m in METHODS:
                        which = rng.choice(["p", "u"])
                        for which in ("p", "u"):
                            how = rng.choice(["read", "read", "match"])
                            macro = rng.choice(["plain", "plain", "fragment"])
                            named = how == "match" or rng.random() < 0.5
                            d = declaration(kind, tv, fv, macro, named, rng.choice(list(VIS)), which)
                            add("field/%s/%s/%s/%s/%s/%s/%s/%s" % (tv, fv, kind, site, m, which, how, macro), tree(d, site, use_field(site, m, kind, which, how)), site in fsites,
                                "field declared `%s` is reached through the projection from a place that cannot reach it on the type" % fv)
    # re-exports: a projection type cannot be exported beyond the crate
    for tv in ("pub", "pub(crate)", "pub(super)", ""):
        for kind in ("named", "tuple", "enum"):
            d = declaration(kind, tv, "" if kind == "enum" else "pub", "plain")
            for ty in ("SP", "SR", "SO"):
                add("reexport/%s/%s/%s" % (tv, kind, ty), tree(d, "b", use_import("b", ty, "pub")), False, "a projection type is at most crate-visible")
                if tv in ("pub", "pub(crate)"):
                    add("reexport-crate/%s/%s/%s" % (tv, kind, ty), tree(d, "b", use_import("b", ty, "pub(crate)")), True, "")
    # privacy of some fields only
    for kind, d, pat in (("named", "pub struct S { #[pin] pub p: u8, u: u8 }", "{ p: _, u: _ }"), ("tuple", "pub struct S(#[pin] pub u8, u8);", "(_, _)")):
        for m, (a, arg, ty, _) in METHODS.items():
            dd = "#[pin_project(project = SP, project_ref = SR, project_replace = SO)] " + d
            dd += " pub fn mk() -> Pin<Box<S>> { Box::pin(mk1()) } pub fn mk1() -> S { %s }" % ("S { p: 1, u: 2 }" if kind == "named" else "S(1, 2)")
            for site in ALL:
                p = PATH[site]
                use = "pub fn use_it() { let mut v = %s::mk(); let %s::%s %s = v.%s().%s(%s); }" % (p, p, ty, pat, a, m, arg and p + "::" + arg)
                add("mixed/%s/%s/%s" % (kind, site, m), tree(dd, site, use), site in ("b", "c"), "a private field of the projection is matched")
    return acc, rej


LIB = """#![allow(warnings)]
#[macro_export] macro_rules! make_in { ($vis:vis $n:ident) => { #[$crate::export::pin_project(project = MP)] $vis struct $n { #[pin] $vis a: u8 } } }
pub mod export { pub use pin_project::pin_project; }
pub mod m {
    use pin_project::{pin_project, pinned_drop};
    use std::pin::Pin;
    #[pin_project(project = NP, project_ref = NR, project_replace = NO)] pub struct N { #[pin] pub p: u8, pub u: u8 }
    #[pin_project(project = TP, project_ref = TR, project_replace = TO)] pub struct T(#[pin] pub u8, pub u8);
    #[pin_project(project = EP, project_ref = ER, project_replace = EO)] pub enum E { A { #[pin] p: u8, u: u8 }, B(#[pin] u8, u8) }
    #[pin_project(project_replace)] pub struct U { #[pin] pub p: u8, pub u: u8 }
    #[pin_project(project = GP, project_ref = GR, project_replace = GO)] pub struct G<X> { #[pin] pub p: X, pub u: u8 }
    #[pin_project(project = DP, PinnedDrop)] pub struct D { #[pin] pub p: u8, pub u: u8 }
    #[pinned_drop] impl PinnedDrop for D { fn drop(self: Pin<&mut Self>) {} }
    pub fn n() -> N { N { p: 1, u: 2 } } pub fn t() -> T { T(1, 2) } pub fn e() -> E { E::A { p: 1, u: 2 } } pub fn u() -> U { U { p: 1, u: 2 } } pub fn g() -> G<u8> { G { p: 1, u: 2 } } pub fn d() -> D { D { p: 1, u: 2 } }
    impl N { pub fn get(self: Pin<&mut Self>) -> (Pin<&mut u8>, &mut u8) { let x = self.project(); (x.p, x.u) } }
}
"""


def cross_crate(c):
    d = os.path.join(c.wd.path, "lib")
    os.makedirs(d)
    out = os.path.join(d, "libother.rlib")
    r = c.rustc(LIB, name="lib", emit="link", crate_type="rlib", out=out, crate="other", extra=["-C", "metadata=other"])
    if not r.ok:
        c.violate("rejected/library", "library with public annotated types rejected: " + (r.brief() or r.raw[-500:]), src=LIB)
        return
    kw = dict(externs=("pin_project", "vrt", "other=" + out))
    acc, rej = [], []
    for fn in "n t e u g d".split():
        for m, arg in (("project", ""), ("project_ref", ""), ("project_replace", "other::m::%s()" % fn)):
            if fn == "d" and m == "project_replace":
                continue
            a = "as_ref" if m == "project_ref" else "as_mut"
            rej.append(("cross/method/%s/%s" % (fn, m), "pub fn f() { let mut v = Box::pin(other::m::%s()); let _ = v.%s().%s(%s); }" % (fn, a, m, arg), "projection methods are not part of the public API"))
            acc.append(("cross/type/%s/%s" % (fn, m), "pub fn f() { let mut v = Box::pin(other::m::%s()); let _ = v.%s(); }" % (fn, a)))
    for ty in "NP NR NO TP TR TO EP ER EO GP GR GO DP".split():
        rej.append(("cross/import/" + ty, "use other::m::%s;" % ty, "projection types are not part of the public API"))
        rej.append(("cross/path/" + ty, "pub fn f() { let _ = ::core::mem::size_of::<other::m::%s>(); }" % (ty + ("<'static, u8>" if ty in ("GP", "GR") else "<u8>" if ty == "GO" else "<'static>" if ty[1] != "O" else "")), "projection types are not part of the public API"))
    for ty in ("N", "T", "E", "U", "G", "D"):
        acc.append(("cross/import/" + ty, "use other::m::%s;" % ty))
    acc.append(("cross/wrapper", "pub fn f() { let mut v = Box::pin(other::m::n()); let (p, u) = v.as_mut().get(); *u = *p; }"))
    acc.append(("cross/macro", "other::make_in!(pub Here); pub fn f() { let mut v = Box::pin(Here { a: 1 }); let MP { a } = v.as_mut().project(); }"))
    # fields of the public type itself stay public
    acc.append(("cross/fields", "pub fn f() { let n = other::m::n(); let other::m::N { p, u } = n; let t = other::m::t(); let _ = (t.0, t.1); let other::m::T(_, _) = t; match other::m::e() { other::m::E::A { p, u } => {}, other::m::E::B(a, b) => {} } }"))
    verdict.reject_batch(c, rej, **kw)
    verdict.accept_batch(c, acc, **kw)


def c13(c):
    acc, rej = in_crate(c)
    c.count("places_that_may", len(acc))
    c.count("places_that_may_not", len(rej))
    # resolution errors and privacy errors come from different compiler phases
    verdict.reject_batch(c, [x for x in rej if x[0].startswith(("name/", "reexport"))], head="#![allow(warnings)]\n")
    verdict.reject_batch(c, [x for x in rej if not x[0].startswith(("name/", "reexport"))], head="#![allow(warnings)]\n")
    verdict.accept_batch(c, acc, per=60)
    cross_crate(c)
    rnd.c13(c, c.pick(300, 4000))
    c.rule = "type visibility x field visibility x kind x projection x place of use in a module tree (accepted and rejected uses), delivered plainly and through visibility fragments, plus another crate; distinct by that tuple"
