"""C14: the generated API is exactly what was requested."""
import itertools
import json
import os
import random
import shutil
from . import core, generic, rnd, suite, verdict

PRE = "use pin_project::{pin_project, pinned_drop, UnsafeUnpin}; use ::core::pin::Pin; use ::core::marker::{PhantomPinned, PhantomData};\n"

SHAPES = {
    "named": ("struct S { #[pin] p: u8, u: u16 }", "S { p: 1, u: 2 }", "", "{ p: _, u: _ }"),
    "tuple": ("struct S(#[pin] u8, u16);", "S(1, 2)", "", "(_, _)"),
    "generic": ("struct S<'a, T: 'a, const N: usize> { #[pin] p: T, u: &'a [u8; N] }", "S { p: 1u8, u: &[0u8; 3] }", "<'static, u8, 3>", "{ p: _, u: _ }"),
    "enum": ("enum S { A { #[pin] p: u8, u: u16 }, B(#[pin] u8), C }", "S::B(1)", "", None),
    "genum": ("enum S<'a, T> { A { #[pin] p: T, u: &'a u16 }, B(#[pin] T), C }", "S::B(1u8)", "<'static, u8>", None),
    "nopin": ("struct S { p: u8, u: u16 }", "S { p: 1, u: 2 }", "", "{ p: _, u: _ }"),
    "allpin": ("struct S(#[pin] u8, #[pin] u16);", "S(1, 2)", "", "(_, _)"),
    "drops": ("struct S { #[pin] p: String, u: Vec<u8> }", "S { p: String::new(), u: vec![1] }", "", "{ p: _, u: _ }"),
    "wheres": ("struct S<T> where T: ::core::fmt::Debug { #[pin] p: T, u: u16 }", "S { p: 1u8, u: 3 }", "<u8>", "{ p: _, u: _ }"),
    "unpinonly": ("enum S { A(String), B { v: Vec<u8> } }", "S::A(String::new())", "", None),
}
ARGSETS = [(p, r, o, x) for p, r, o, x in itertools.product(("", "PM"), ("", "PR"), ("", "!", "PO"), ("", "PinnedDrop", "!Unpin", "UnsafeUnpin", "PinnedDrop, !Unpin", "UnsafeUnpin, PinnedDrop"))
           if not (o and "PinnedDrop" in x)]


def attr(p, r, o, x):
    a = ([x] if x else []) + (["project = " + p] if p else []) + (["project_ref = " + r] if r else []) + (["project_replace"] if o == "!" else ["project_replace = " + o] if o else [])
    return "#[pin_project(%s)]" % ", ".join(a) if a else "#[pin_project]"


def is_enum(k):
    return SHAPES[k][0].startswith("enum")


def methods(kind, p, r, o):
    m = set()
    if is_enum(kind):
        m |= {"project"} if p else set()
        m |= {"project_ref"} if r else set()
    else:
        m |= {"project", "project_ref"}
    m |= {"project_replace"} if o else set()
    return m


def gens(kind):
    d = SHAPES[kind][0]
    return {"generic": ("<'a, T: 'a, const N: usize>", "<'a, T, N>", ""), "genum": ("<'a, T>", "<'a, T>", ""), "wheres": ("<T>", "<T>", " where T: ::core::fmt::Debug")}.get(kind, ("", "", ""))


def drop_impl(kind, x):
    if "PinnedDrop" not in x:
        return ""
    ig, tg, w = gens(kind)
    return "#[pinned_drop] impl%s PinnedDrop for S%s%s { fn drop(self: Pin<&mut Self>) {} }\n" % (ig, tg, w)


def combos():
    for kind in SHAPES:
        for p, r, o, x in ARGSETS:
            if is_enum(kind) and o == "!":
                continue
            yield kind, p, r, o, x


TRAITS = ["Clone", "Copy", "::core::fmt::Debug", "::core::fmt::Display", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "::core::hash::Hash", "::core::ops::Deref", "Iterator", "::core::future::Future", "Drop", "AsRef<u8>", "AsRef<u16>", "::core::ops::DerefMut", "::core::borrow::Borrow<u16>", "From<u8>", "From<u16>"]


def call(m, kind):
    mk = SHAPES[kind][1]
    return {"project": "v.as_mut().project()", "project_ref": "v.as_ref().project_ref()", "project_replace": "v.as_mut().project_replace(%s)" % mk}[m]


def main_cases(c):
    acc, rej = [], []
    rng = random.Random("C14/%s" % c.seed)
    for kind, p, r, o, x in combos():
        decl, mk, inst, pat = SHAPES[kind]
        at = attr(p, r, o, x)
        base = PRE + "%s pub %s\n%s" % (at, decl, drop_impl(kind, x))
        ms = methods(kind, p, r, o)
        name = "%s %s" % (at, kind)
        b = "    let mut v = Box::pin(%s);\n" % mk
        names = {"project": p, "project_ref": r, "project_replace": o if o != "!" else ""}
        for m in ("project", "project_ref", "project_replace"):
            ty = names[m]
            if m in ms:
                if ty:
                    lt = inst if m == "project_replace" else ("<'_, " + inst[1:] if inst else "<'_>")
                    b += "    { let x: %s%s = %s; vrt::ck(true, || String::new());\n" % (ty, lt, call(m, kind))
                    if pat:
                        b += "      let %s %s = x; }\n" % (ty, pat)
                    elif kind == "unpinonly":
                        b += "      match x { %s::A(_) => {} %s::B { v: _ } => {} } }\n" % (ty, ty)
                    else:
                        b += "      match x { %s::A { p: _, u: _ } => {} %s::B(_) => {} %s::C => {} } }\n" % (ty, ty, ty)
                    st = lt.replace("'_", "'static")
                    for t in TRAITS:
                        b += "    vrt::leq(\"%s: %s\", vrt::is!(%s%s: %s), false);\n" % (ty, t, ty, st, t)
                    if m == "project_replace":
                        b += "    vrt::leq(\"needs_drop\", ::core::mem::needs_drop::<%s%s>(), %s);\n" % (ty, st, "true" if kind in ("drops", "unpinonly") else "false")
                    else:
                        b += "    vrt::leq(\"needs_drop\", ::core::mem::needs_drop::<%s%s>(), false);\n" % (ty, st)
                else:
                    b += "    { let x = %s; vrt::ck(true, || String::new()); vrt::leq(\"needs_drop\", nd(&x), %s); }\n" % (call(m, kind), "true" if m == "project_replace" and kind == "drops" else "false")
            # a name that is not generated is free for the user
        free = [m for m in ("project", "project_ref", "project_replace") if m not in ms]
        ig, tg, w = gens(kind)
        user = "    pub fn new_() {} pub fn project_mut(self: Pin<&mut Self>) -> u8 { 1 } pub fn projection(&self) -> u8 { 2 } pub fn get_ref(&self) {} pub fn drop(&self) -> u8 { 3 } pub fn unpin(&self) {} pub fn pin(&self) {} pub fn assert_not_repr_packed(&self) {} pub fn replace(&self) {} pub fn drop_inner(&self) {}\n"
        for m in free:
            user += "    pub fn %s(&self) -> &'static str { \"mine\" }\n" % m
            b += "    vrt::leq(\"user method\", v.%s(), \"mine\");\n" % m
        umod = "impl%s S%s%s {\n%s}\n" % (ig, tg, w, user)
        for m in free:
            rej.append(("absent %s %s" % (m, name), base + "pub fn f() { let mut v = Box::pin(%s); let _ = %s; }" % (mk, call(m, kind)), "the method was not requested"))
        for t in TRAITS:
            want = t == "Drop" and "PinnedDrop" in x
            b += "    vrt::leq(\"S: %s\", vrt::is!(S%s: %s), %s);\n" % (t, inst, t, str(want).lower())
        # names a program could probe
        unnamed = [n for n in ("PM", "PR", "PO") if n not in (p, r, o)]
        for n in unnamed + ["SProjection", "SProjectionRef", "SProjectionOwned", "Projection", "ProjectionRef", "ProjectionOwned", "SMustNotImplDrop", "MustNotImplDrop", "SProj", "SProjRef", "Wrapper", "PinnedFieldsOf", "PinnedDropImpl"]:
            if rng.random() < c.pick(0.15, 1.0):
                rej.append(("name %s %s" % (n, name), base + "use self::%s as Q;" % n, "the name is not generated"))
        for n in ("__SProjection", "__SProjectionRef", "__SProjectionOwned", "__S"):
            if rng.random() < c.pick(0.3, 1.0):
                rej.append(("unnameable %s %s" % (n, name), base + "use self::%s as Q;" % n, "a projection type that was not named is not nameable"))
        # user items with those names coexist
        items = "".join("pub struct %s_(u8); pub mod %s {} pub fn %s() {}\n" % (n, n.lower() + "m", n.lower()) for n in ("Projection", "Replace", "Pinned"))
        items += "".join("pub struct %s;\n" % n for n in unnamed)
        items += "pub fn project() {} pub fn project_ref() {} pub fn project_replace() {} pub mod pin {} pub trait ProjectExt { fn project_it(&self) {} } pub struct SProjection; pub struct SProjectionRef; pub struct SProjectionOwned; pub trait MustNotImplDrop {} pub fn assert_not_repr_packed() {}\n"
        acc.append(suite.Case(name, base + umod + items + "fn nd<T>(_: &T) -> bool { ::core::mem::needs_drop::<T>() }\npub fn run() {\n%s}\n" % b, key=name))
        # unnamed projections implement nothing either
        for m in ms:
            if not names[m]:
                for t in rng.sample(TRAITS[:13], c.pick(2, 13)):
                    rej.append(("trait %s %s %s" % (t, m, name), base + "fn need<T: %s>(_: T) {} pub fn f() { let mut v = Box::pin(%s); need(%s); }" % (t, mk, call(m, kind)), "projection types implement no traits"))
    return acc, rej


def coexist():
    """Several annotated types and projections side by side."""
    out = []

    def add(n, s):
        out.append(suite.Case("coexist/" + n, PRE + s, key="coexist/" + n))
    add("same scope", "#[pin_project] struct A(#[pin] u8); #[pin_project] struct B(#[pin] u8); #[pin_project(project = P)] enum C { V(#[pin] u8) } #[pin_project(project = P2)] enum D { V(#[pin] u8) }\n"
        "pub fn run() { let mut a = Box::pin(A(1)); let mut b = Box::pin(B(2)); let mut c = Box::pin(C::V(3)); let mut d = Box::pin(D::V(4)); let x = a.as_mut().project(); let y = b.as_mut().project(); let P::V(z) = c.as_mut().project(); let P2::V(w) = d.as_mut().project(); vrt::leq(\"sum\", *x.0 + *y.0 + *z + *w, 10); }")
    add("inside functions", "fn one() -> u8 { #[pin_project(project = P)] struct S { #[pin] a: u8 } let mut s = Box::pin(S { a: 4 }); let P { a } = s.as_mut().project(); *a }\nfn two() -> u8 { #[pin_project(project = P)] struct S(#[pin] u8); let mut s = Box::pin(S(5)); let P(a) = s.as_mut().project(); *a }\n"
        "pub fn run() { #[pin_project(project = P, PinnedDrop)] enum S { A { #[pin] x: u8 } } #[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) { vrt::say(1); } } { let mut s = Box::pin(S::A { x: 6 }); let P::A { x } = s.as_mut().project(); vrt::leq(\"x\", *x + one() + two(), 15); } vrt::leq(\"d\", vrt::said().len(), 1); }")
    add("prefix names", "#[pin_project] struct S(#[pin] u8); #[pin_project] struct SProjection(#[pin] u8); #[pin_project(project = SP)] struct SProj(#[pin] u8); #[pin_project] struct SProjectionRef(#[pin] u8); #[pin_project(project_replace)] struct SProjectionOwned(#[pin] u8);\n"
        "pub fn run() { let mut a = Box::pin(S(1)); let mut b = Box::pin(SProjection(2)); vrt::leq(\"s\", *a.as_mut().project().0 + *b.as_mut().project().0, 3); }")
    add("user trait project", "#[pin_project] struct S { #[pin] a: u8 } trait Project { fn project(&self) -> u8; fn project_ref(&self) -> u8; } impl Project for S { fn project(&self) -> u8 { 9 } fn project_ref(&self) -> u8 { 8 } }\n"
        "pub fn run() { let mut s = Box::pin(S { a: 1 }); vrt::leq(\"inherent\", *s.as_mut().project().a, 1); vrt::leq(\"trait\", Project::project(&*s), 9); let r: &S = &s; vrt::leq(\"by ref\", Project::project_ref(r), 8); }")
    add("field names", "#[pin_project(project_replace)] struct S { #[pin] project: u8, project_ref: u8, project_replace: u8, drop: u8, unpin: u8, pin: u8, this: u8, value: u8, replacement: u8, guard: u8, result: u8, ptr: u8 }\n"
        "fn mk() -> S { S { project: 1, project_ref: 2, project_replace: 3, drop: 4, unpin: 5, pin: 6, this: 7, value: 8, replacement: 9, guard: 10, result: 11, ptr: 12 } }\n"
        "pub fn run() { let mut s = Box::pin(mk()); let p = s.as_mut().project(); vrt::leq(\"sum\", *p.project + *p.project_ref + *p.project_replace + *p.drop + *p.unpin + *p.pin + *p.this + *p.value + *p.replacement + *p.guard + *p.result + *p.ptr, 78); let o = s.as_mut().project_replace(mk()); vrt::leq(\"o\", o.project_ref + o.ptr, 14); }")
    add("variant names", "#[pin_project(project = EP, project_ref = ER, project_replace = EO)] enum E { Pin(#[pin] u8), Some { project: u8 }, None, Drop(u8), Unpin, PhantomData(#[pin] u16), Result(u8), Option(#[pin] u8), Box(u8), Ok(u8), Err(u8), Vec(u8) }\n"
        "pub fn run() { let mut e = Box::pin(E::Some { project: 4 }); match e.as_mut().project() { EP::Some { project } => { *project += 1; } EP::Pin(_) | EP::None | EP::Drop(_) | EP::Unpin | EP::PhantomData(_) | EP::Result(_) | EP::Option(_) | EP::Box(_) | EP::Ok(_) | EP::Err(_) | EP::Vec(_) => vrt::ck(false, || \"variant\".into()) } match e.as_ref().project_ref() { ER::Some { project } => vrt::leq(\"v\", *project, 5), _ => vrt::ck(false, || \"variant\".into()) } match e.as_mut().project_replace(E::None) { EO::Some { project } => vrt::leq(\"v\", project, 5), _ => vrt::ck(false, || \"variant\".into()) } vrt::ck(matches!(*e, E::None), || \"none\".into()); }")
    add("projection names are ordinary", "#[pin_project(project = Pin2, project_ref = Option, project_replace = Result)] struct S { #[pin] a: u8, b: ::core::option::Option<u8> }\n"
        "pub fn run() { let mut s = Box::pin(S { a: 1, b: None }); let Pin2 { a, b } = s.as_mut().project(); let Option { a, b } = s.as_ref().project_ref(); vrt::leq(\"a\", *a, 1); let Result { a: _, b } = s.as_mut().project_replace(S { a: 2, b: Some(1) }); vrt::leq(\"b\", b, None); }")
    add("project_replace user when absent", "#[pin_project(PinnedDrop)] struct S { #[pin] a: u8 } #[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) {} } impl S { fn project_replace(self: Pin<&mut Self>, r: u8) -> u8 { let mut p = self.project(); let o = *p.a; p.a.set(r); o } }\n"
        "pub fn run() { let mut s = Box::pin(S { a: 1 }); vrt::leq(\"o\", s.as_mut().project_replace(5), 1); vrt::leq(\"n\", s.a, 5); }")
    add("exposed types usable in impls", "#[pin_project(project = P, project_ref = R, project_replace = O)] struct S<T> { #[pin] a: T, b: u8 } impl<'a, T> P<'a, T> { fn go(self) -> &'a mut u8 { self.b } } impl<T> Clone for R<'_, T> { fn clone(&self) -> Self { R { a: self.a, b: self.b } } } impl<T> ::core::fmt::Debug for O<T> { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { write!(f, \"O{}\", self.b) } } impl<T> Drop for O<T> { fn drop(&mut self) { vrt::say(self.b) } } impl<T> Default for O<T> { fn default() -> Self { O { a: PhantomData, b: 1 } } }\n"
        "pub fn run() { let mut s = Box::pin(S { a: 1u8, b: 2 }); *s.as_mut().project().go() += 1; let r = s.as_ref().project_ref(); let r2 = r.clone(); vrt::leq(\"r\", *r2.b, 3); vrt::leq(\"d\", format!(\"{:?}\", s.as_mut().project_replace(S { a: 1, b: 9 })), \"O3\".to_string()); vrt::leq(\"said\", vrt::said(), vec![\"3\".to_string()]); let _: O<u8> = Default::default(); }")
    return out


def inventory(c):
    """rustdoc's inventory of everything the expansion put into the user's namespace."""
    mods = []
    for kind, p, r, o, x in combos():
        decl = SHAPES[kind][0]
        mods.append((kind, p, r, o, x, "%s pub %s %s" % (attr(p, r, o, x), decl, drop_impl(kind, x).strip())))
    src = "#![allow(warnings)]\n" + "\n".join("pub mod k%d { %s %s }" % (i, PRE.strip(), m[5]) for i, m in enumerate(mods)) + "\n"
    d = os.path.join(c.wd.path, "inv")
    os.makedirs(d)
    path = os.path.join(d, "inv.rs")
    with open(path, "w") as f:
        f.write(src)
    cmd = ["rustdoc", path, "--edition", "2021", "--crate-type", "lib", "--crate-name", "inv", "--extern", "pin_project=" + c.art.ext["pin_project"],
           "-L", "dependency=" + c.art.deps, "-Z", "unstable-options", "--output-format", "json", "--document-private-items", "--document-hidden-items", "-A", "warnings", "-o", d]
    rc, so, se, st = core.run(cmd, env=core.env_clean({"RUSTC_BOOTSTRAP": "1"}), timeout=240)
    jp = os.path.join(d, "inv.json")
    if rc != 0 or not os.path.exists(jp):
        # a rejection is reported by the program suite; without inventory there is nothing to say here
        c.count("inventory_unavailable")
        return
    j = json.load(open(jp))
    idx, paths, ext = j["index"], j["paths"], j["external_crates"]

    def get(i):
        return idx.get(str(i))
    root = get(j["root"])
    for mid in root["inner"]["module"]["items"]:
        m = get(mid)
        if not m or "module" not in m["inner"]:
            continue
        i = int(m["name"][1:])
        kind, p, r, o, x, text = mods[i]
        name = "inventory %s %s" % (attr(p, r, o, x), kind)
        want = {"S"} | {n for n in (p, r, o) if n and n != "!"}
        got = set()
        seen = 0
        for iid in m["inner"]["module"]["items"]:
            it = get(iid)
            if not it:
                continue
            k = list(it["inner"])[0]
            if k in ("use", "import", "impl"):
                continue
            if it["name"] and not it["name"].startswith("_"):
                got.add(it["name"])
            seen += 1
            if k in ("struct", "enum"):
                for im in it["inner"][k]["impls"]:
                    ii = get(im)
                    if not ii:
                        continue
                    body = ii["inner"]["impl"]
                    if body.get("is_synthetic") or body.get("blanket_impl"):
                        continue
                    tr = body.get("trait")
                    if tr is None:
                        ms = {get(f)["name"] for f in body["items"] if get(f) and "function" in get(f)["inner"]}
                        ms = {n for n in ms if not n.startswith("_")}
                        allowed = methods(kind, p, r, o) if it["name"] == "S" else set()
                        if ms - allowed:
                            c.violate("inventory/" + name, "%s: unrequested methods %s on %s" % (name, sorted(ms - allowed), it["name"]), src=text)
                    else:
                        pt = paths.get(str(tr["id"]))
                        cr = ext.get(str(pt["crate_id"]), {}).get("name") if pt and pt["crate_id"] else None
                        tn = pt["path"][-1] if pt else tr.get("path", "")
                        if cr in ("core", "std", "alloc"):
                            ok = it["name"] == "S" and (tn == "Unpin" or (tn == "Drop" and "PinnedDrop" in x))
                            ok = ok or tn in ("Send", "Sync")  # decided by C22
                            if not ok:
                                c.violate("inventory/" + name, "%s: unrequested impl of %s for %s" % (name, tn, it["name"]), src=text)
                    seen += 1
        c.case(name, True)
        c.count("inventory_items", seen)
        if got != want:
            c.violate("inventory/" + name, "%s: names visible in the module are %s, expected %s" % (name, sorted(got), sorted(want)), src=text)
    shutil.rmtree(d, ignore_errors=True)


def c14(c):
    acc, rej = main_cases(c)
    suite.run_suite(c, acc, per=12)
    suite.run_suite(c, coexist(), per=4)
    res = [x for x in rej if x[0].startswith(("name ", "unnameable "))]
    verdict.reject_batch(c, res, head="#![allow(warnings)]\n")
    verdict.reject_batch(c, [x for x in rej if not x[0].startswith(("name ", "unnameable "))], head="#![allow(warnings)]\n")
    inventory(c)
    rnd.c14(c, c.pick(350, 4000))
    generic.attacks(c, c.pick(1500, 15000), "C14")
    c.rule = "every argument combination x ten declaration shapes: requested methods and types used, unrequested ones probed by verdict, trait probes on every projection, user items of the free names alongside, and rustdoc's inventory of the expansion, the same probes on random declarations; distinct by (arguments, shape, probe)"
