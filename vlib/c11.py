"""C11: packed layouts never get projections; every other layout hands out aligned references."""
from . import generic, suite, verdict

PRE = """#![allow(warnings)]
use pin_project::{pin_project, pinned_drop};
use core::pin::Pin;
"""
SP = ["repr(packed)", "repr(packed(1))", "repr(packed(2))", "repr(packed(4))", "repr(C, packed)", "repr(packed, C)", "repr(C, packed(2))", "repr(packed(1), C)", "repr(Rust, packed)",
      "repr( packed )", "repr(packed,)", "repr(C,packed,)"]
BODY = {
    "named-last": "struct S { a: u8, #[pin] b: u64 }",
    "named-first": "struct S { #[pin] b: u64, a: u8 }",
    "named-unpinned": "struct S { #[pin] a: u8, b: u64 }",
    "named-middle": "struct S { a: u8, b: u64, #[pin] c: u8 }",
    "tuple": "struct S(u8, #[pin] u64);",
    "tuple-unpinned": "struct S(#[pin] u8, u64);",
    "single": "struct S { #[pin] b: u64 }",
    "nopin": "struct S { a: u8, b: u64 }",
    "ref": "struct S<'a> { a: u8, #[pin] b: &'a u8 }",
    "string": "struct S(u8, #[pin] u64, u8);",
    "raw": "struct S { a: u8, #[pin] r#type: u64 }",
    "generic": "struct S<T: Copy> { a: u8, #[pin] b: T }",
    "array": "struct S { a: u8, #[pin] b: [u64; 2] }",
    "ptr": "struct S { a: u8, b: *const u8, #[pin] c: u8 }",
    "many": "struct S(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, #[pin] u64, u8);",
}
ARGS = ["", "(project = P, project_ref = R)", "(project_replace)", "(!Unpin)", "(PinnedDrop)"]


def programs():
    out = []
    for bn, body in BODY.items():
        for i, sp in enumerate(SP):
            if bn not in ("named-last", "tuple", "named-unpinned", "generic") and i not in (0, 2, 4):
                continue
            k = 0
            for place in ("#[pin_project%A]\n#[%P]", "#[%P]\n#[pin_project%A]", "#[pin_project%A]\n#[cfg_attr(all(), %P)]", "#[cfg_attr(not(any()), %P)]\n#[pin_project%A]",
                          "#[pin_project%A]\n#[cfg_attr(all(), cfg_attr(all(), %P))]", "#[pin_project%A]\n#[repr(C)]\n#[%P]", "#[%P]\n#[repr(C)]\n#[pin_project%A]",
                          "#[pin_project%A]\n/// doc\n#[allow(unused)]\n#[%P]", "#[derive(Clone, Copy)]\n#[pin_project%A]\n#[%P]", "#[cfg_attr(all(), allow(unused), %P)]\n#[pin_project%A]"):
                if "repr(C)" in place and "Rust" in sp:
                    continue
                k += 1
                if i and k > 2 and bn != "named-last":
                    continue
                a = ARGS[(i + k + len(bn)) % len(ARGS)]
                if "Copy" in place and "PinnedDrop" in a:
                    a = ""
                if "Copy" in place and "&'a" in body:
                    pass
                g = "<T: Copy>" if bn == "generic" else ("<'a>" if bn == "ref" else "")
                ta = "<T>" if bn == "generic" else g
                pd = "#[pinned_drop] impl%s PinnedDrop for S%s { fn drop(self: Pin<&mut Self>) {} }\n" % (g, ta) if "PinnedDrop" in a else ""
                attrs = place.replace("%A", a)
                bad = attrs.replace("%P", sp)
                good = attrs.replace("%P", "allow(unused)")
                bl = "\n".join(l + " //~" if "///" not in l else l for l in bad.split("\n"))
                gl = "\n".join(l + " //=" for l in good.split("\n") if "///" not in l)
                out += verdict.attack("packed/%s/%d/%d" % (bn, i, k), PRE + bl + "\n" + gl + "\n" + body + "\n" + pd, "packed: " + sp)
            # hidden by other macros
            for j, place in enumerate(("#[pin_project%A]\n#[vaux::hidden_attr(%P)]", "#[vaux::hidden_attr(%P)]\n#[pin_project%A]", "#[pin_project%A]\n#[vaux::hidden_attr(cfg_attr(all(), %P))]",
                                       "#[vaux::hidden_attr(cfg_attr(not(any()), %P))]\n#[pin_project%A]", "#[pin_project%A]\n#[vaux::identity]\n#[vaux::hidden_attr(%P)]", "#[vaux::identity]\n#[pin_project%A]\n#[%P]",
                                       "#[pin_project%A]\n#[derive(vaux::Nop)]\n#[vaux::hidden_attr(%P)]", "#[pin_project%A]\n#[vaux::identity]\n#[%P]", "#[vaux::hidden_attr(%P)]\n#[vaux::identity]\n#[pin_project%A]",
                                       "#[derive(vaux::Nop)]\n#[pin_project%A]\n#[vaux::hidden_attr(%P)]", "#[pin_project%A]\n#[vaux::hidden_attr(vaux::hidden_attr(%P))]")):
                if i and j > 3:
                    continue
                attrs = place.replace("%A", ARGS[(j + i) % 4])
                bl = "\n".join(l + " //~" for l in attrs.replace("%P", sp).split("\n"))
                gl = "\n".join(l + " //=" for l in attrs.replace("%P", "allow(unused)").split("\n"))
                out += verdict.attack("hidden/%s/%d/%d" % (bn, i, j), PRE + bl + "\n" + gl + "\n" + body + "\n", "hidden packed: " + sp, externs=("pin_project", "vrt", "vaux"))
            # added to the item by replacing it below the attribute, and through macro_rules
            out += verdict.attack("macro/%s/%d" % (bn, i), PRE + "macro_rules! mk { ($r:meta, $($t:tt)*) => { #[pin_project] #[$r] $($t)* } }\nmk! { %s, %s } //~\nmk! { allow(unused), %s } //=\n" % (sp, body, body), "packed through macro_rules")
            out += verdict.attack("replaced/%s/%d" % (bn, i), PRE + "#[pin_project]\n#[vaux::replace_item(#[%s] %s)] //~\n#[vaux::replace_item(%s)] //=\nstruct Unused { x: u8 }\n" % (sp, body, body), "packed item substituted below the attribute", externs=("pin_project", "vrt", "vaux")) if False else []
    # enums: the compiler or the macro must refuse
    for sp in SP[:6]:
        out += verdict.reject("enum/" + sp, PRE + "#[pin_project(project = P)] #[%s] enum S { A(u8, #[pin] u64), B }\n" % sp)
        out += verdict.reject("enum-before/" + sp, PRE + "#[%s] #[pin_project(project = P)] enum S { A(u8, #[pin] u64), B }\n" % sp)
    for sp in ("repr(packed = \"1\")", "repr(packed = 1)", "repr(packed())", "repr(packed(3))", "repr(packed(\"1\"))"):
        out += verdict.reject("malformed/" + sp, PRE + "#[pin_project] #[%s] struct S { a: u8, #[pin] b: u64 }\n" % sp)
    return out


def cases():
    out = []
    probe = "fn al<T: ?Sized>(r: &T) { let a = r as *const T as *const u8 as usize; vrt::ck(a % ::core::mem::align_of_val(r) == 0, || format!(\"misaligned {:#x}\", a)); }\n"
    reprs = ["repr(C)", "repr(align(1))", "repr(align(2))", "repr(align(16))", "repr(align(256))", "repr(C, align(64))", "repr(Rust)", "repr(align(4), C)"]
    k = 0
    for r in reprs:
        for place in ("#[pin_project(ARGS)] #[%s]", "#[%s] #[pin_project(ARGS)]", "#[pin_project(ARGS)] #[cfg_attr(all(), %s)]", "#[vaux::hidden_attr(%s)] #[pin_project(ARGS)]", "#[pin_project(ARGS)] #[vaux::hidden_attr(%s)]"):
            if "Rust" in r and "hidden" in place:
                pass
            k += 1
            a = place % r
            named = a.replace("ARGS", "project_replace") + " pub struct S<T> { a: u8, #[pin] b: T, c: u16, #[pin] d: u64, e: u8 }"
            tup = a.replace("ARGS", "project = P") + " pub struct T<X>(u8, #[pin] X, u8, u64, #[pin] u16);"
            obs = ("for i in 0..9u8 { let mut v: Vec<Pin<Box<S<u128>>>> = (0..3).map(|_| Box::pin(S { a: i, b: 1u128, c: 2, d: 3, e: 4 })).collect(); for x in v.iter_mut() { { let p = x.as_mut().project(); al(p.a); al(&*p.b); al(p.c); al(&*p.d); al(p.e); } { let p = x.as_ref().project_ref(); al(p.a); al(&*p.b); al(p.c); al(&*p.d); al(p.e); } let o = x.as_mut().project_replace(S { a: 9, b: 2, c: 3, d: 4, e: 5 }); al(&o.c); vrt::eq(o.a, i); vrt::eq(o.c, 2); } "
                   "let mut w = Box::pin(T(1, 2u32, 3, 4, 5)); { let p = w.as_mut().project(); al(p.0); al(&*p.1); al(p.2); al(p.3); al(&*p.4); } let p = w.as_ref().project_ref(); al(p.3); al(&*p.4); }")
            out.append(suite.Case("repr/%s/%d" % (r, k), "use pin_project::pin_project; use ::core::pin::Pin;\n" + named + "\n" + tup + "\n" + probe + "pub fn run() { " + obs + " }"))
    for r in ["repr(C)", "repr(u8)", "repr(i64)", "repr(C, u8)", "repr(u16, C)", "repr(isize)", "repr(align(32))", "repr(u8, align(8))"]:
        for place in ("#[pin_project(project = P, project_ref = R, project_replace = O)] #[%s]", "#[%s] #[pin_project(project = P, project_ref = R, project_replace = O)]", "#[vaux::hidden_attr(%s)] #[pin_project(project = P, project_ref = R, project_replace = O)]"):
            k += 1
            e = place % r + " pub enum S<T> { A { x: u8, #[pin] y: T, z: u64 }, B(u8, #[pin] u16, #[pin] T), C }"
            obs = ("let mut v = vec![S::A { x: 1, y: 2u128, z: 3 }, S::B(1, 2, 3), S::C]; for x in v.iter_mut() { let mut x = Pin::new(x); match x.as_mut().project() { P::A { x, y, z } => { al(x); al(&*y); al(z); } P::B(a, b, c) => { al(a); al(&*b); al(&*c); } P::C => vrt::ck(true, || String::new()) } match x.as_ref().project_ref() { R::A { x, y, z } => { al(x); al(&*y); al(z); } R::B(a, b, c) => { al(a); al(&*b); al(&*c); } R::C => {} } match x.as_mut().project_replace(S::C) { O::A { x, z, .. } => { vrt::eq((x, z), (1, 3)); } O::B(a, ..) => vrt::eq(a, 1), O::C => {} } }")
            out.append(suite.Case("enum-repr/%s/%d" % (r, k), "use pin_project::pin_project; use ::core::pin::Pin;\n" + e + "\n" + probe + "pub fn run() { " + obs + " }"))
    for i, place in enumerate(("#[pin_project] #[repr(transparent)]", "#[repr(transparent)] #[pin_project]", "#[pin_project] #[vaux::hidden_attr(repr(transparent))]")):
        out.append(suite.Case("transparent/%d" % i, "use pin_project::pin_project; use ::core::pin::Pin;\n" + place + " pub struct S<T>(#[pin] T, (), ::core::marker::PhantomData<u8>);\n" + place + " pub struct U<T> { #[pin] t: T }\n" + probe +
                              "pub fn run() { vrt::eq(::core::mem::size_of::<S<u32>>(), 4); let mut v = Box::pin(S(1u64, (), ::core::marker::PhantomData)); { let p = v.as_mut().project(); al(&*p.0); al(p.1); al(p.2); } let mut u = Box::pin(U { t: 3u128 }); al(&*u.as_mut().project().t); al(&*u.as_ref().project_ref().t); }"))
    # declared layouts that only mention the word
    out.append(suite.Case("word", "use pin_project::pin_project; use ::core::pin::Pin; pub struct Packed(u64);\n#[pin_project] #[doc = \"repr(packed)\"] #[cfg_attr(any(), repr(packed))] pub struct S { packed: u8, #[pin] repr: Packed }\n" + probe +
                          "pub fn run() { let mut v = Box::pin(S { packed: 1, repr: Packed(2) }); let p = v.as_mut().project(); al(p.packed); al(&*p.repr); }"))
    return out


def c11(c):
    generic.attacks(c, c.pick(4000, 30000), "C11")
    verdict.decide(c, programs())
    suite.run_suite(c, cases(), per=16, externs=("pin_project", "vrt", "vaux"))
    c.rule = "packed in every spelling, position, conditional form and through other macros x field shapes (rejected, twin without packing accepted); every other representation run with all projected references checked for alignment; distinct by (shape, spelling, position)"
