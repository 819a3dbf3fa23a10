"""C17: annotating a type does not change it. Runtime comparison with a plain twin of the same text."""
import json
import os
import random
import shutil
from . import core, generic, grun, suite, verdict

PRE = ("use pin_project::{pin_project, pinned_drop, UnsafeUnpin}; use ::core::marker::{PhantomData, PhantomPinned}; use ::std::{rc::Rc, cell::{Cell, RefCell, UnsafeCell}, sync::{Arc, Mutex, atomic::AtomicU8}, num::NonZeroU32};\n")

# (type, value expressions, const-constructible, needs drop, all the derivable traits, Copy)
FULL = [
    ("u8", ["1", "200"], 1, 0, 1), ("u16", ["7", "0"], 1, 0, 1), ("u32", ["70000", "3"], 1, 0, 1), ("u64", ["1 << 40", "2"], 1, 0, 1), ("u128", ["5", "6"], 1, 0, 1), ("bool", ["true", "false"], 1, 0, 1),
    ("char", ["'x'", "'y'"], 1, 0, 1), ("()", ["()"], 1, 0, 1), ("[u8; 3]", ["[1, 2, 3]", "[3; 3]"], 1, 0, 1), ("(u8, u32)", ["(1, 2)", "(0, 9)"], 1, 0, 1), ("&'static str", ["\"s\"", "\"\""], 1, 0, 1),
    ("Option<u8>", ["None", "Some(3)"], 1, 0, 1), ("Option<&'static u8>", ["None", "Some(&4)"], 1, 0, 1), ("PhantomData<u8>", ["PhantomData"], 1, 0, 1), ("PhantomPinned", ["PhantomPinned"], 1, 0, 1),
    ("PhantomData<Rc<u8>>", ["PhantomData"], 1, 0, 1), ("PhantomData<*const u8>", ["PhantomData"], 1, 0, 1), ("PhantomData<&'static Cell<u8>>", ["PhantomData"], 1, 0, 1),
    ("String", ["String::new()"], 1, 1, 0), ("Vec<u8>", ["Vec::new()"], 1, 1, 0), ("Box<u16>", ["Box::new(3)", "Box::new(9)"], 0, 1, 0), ("Rc<u8>", ["Rc::new(1)"], 0, 1, 0), ("Arc<u8>", ["Arc::new(1)"], 0, 1, 0),
    ("Option<Box<u8>>", ["None"], 1, 1, 0), ("Vec<Rc<u8>>", ["Vec::new()"], 1, 1, 0),
]
REST = [
    ("Cell<u8>", ["Cell::new(1)"], 1, 0), ("UnsafeCell<u32>", ["UnsafeCell::new(2)"], 1, 0), ("RefCell<u8>", ["RefCell::new(1)"], 1, 0), ("*const u8", ["::core::ptr::null()"], 1, 0), ("*mut u8", ["::core::ptr::null_mut()"], 1, 0),
    ("NonZeroU32", ["NonZeroU32::new(5).unwrap()", "NonZeroU32::MIN"], 1, 0), ("AtomicU8", ["AtomicU8::new(1)"], 1, 0), ("Mutex<u8>", ["Mutex::new(1)"], 1, 0), ("fn(u8) -> u8", ["{ fn f(x: u8) -> u8 { x } f }"], 1, 0),
    ("&'static Cell<u8>", ["Box::leak(Box::new(Cell::new(1)))"], 0, 0), ("::core::pin::Pin<Box<PhantomPinned>>", ["Box::pin(PhantomPinned)"], 0, 1), ("Box<dyn Fn()>", ["Box::new(|| ())"], 0, 1),
    ("::core::mem::MaybeUninit<u64>", ["::core::mem::MaybeUninit::uninit()"], 1, 0), ("::core::mem::ManuallyDrop<String>", ["::core::mem::ManuallyDrop::new(String::new())"], 1, 0), ("Arc<Mutex<u8>>", ["Arc::new(Mutex::new(1))"], 0, 1),
    ("Arc<Cell<u8>>", ["Arc::new(Cell::new(1))"], 0, 1), ("::core::option::Option<NonZeroU32>", ["None"], 1, 0), ("&'static mut u8", ["Box::leak(Box::new(1))"], 0, 0),
]
AUTO = ["::core::marker::Send", "::core::marker::Sync", "::std::panic::UnwindSafe", "::std::panic::RefUnwindSafe"]


class T:
    def __init__(self, rng):
        self.rng = rng
        full = rng.random() < 0.6
        copy = full and rng.random() < 0.25
        self.pd = rng.random() < 0.2 and not copy
        pool = [x for x in FULL if not copy or x[4]] if full else FULL + REST
        self.kind = rng.choice(["named", "tuple", "enum", "enum"])
        self.generic = rng.random() < 0.4
        self.lt = rng.random() < 0.2
        self.cn = rng.random() < 0.15
        self.arg = rng.choice([x for x in pool if "'static mut" not in x[0]])
        self.vs = []
        nv = rng.choice([1, 2, 3, 4]) if self.kind == "enum" else 1
        for i in range(nv):
            st = self.kind if self.kind != "enum" else rng.choice(["named", "tuple", "tuple", "unit"] if i else ["named", "tuple"])
            fs = []
            for j in range(0 if st == "unit" else rng.choice([1, 2, 3, 3, 4, 6])):
                x = rng.choice(pool)
                ty = x[0]
                if self.generic and (rng.random() < 0.3 or (i == 0 and j == 0)):
                    x = (rng.choice(["T", "(T, u8)"]),) + self.arg[1:]
                    ty = x[0]
                    if ty == "(T, u8)":
                        x = (ty, ["(%s, 4)" % v for v in self.arg[1]]) + self.arg[2:]
                fs.append((rng.choice(["f%d", "val%d", "r#f%d"]) % j, ty, x, rng.random() < 0.5))
            self.vs.append(["V%d" % i, st, fs])
        fs = self.vs[0][2]
        if self.lt:
            fs.append(("lt", "&'a u8", ("", ["&9"], 1, 0, 1), rng.random() < 0.5))
        if self.cn:
            fs.insert(0, ("cn", "[u8; N]", ("", ["[1; 2]", "[7, 9]"], 1, 0, 1), rng.random() < 0.5))
        for v in self.vs:
            # PhantomPinned is fine anywhere; names unique by construction
            rng.shuffle(v[2])
        allx = [f[2] for v in self.vs for f in v[2]]
        self.const = all(x[2] for x in allx)
        self.nd = any(x[3] for x in allx)
        self.derives = []
        if full:
            self.derives = [d for d in ("Debug", "Clone", "PartialEq", "Hash") if rng.random() < 0.7]
            if "PartialEq" in self.derives and rng.random() < 0.6:
                self.derives.append("Eq")
                if rng.random() < 0.6:
                    self.derives += ["PartialOrd", "Ord"]
            if self.kind != "enum" and not self.lt and not self.cn and rng.random() < 0.4:
                self.derives.append("Default")
            if copy:
                self.derives = [d for d in self.derives if d != "Clone"] + ["Clone", "Copy"]
            if self.kind == "enum" and nv > 1 and not self.generic and any(v[1] == "unit" for v in self.vs) and rng.random() < 0.5:
                self.derives.append("Default")
        rng.shuffle(self.derives)
        self.deforder = rng.random() < 0.5
        self.split = rng.random() < 0.3 and len(self.derives) > 1
        reprs = [[], [], ["C"]]
        if self.kind == "enum":
            reprs += [["u8"], ["C", "u16"], ["i64"], ["isize"]]
        else:
            reprs += [["align(8)"], ["C", "align(32)"], ["align(1)"], ["Rust"]]
            if len(fs) == 1:
                reprs += [["transparent"]] * 2
        self.repr = rng.choice(reprs)
        self.extra = [a for a in ["#[allow(dead_code)]", "#[doc = \"about\"]", "#[must_use]", "#[allow(clippy::all)]", "#[vaux::identity]", "#[derive(vaux::Nop)]", "#[vaux::identity(x)]"] if rng.random() < 0.15]
        self.order_seed = rng.random()
        a = ["project = SP", "project_ref = SR"] + ([] if self.pd else ["project_replace = SO"])
        a = [x for x in a if rng.random() < 0.5]
        u = rng.choice(["", "", "!Unpin", "UnsafeUnpin"])
        if u:
            a.append(u)
        if self.pd:
            a.append("PinnedDrop")
        if self.kind == "enum" and not any("project" in x for x in a):
            a.append("project = SP")
        rng.shuffle(a)
        self.args = a
        self.vis = [rng.choice(["pub "] * 3 + ["pub(crate) ", "pub(super) "]) for _ in range(40)]

    def decl(self, ann):
        rng = random.Random(self.order_seed)
        gen = ([] if not self.lt else ["'a"]) + ([] if not self.generic else ["T"]) + ([] if not self.cn else ["const N: usize"])
        gen = "<%s>" % ", ".join(gen) if gen else ""
        attrs = list(self.extra)
        if self.derives:
            if self.split:
                attrs += ["#[derive(%s)]" % ", ".join(self.derives[:1]), "#[derive(%s)]" % ", ".join(self.derives[1:])]
            else:
                attrs.append("#[derive(%s)]" % ", ".join(self.derives))
        if self.repr:
            attrs.append("#[repr(%s)]" % ", ".join(self.repr))
        # a Nop derive owns #[helper], usable on fields; keep derives in front of their helpers
        rng.shuffle(attrs)
        pos = rng.randrange(len(attrs) + 1)
        attrs.insert(pos, ("#[pin_project%s]" % ("(%s)" % ", ".join(self.args) if self.args else "")) if ann else "")
        nop = "#[derive(vaux::Nop)]" in self.extra
        vi = iter(self.vis * 4)
        body = []
        dflt = False
        for n, st, fs in self.vs:
            fl = []
            for f, ty, x, pin in fs:
                at = (["#[pin]"] if pin and ann else []) + ([rng.choice(["#[helper]", "#[helper(a = 1, b)]"])] if nop and rng.random() < 0.5 else [])
                rng.random()
                vis = next(vi) if self.kind != "enum" else ""
                fl.append("%s %s%s%s" % (" ".join(at), vis, f + ": " if st == "named" else "", ty))
            fl = ", ".join(fl)
            d = ""
            if st == "unit" and "Default" in self.derives and not dflt:
                d, dflt = "#[default] ", True
            body.append(d + n + {"named": " { %s }", "tuple": "(%s)", "unit": "%s"}[st] % fl)
        at = " ".join(attrs)
        if self.kind == "named":
            return "%s pub struct S%s %s" % (at, gen, body[0][2:])
        if self.kind == "tuple":
            return "%s pub struct S%s%s;" % (at, gen, body[0][2:])
        return "%s pub enum S%s { %s }" % (at, gen, ", ".join(body))

    def make(self, vi, pick):
        n, st, fs = self.vs[vi]
        p = "S::" + n if self.kind == "enum" else "S"
        es = [x[1][pick % len(x[1])] for _, _, x, _ in fs]
        if st == "unit":
            return p
        if st == "named":
            return "%s { %s }" % (p, ", ".join("%s: %s" % (f[0], e) for f, e in zip(fs, es)))
        return "%s(%s)" % (p, ", ".join(es))

    def module(self):
        inst = (["'static"] if self.lt else []) + ([self.arg[0]] if self.generic else []) + (["2"] if self.cn else [])
        inst = "<%s>" % ", ".join(inst) if inst else ""
        n = len(self.vs)
        obs = "pub type I = S%s;\n" % inst
        o = "pub fn observe() -> Vec<(String, String)> { use ::core::mem::*; let mut o: Vec<(String, String)> = vec![]; macro_rules! ob { ($n:expr, $e:expr) => { o.push((($n).to_string(), format!(\"{:?}\", $e))) } }\n"
        o += "    ob!(\"size\", size_of::<I>()); ob!(\"align\", align_of::<I>()); ob!(\"niche\", size_of::<Option<I>>()); ob!(\"niche2\", size_of::<Option<Option<I>>>());\n"
        if not self.pd:
            o += "    ob!(\"needs_drop\", needs_drop::<I>());\n"
        for a in AUTO:
            o += "    ob!(\"%s\", vrt::is!(I: %s));\n" % (a, a)
        for d in self.derives:
            if d == "Debug":
                t = "::core::fmt::Debug"
            elif d == "Hash":
                t = "::core::hash::Hash"
            else:
                t = d
            o += "    ob!(\"derive %s\", vrt::is!(I: %s));\n" % (d, t)
        o += "    ob!(\"!Copy\", vrt::is!(I: Copy)); ob!(\"!Clone\", vrt::is!(I: Clone)); ob!(\"!Drop\", vrt::is!(I: ::core::fmt::Display)); ob!(\"type\", ::core::any::type_name::<I>().split(\"::\").any(|x| x.starts_with(\"S\")));\n"
        if self.kind != "enum":
            for i, f in enumerate(self.vs[0][2]):
                o += "    ob!(\"offset %d\", offset_of!(I, %s));\n" % (i, f[0] if self.kind == "named" else i)
        for vi, (vn, st, fs) in enumerate(self.vs):
            for pick in (0, 1):
                o += "    { let v: I = %s;\n" % self.make(vi, pick)
                p = "S::" + vn if self.kind == "enum" else "S"
                pat = {"unit": p, "named": "%s { %s }" % (p, ", ".join("%s: x%d" % (f[0], i) for i, f in enumerate(fs))), "tuple": "%s(%s)" % (p, ", ".join("x%d" % i for i in range(len(fs))))}[st]
                o += "      { let b = &v as *const I as usize; match &v { %s => { %s } #[allow(unreachable_patterns)] _ => loop {} } }\n" % (
                    pat, " ".join("ob!(\"addr %d.%d\", x%d as *const _ as *const u8 as usize - b);" % (vi, i, i) for i in range(len(fs))))
                if "Debug" in self.derives:
                    o += "      ob!(\"debug\", format!(\"{:?} {:#?}\", v, v));\n"
                if "Clone" in self.derives and "Debug" in self.derives:
                    o += "      ob!(\"clone\", v.clone());\n"
                if "Copy" in self.derives:
                    o += "      let w = v; let z = v; let _ = (w, z);\n"
                if "PartialEq" in self.derives:
                    o += "      ob!(\"eq\", [%s]);\n" % ", ".join("v == %s" % self.make(k, q) for k in range(n) for q in (0, 1))
                if "Ord" in self.derives:
                    o += "      ob!(\"cmp\", [%s]);\n" % ", ".join("v.cmp(&%s)" % self.make(k, q) for k in range(n) for q in (0, 1))
                if "Hash" in self.derives:
                    o += "      { use ::std::hash::{Hash, Hasher}; let mut h = ::std::collections::hash_map::DefaultHasher::new(); v.hash(&mut h); ob!(\"hash\", h.finish()); }\n"
                if not self.pd:
                    # move everything out of the value
                    o += "      match v { %s => { %s } #[allow(unreachable_patterns)] _ => loop {} }\n" % (pat, " ".join("let _y%d = x%d;" % (i, i) for i in range(len(fs))))
                    if self.kind != "enum" and len(fs) > 1:
                        a = fs[0][0] if st == "named" else "0"
                        b = fs[1][0] if st == "named" else "1"
                        o += "      { let w: I = %s; let _p = w.%s; let _q = w.%s; }\n" % (self.make(vi, pick), a, b)
                        if st == "named":
                            o += "      { let w: I = S { %s: %s, ..%s }; let _r = w.%s; }\n" % (a, fs[0][2][1][0], self.make(vi, pick), b)
                    if self.const:
                        pass
                o += "    }\n"
            if self.const:
                e = self.make(vi, 0)
                o += "    { const C: I = %s; let _x = C; const fn mk() -> I { %s } let _ = mk(); struct W(I); unsafe impl Sync for W {} static ST: W = W(%s); let _ = &ST.0; const A: [I; 2] = [mk(), mk()]; let _ = A; }\n" % (e, e, e)
                if not self.nd and not self.pd:
                    o += "    { const fn eat(_x: I) {} const _E: () = eat(%s); }\n" % e
            if self.kind == "tuple" and not self.lt:
                o += "    { let f: fn(%s) -> I = S; let _ = f; }\n" % ", ".join(self.sub(f[1]) for f in self.vs[0][2])
            if self.kind == "enum" and st == "tuple" and not self.lt:
                o += "    { let f: fn(%s) -> I = S::%s; let _ = f; }\n" % (", ".join(self.sub(f[1]) for f in fs), vn)
        if "Default" in self.derives and "Debug" in self.derives:
            o += "    ob!(\"default\", I::default());\n"
        if self.kind == "enum":
            o += "    { let d = [%s]; ob!(\"disc\", d.iter().map(|x| d.iter().position(|y| y == x)).collect::<Vec<_>>()); }\n" % ", ".join("discriminant::<I>(&(%s))" % self.make(k, 0) for k in range(n))
            prim = [r for r in self.repr if r[0] in "ui"]
            if prim:
                o += "    ob!(\"tag\", [%s]);\n" % ", ".join("{ let v: I = %s; unsafe { *(&v as *const I as *const %s) } }" % (self.make(k, 0), prim[0]) for k in range(n))
        o += "    o }\n"
        impls = ""
        if self.pd:
            gi = (["'a"] if self.lt else []) + (["T"] if self.generic else []) + (["const N: usize"] if self.cn else [])
            ga = (["'a"] if self.lt else []) + (["T"] if self.generic else []) + (["N"] if self.cn else [])
            g, h = ("<%s>" % ", ".join(gi), "<%s>" % ", ".join(ga)) if gi else ("", "")
            impls = "#[pinned_drop] impl%s PinnedDrop for S%s { fn drop(self: ::core::pin::Pin<&mut Self>) {} }\n" % (g, h)
        s = "mod p { %s%s\n%s%s }\n" % (PRE, self.decl(False), obs, o)
        s += "mod a { %s%s\n%s%s%s }\n" % (PRE, self.decl(True), impls, obs, o)
        s += "pub fn run() { let (p, a) = (p::observe(), a::observe()); vrt::leq(\"observations\", a.len(), p.len()); for (x, y) in a.iter().zip(p.iter()) { vrt::ck(x == y, || format!(\"annotated {:?}, plain {:?}\", x, y)); } }\n"
        return s

    def sub(self, ty):
        ty = {"T": self.arg[0], "(T, u8)": "(%s, u8)" % self.arg[0]}.get(ty, ty)
        return ty.replace("; N]", "; 2]")


# ------------------------------------------------------------------ accepted or rejected exactly like the plain type
# (name, program with @P (annotation) and @p (marker)); the verdict with the annotation must equal the one without
VERDICTS = []


def V(name, src, args=""):
    VERDICTS.append((name, src, args))


for _k, _d in (("named", "@P pub struct S<T> { @p f: T }"), ("tuple", "@P pub struct S<T>(@p T);"), ("enum", "@P pub enum S<T> { A(@p T), B }"), ("enumnamed", "@P pub enum S<T> { A { @p f: T }, B }"), ("unpinned", "@P pub struct S<T> { f: T, @p g: u8 }")):
    _mk = {"named": "S { f: %s }", "tuple": "S(%s)", "enum": "S::A(%s)", "enumnamed": "S::A { f: %s }", "unpinned": "S { f: %s, g: 1 }"}[_k]
    V(_k + "/covariant", _d + " fn u<'a>(x: S<&'static str>) -> S<&'a str> { x }")
    V(_k + "/not longer", _d + " fn u<'a>(x: S<&'a str>) -> S<&'static str> { x }")
    V(_k + "/contravariant", _d + " fn u<'a>(x: S<fn(&'a str)>) -> S<fn(&'static str)> { x }")
    V(_k + "/not contravariant", _d + " fn u<'a>(x: S<fn(&'static str)>) -> S<fn(&'a str)> { x }")
    V(_k + "/invariant", _d + " fn u<'a>(x: S<::core::cell::Cell<&'static str>>) -> S<::core::cell::Cell<&'a str>> { x }")
    V(_k + "/shared ref covariant", _d + " fn u<'a>(x: &'a S<&'static str>) -> &'a S<&'a str> { x }")
    V(_k + "/dropck dangling", _d + " fn u() { let (mut s, x); x = 5u8; s = " + _mk % "&x" + "; }")
    V(_k + "/dropck dangling 2", _d + " fn u() { let mut s = " + _mk % "&1u8" + "; let x = 5u8; s = " + _mk % "&x" + "; }")
    V(_k + "/dropck of droppable", _d + " struct D<'a>(&'a u8); impl Drop for D<'_> { fn drop(&mut self) {} } fn u() { let mut s = " + _mk % "D(&1u8)" + "; let x = 5u8; s = " + _mk % "D(&x)" + "; }")
    V(_k + "/dropck of vec", _d + " fn u() { let mut s = " + _mk % "vec![&1u8]" + "; let x = 5u8; s = " + _mk % "vec![&x]" + "; }")
    V(_k + "/const eat", _d + " const fn eat(_x: S<u8>) {}")
    V(_k + "/const eat droppable", _d + " const fn eat(_x: S<String>) {}")
    V(_k + "/promotion", _d + " fn u() -> &'static S<u8> { &" + _mk % "3u8" + " }")
    V(_k + "/promotion of cell", _d + " fn u() -> &'static S<::core::cell::Cell<u8>> { &" + _mk % "::core::cell::Cell::new(3u8)" + " }")
    V(_k + "/static", _d + " static X: S<u8> = " + _mk % "3u8" + ";")
    V(_k + "/static not sync", _d + " static X: S<::core::cell::Cell<u8>> = " + _mk % "::core::cell::Cell::new(3u8)" + ";")
    V(_k + "/thread spawn", _d + " fn u() { let s = " + _mk % "3u8" + "; ::std::thread::spawn(move || { let _s = s; }); }")
    V(_k + "/thread spawn rc", _d + " fn u() { let s = " + _mk % "::std::rc::Rc::new(3u8)" + "; ::std::thread::spawn(move || { let _s = s; }); }")
    V(_k + "/unwind safe", _d + " fn q<X: ::std::panic::UnwindSafe>() {} fn u() { q::<S<u8>>(); q::<S<String>>(); q::<S<&u8>>() }")
    V(_k + "/not unwind safe", _d + " fn q<X: ::std::panic::UnwindSafe>() {} fn u() { q::<S<&mut u8>>() }")
    V(_k + "/unwind safe generic", _d + " fn q<X: ::std::panic::UnwindSafe>() {} fn u<T: ::std::panic::UnwindSafe>() { q::<S<T>>() }")
    V(_k + "/send generic", _d + " fn q<X: Send + Sync>() {} fn u<T: Send + Sync>() { q::<S<T>>() }")
    V(_k + "/send generic unbounded", _d + " fn q<X: Send>() {} fn u<T>() { q::<S<T>>() }")
    V(_k + "/sync from send", _d + " fn q<X: Sync>() {} fn u<T: Send>() { q::<S<T>>() }")
    V(_k + "/sized", _d + " fn u() { let _: Option<S<str>> = None; }")
    V(_k + "/copy without derive", _d + " fn u(s: S<u8>) { let a = s; let b = s; }")
    V(_k + "/implement Copy", _d + " impl<T: Copy> Clone for S<T> { fn clone(&self) -> Self { *self } } impl<T: Copy> Copy for S<T> {}")
    V(_k + "/implement Copy wrong", _d + " impl<T: Clone> Clone for S<T> { fn clone(&self) -> Self { loop {} } } impl<T: Clone> Copy for S<T> {}")
    V(_k + "/negative reasoning", _d + " trait Q {} impl<T: Copy> Q for T {} impl Q for S<u8> {}")
    V(_k + "/in array repeat", _d + " fn u() { const N: S<u8> = " + _mk % "3u8" + "; let a = [N; 4]; }")
    V(_k + "/transmute", _d + " fn u(s: S<u32>) -> [u8; ::core::mem::size_of::<S<u32>>()] { unsafe { ::core::mem::transmute(s) } }")
    V(_k + "/self referential borrow", _d + " fn u<'a>(s: &'a mut S<Option<&'a u8>>) {} fn v() { let mut s = " + _mk % "None" + "; u(&mut s); }")
    V(_k + "/orphan", _d + " impl<T> PartialEq for S<T> { fn eq(&self, o: &Self) -> bool { true } } impl<T> ::core::fmt::Display for S<T> { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { Ok(()) } } impl<T> ::core::ops::Drop for W<T> { fn drop(&mut self) {} } struct W<T>(S<T>);")
V("unsize slice", "@P pub struct S<T: ?Sized> { g: u8, @p f: T } fn u(s: &S<[u8; 3]>) -> &S<[u8]> { s } fn v(s: Box<S<u8>>) -> Box<S<dyn ::core::fmt::Debug>> { s }")
V("unsize wrong field", "@P pub struct S<T: ?Sized> { g: Box<T>, @p f: u8 } fn u(s: &S<[u8; 3]>) -> &S<[u8]> { s }")
V("unsize two fields", "@P pub struct S<T> { g: Option<Box<T>>, @p f: T } fn u(s: &S<[u8; 3]>) -> &S<[u8]> { s }")
V("fundamental fields", "@P pub struct S { @p pub a: u8, pub b: String } fn u(s: S) -> (u8, String) { let S { a, b } = s; (a, b) } fn v(mut s: S) -> String { s.a = 3; let r = &mut s.b; r.push('x'); s.b } fn w(s: &mut S) { let S { a, b } = s; *a += 1; b.clear(); }")
V("borrow two fields", "@P pub struct S { @p pub a: u8, pub b: String } fn u(s: &mut S) { let x = &mut s.a; let y = &mut s.b; *x = 1; y.clear(); }")
V("private fields", "mod m { @P pub struct S { @p a: u8, pub b: u8 } } fn u(s: m::S) -> u8 { s.b }")
V("private field access", "mod m { @P pub struct S { @p a: u8, pub b: u8 } } fn u(s: m::S) -> u8 { s.a }")
V("private field construct", "mod m { @P pub struct S { @p a: u8, pub b: u8 } } fn u() -> m::S { m::S { a: 1, b: 2 } }")
V("private tuple construct", "mod m { @P pub struct S(@p u8, pub u8); } fn u() -> m::S { m::S(1, 2) }")
V("tuple construct", "mod m { @P pub struct S(@p pub u8, pub(crate) u8); } fn u() -> m::S { m::S(1, 2) }")
V("private type", "mod m { @P struct S(@p pub u8); } fn u() -> m::S { loop {} }")
V("restricted type", "mod m { pub mod n { @P pub(in super) struct S(@p pub u8); } fn v(s: n::S) {} } fn u(s: m::n::S) {}")
V("missing field in constructor", "@P pub struct S { @p a: u8, b: u8 } fn u() -> S { S { a: 1 } }")
V("extra field in constructor", "@P pub struct S { @p a: u8 } fn u() -> S { S { a: 1, b: 2 } }")
V("wrong field type", "@P pub struct S { @p a: u8, b: String } fn u() -> S { S { a: String::new(), b: 2 } }")
V("exhaustive", "@E pub enum S { A(@p u8), B, C { x: u8 } } fn u(s: S) -> u8 { match s { S::A(x) => x, S::B => 1, S::C { x } => x } }")
V("not exhaustive", "@E pub enum S { A(@p u8), B, C { x: u8 } } fn u(s: S) -> u8 { match s { S::A(x) => x, S::B => 1 } }")
V("enum glob", "@E pub enum S { A(@p u8), B } use S::*; fn u() -> S { let x = A(3); match x { A(_) => B, B => A(1) } }")
V("Default on unit variant", "@E #[derive(Default)] pub enum S { A(@p u8), #[default] B } fn u() -> S { S::default() }")
V("Default on unit variant before", "#[derive(Default)] @E pub enum S { #[default] B, A(@p u8) } fn u() -> S { S::default() }")
V("derive needs bound", "@P #[derive(Clone)] pub struct S<T> { @p f: T } struct N; fn u(s: S<N>) { s.clone(); }")
V("derive on non-clone field", "struct N; @P #[derive(Clone)] pub struct S { @p f: N }")
V("derive Copy non-copy", "@P #[derive(Clone, Copy)] pub struct S { @p f: String }")
V("recursive", "@P pub struct S { @p f: Option<Box<S>> } fn u() -> S { S { f: None } }")
V("recursive infinite", "@P pub struct S { @p f: Option<S> }")
V("unused lifetime", "@P pub struct S<'a> { @p f: u8 }")
V("unused type", "@P pub struct S<T> { @p f: u8 }")
V("unsized middle", "@P pub struct S { @p f: str, g: u8 }")
V("unsatisfied bound in field", "trait Q {} struct W<T: Q>(T); @P pub struct S<T> { @p f: W<T> }")
V("duplicate field", "@P pub struct S { @p f: u8, f: u8 }")
V("duplicate variant", "@E pub enum S { A(@p u8), A(u8) }")
V("unknown type", "@P pub struct S { @p f: Nope }")
V("private type in public", "mod m { pub struct Q; struct P_; @P pub struct S { @p f: P_, pub g: Q } }")
V("repr transparent two", "@P #[repr(transparent)] pub struct S { @p f: u8, g: u8 }")
V("repr transparent zst", "@P #[repr(transparent)] pub struct S { @p f: u8, g: (), h: ::core::marker::PhantomData<u16> }")
V("repr u8 on struct", "@P #[repr(u8)] pub struct S { @p f: u8 }")
V("repr after", "#[repr(u8)] @E pub enum S { A(@p u8) }")
V("unknown attribute", "@P #[nope] pub struct S { @p f: u8 }")
V("unknown attribute on field", "@P pub struct S { @p #[nope] f: u8 }")
V("unknown attribute on variant", "@E pub enum S { #[nope] A(@p u8) }")
V("helper attribute without derive", "@P pub struct S { #[helper] @p f: u8 }")
V("helper attribute after", "@P #[derive(vaux::Nop)] pub struct S { #[helper] @p f: u8 }")
V("helper attribute before", "#[derive(vaux::Nop)] @P pub struct S { @p #[helper(x)] f: u8 }")
V("helper attribute on type", "@P #[derive(vaux::Nop)] #[helper] pub struct S { @p f: u8 }")
# attributes owned by another derive may hold any tokens, and nothing in them is addressed to pin_project
for _i, _h in enumerate(["packed", "packed(2)", "align(8)", "C, packed", "repr(packed)", "a + b", "=> {}", "\"packed\"", "pin", "#[pin]", "project = X", "1, 2", ";", "Self", "'a", "{ [ ( ) ] }", "!Unpin", "a: u8", "..", "pin_project", "$", "x = y = z", "unsafe(x)"]):
    for _f in ("#[helper(%s)]", "#[helper[%s]]", "#[helper{%s}]"):
        _h1 = _f % _h
        V("helper on struct after/" + _h1, "@P #[derive(vaux::Nop)] %s pub struct S { @p f: u8, g: u8 }" % _h1)
        V("helper on struct before/" + _h1, "#[derive(vaux::Nop)] %s @P pub struct S { @p f: u8, g: u8 }" % _h1)
        V("helper on fields/" + _h1, "@P #[derive(vaux::Nop)] pub struct S(%s @p u8, %s u8, @p %s u16);" % (_h1, _h1, _h1))
        V("helper on enum/" + _h1, "#[derive(vaux::Nop)] @E %s pub enum S { %s A(@p %s u8), B { %s x: u8 }, %s C }" % (_h1, _h1, _h1, _h1, _h1))
for _h1 in ("#[helper = \"packed\"]", "#[helper = \"pin\"]", "#[helper = 1]", "#[rustfmt::skip]", "#[rustfmt::packed(packed)]", "#[clippy::msrv = \"1.0\"]", "#[doc(alias = \"packed\")]", "#[doc(alias(\"packed\", \"pin\"))]", "#[deprecated(note = \"packed\")]", "#[allow(unused)]", "#[cfg_attr(any(), repr(packed))]", "#[expect(dead_code)]"):
    V("attribute/" + _h1, "#[derive(vaux::Nop)] @P %s pub struct S { @p f: u8, g: u8 }" % _h1)
    V("attribute on enum/" + _h1, "@E #[derive(vaux::Nop)] %s pub enum S { A(@p u8), B { x: u8 }, C }" % _h1)
V("append items", "@P #[vaux::append_items(pub struct Other;)] pub struct S { @p f: u8 } fn u() -> Other { Other }")
V("append items before", "#[vaux::append_items(impl S { fn m(&self) -> u8 { self.f } })] @P pub struct S { @p f: u8 } fn u(s: S) -> u8 { s.m() }")
V("derive clone before and after", "#[derive(Clone)] @P #[derive(Debug)] pub struct S { @p f: u8 } fn u(s: S) { let _ = format!(\"{:?}\", s.clone()); }")
V("two derives of the same", "#[derive(Clone)] @P #[derive(Clone)] pub struct S { @p f: u8 }")
V("structural match", "@P #[derive(PartialEq, Eq)] pub struct S { @p f: u8 } const C: S = S { f: 3 }; fn u(s: S) -> bool { match s { C => true, _ => false } }")
V("structural match enum", "#[derive(PartialEq, Eq)] @E pub enum S { A(@p u8), B } const C: S = S::A(3); fn u(s: S) -> bool { matches!(s, C) }")
V("no structural match", "@P pub struct S { @p f: u8 } const C: S = S { f: 3 }; fn u(s: S) -> bool { match s { C => true, _ => false } }")
V("deny missing_docs", "@P pub struct S { @p pub f: u8 }")
V("non_exhaustive", "@P #[non_exhaustive] pub struct S { @p pub f: u8 } fn u() -> S { S { f: 1 } }")
V("type alias self", "@P pub struct S<T> { @p f: T } type A = S<u8>; fn u() -> A { A { f: 3 } }")
V("Self constructors in impl", "@P pub struct S<T>(@p T); impl<T> S<T> { fn n(t: T) -> Self { Self(t) } fn i(self) -> T { let Self(t) = self; t } }")
V("inherent assoc same names", "@P pub struct S<T> { @p project: T, project_ref: u8 } impl<T> S<T> { fn new(t: T) -> Self { S { project: t, project_ref: 1 } } fn get(&self) -> &T { &self.project } }")

LINTED = [
    # the diagnostics with the annotation must be exactly those without: (name, program, lints of interest)
    ("must_use", "@P #[must_use] pub struct S { @p f: u8 } fn mk() -> S { S { f: 1 } } pub fn u() { mk(); }"),
    ("must_use message", "#[must_use = \"why\"] @P pub struct S { @p f: u8 } fn mk() -> S { S { f: 1 } } pub fn u() { mk(); }"),
    ("must_use enum", "@E #[must_use] pub enum S { A(@p u8) } fn mk() -> S { S::A(1) } pub fn u() { mk(); }"),
    ("no must_use", "@P pub struct S { @p f: u8 } fn mk() -> S { S { f: 1 } } pub fn u() { mk(); }"),
    ("deprecated type", "@P #[deprecated(note = \"old\")] pub struct S { @p pub f: u8 } pub fn u(s: S) {}"),
    ("deprecated field", "@P pub struct S { #[deprecated(note = \"oldf\")] @p pub f: u8, pub g: u8 } pub fn u(s: S) -> u8 { s.f }"),
    ("deprecated field after", "@P pub struct S { @p #[deprecated] pub f: u8, pub g: u8 } pub fn u(s: S) -> u8 { s.f + s.g }"),
    ("deprecated variant", "@E pub enum S { #[deprecated(note = \"oldv\")] A(@p u8), B } pub fn u() -> S { S::A(1) }"),
    ("unused variable", "@P pub struct S { @p pub f: u8 } pub fn u(s: S) { let x = s.f; }"),
    ("unused mut", "@P pub struct S { @p pub f: u8 } pub fn u(s: S) { let mut x = s; let _ = x.f; }"),
    ("naming", "@P pub struct S { @p pub BadField: u8 }"),
    ("naming enum", "@E pub enum S { bad_variant(@p u8), Fine { @p BadField: u8 } }"),
    ("naming generics", "@P pub struct S<bad, 'BAD, const lower: usize> { @p pub f: &'BAD bad, pub g: [u8; lower] }"),
    ("missing docs", "@P pub struct S { @p pub f: u8 }"),
    ("missing docs enum", "@E pub enum S { A(@p u8), B { x: u8 } }"),
    ("documented", "/// A\n@P pub struct S { /// f\n @p pub f: u8 }"),
    ("documented inside", "@P /// A\npub struct S { @p /// f\n pub f: u8 }"),
    ("missing debug", "@P pub struct S { @p pub f: u8 }"),
    ("missing copy", "@P pub struct S { @p pub f: u8 }"),
    ("unreachable pub", "mod m { @P pub struct S { @p pub f: u8 } } pub fn u() -> u8 { let _s: Option<m::S> = None; 1 }"),
    ("improper ctypes", "@P pub struct S { @p pub f: u8 } extern \"C\" { fn ff(x: S); } pub fn u(s: S) { unsafe { ff(s) } }"),
    ("improper ctypes repr", "@P #[repr(C)] pub struct S { @p pub f: u8 } extern \"C\" { fn ff(x: S); } pub fn u(s: S) { unsafe { ff(s) } }"),
    ("large variants", "@E pub enum S { A(@p u8), B([u8; 4000]) }"),
    ("needless parens type", "@P pub struct S { @p pub f: (u8), }"),
    ("unused qualifications", "use ::core::marker::PhantomData; @P pub struct S { @p pub f: ::core::marker::PhantomData<u8> }"),
    ("single use lifetimes", "@P pub struct S<'a> { @p pub f: &'a u8 }"),
    ("explicit outlives", "@P pub struct S<'a, T: 'a> { @p pub f: &'a T }"),
    ("bare trait bounds", "@P pub struct S<T> where T: Clone, u8: Copy { @p pub f: T }"),
    ("private bounds", "trait Pr {} @P pub struct S<T: Pr> { @p pub f: T }"),
    ("private interfaces", "struct Pr; @P pub struct S { @p pub(crate) f: Pr, pub g: u8 }"),
    ("private interfaces pub", "struct Pr; @P pub struct S { @p pub f: Pr, pub g: u8 }"),
    ("non_snake tuple", "@P pub struct S(@p pub u8, pub u8);"),
    ("clippy allow", "@P #[allow(clippy::all, unknown_lints)] pub struct S(@p pub u8);"),
    ("unused attribute", "@P #[inline] pub struct S(@p pub u8);"),
    ("uncommon codepoints", "@P pub struct S { @p pub ĳ: u8 }"),
    ("dead type", "@P struct S(@p u8);"),
    ("dead constructor", "mod m { @P pub(crate) struct S { @p pub(crate) f: u8 } } pub fn u(s: &dyn ::core::any::Any) -> bool { s.is::<m::S>() }"),
]
LINTS = ["missing_docs", "missing_debug_implementations", "missing_copy_implementations", "unreachable_pub", "unused_qualifications", "single_use_lifetimes", "explicit_outlives_requirements", "variant_size_differences", "unused_lifetimes", "non_ascii_idents", "elided_lifetimes_in_paths", "trivial_casts", "unit_bindings", "let_underscore_drop", "unnameable_types"]
# dead code analysis sees the uses in the generated projections: only new findings of it would be noise
LESS_OK = {"dead_code", "unreachable_pub", "improper_ctypes", "unnameable_types", "clippy::all"}


def render(src, ann, args=""):
    if ann:
        return src.replace("@P", "#[pin_project%s]" % args).replace("@E", "#[pin_project(project = SP%s)]" % (", " + args[1:-1] if args else "")).replace("@p", "#[pin]")
    return src.replace("@P", "").replace("@E", "").replace("@p", "")


def verdicts(c):
    head = "#![allow(warnings)]\nuse pin_project::pin_project;\n"

    def one(it):
        name, src, args = it
        try:
            r = []
            for ann in (False, True):
                s = head.replace("use pin_project::pin_project;", "") + "mod k { %s %s }\n" % ("use pin_project::pin_project;", render(src, ann, args).replace("mod m {", "mod m { use pin_project::pin_project;").replace("mod n {", "mod n { use pin_project::pin_project;"))
                x = c.rustc(s, name=name, externs=("pin_project", "vrt", "vaux"))
                r.append((x, s))
                shutil.rmtree(os.path.dirname(x.path), ignore_errors=True)
            c.case("verdict/" + name, True)
            c.count("verdict_" + ("accepted" if r[0][0].ok else "rejected"))
            if r[0][0].ok != r[1][0].ok:
                c.violate("verdict/" + name, "%s: plain type %s, annotated type %s: %s" % (name, "accepted" if r[0][0].ok else "rejected", "accepted" if r[1][0].ok else "rejected", (r[1][0].brief() or r[0][0].brief())), src=r[1][1], plain=r[0][1])
        except core.Inconclusive as e:
            c.inconclusive(str(e))
    core.pmap(one, VERDICTS)


def lints(c):
    def diags(r):
        o = set()
        for d in r.diags:
            if d.get("level") in ("warning", "error") and not d["message"].endswith("emitted") and not d["message"].startswith("aborting"):
                o.add((d["level"], (d.get("code") or {}).get("code") or "", d["message"]))
        return o

    def one(it):
        name, src = it
        try:
            r = []
            for ann in (False, True):
                s = "//! docs\n#![warn(%s)]\n#![allow(unused_imports, internal_features)]\n%s\n%s\n" % (", ".join(LINTS), "use pin_project::pin_project;", render(src, ann).replace("mod m {", "mod m { use pin_project::pin_project;"))
                x = c.rustc(s, name=name, externs=("pin_project",), cap_warn=False)
                r.append((diags(x), s, x))
                shutil.rmtree(os.path.dirname(x.path), ignore_errors=True)
            p, a = r[0][0], r[1][0]
            c.case("lint/" + name, True)
            c.count("plain_diagnostics", len(p))
            more = a - p
            less = {x for x in p - a if x[1] not in LESS_OK}
            if more or less:
                c.violate("lint/" + name, "%s: diagnostics differ: additional %s, missing %s" % (name, sorted(more), sorted(less)), src=r[1][1], plain=r[0][1])
        except core.Inconclusive as e:
            c.inconclusive(str(e))
    core.pmap(one, LINTED)


def docs(c, cases):
    """rustdoc's view of the documented type: documentation, attributes, fields, variants, generics, visibility, auto traits."""
    DOC = [
        "/** T doc */ @P #[deprecated(since = \"1\", note = \"n\")] pub struct S<T: Clone = u8> where T: Copy { /** f doc */ @p pub f: T, /** g doc */ g: u8, pub(crate) h: Vec<T> }",
        "@P #[must_use] #[doc = \"one\"] #[doc = \"two\"] pub struct S<'a, 'pin: 'a, T: ?Sized>(/** zero */ @p pub &'a u8, #[doc(hidden)] pub &'pin u8, pub Box<T>);",
        "#[doc(alias = \"x\")] @E #[non_exhaustive] pub enum S<const N: usize> { /** A doc */ A(/** a0 */ @p [u8; N], u8), #[doc(hidden)] B, /** C doc */ #[deprecated] C { /** x doc */ x: u8, @p y: String } }",
        "@P #[repr(C)] #[derive(Debug, Clone)] pub struct S { @p pub a: u8, b: ::std::rc::Rc<u8> }",
        "#[derive(PartialEq, Eq, Hash)] #[repr(u8)] @E pub enum S { A { @p f: u8 }, B(u16) }",
        "@P #[repr(transparent)] pub struct S<T>(@p pub T);",
    ]

    def view(ann):
        src = "#![allow(warnings)]\n" + "\n".join("pub mod k%d { use pin_project::pin_project; %s }" % (i, render(d, ann)) for i, d in enumerate(DOC)) + "\n"
        d = os.path.join(c.wd.path, "doc%d" % ann)
        os.makedirs(d)
        path = os.path.join(d, "inv.rs")
        with open(path, "w") as f:
            f.write(src)
        cmd = ["rustdoc", path, "--edition", "2021", "--crate-type", "lib", "--crate-name", "inv", "--extern", "pin_project=" + c.art.ext["pin_project"], "-L", "dependency=" + c.art.deps,
               "-Z", "unstable-options", "--output-format", "json", "--document-private-items", "--document-hidden-items", "-A", "warnings", "-o", d]
        rc, so, se, st = core.run(cmd, env=core.env_clean({"RUSTC_BOOTSTRAP": "1"}), timeout=240)
        jp = os.path.join(d, "inv.json")
        if rc != 0 or not os.path.exists(jp):
            return None, se
        j = json.load(open(jp))
        idx = j["index"]

        def clean(x):
            """Structure without item numbers and spans."""
            if isinstance(x, dict):
                return {k: clean(v) for k, v in sorted(x.items()) if k not in ("id", "span", "impls", "crate_id", "links")}
            if isinstance(x, list):
                return [clean(v) for v in x]
            return x

        def item(i):
            it = idx.get(str(i))
            if not it:
                return str(i)
            o = {"name": it["name"], "docs": it["docs"], "attrs": sorted(json.dumps(a) for a in it["attrs"] if not (isinstance(a, dict) and "other" in a and not a["other"].startswith("#[doc"))), "deprecation": it["deprecation"], "visibility": it["visibility"] if not isinstance(it["visibility"], dict) else "restricted"}
            k = list(it["inner"])[0]
            b = it["inner"][k]
            if k == "struct":
                kd = b["kind"]
                fs = kd.get("plain", {}).get("fields") if isinstance(kd, dict) and "plain" in kd else (kd.get("tuple") if isinstance(kd, dict) else [])
                o["generics"], o["fields"] = clean(b["generics"]), [item(f) for f in fs or []]
            elif k == "enum":
                o["generics"], o["variants"] = clean(b["generics"]), [item(v) for v in b["variants"]]
            elif k == "variant":
                kd = b["kind"]
                fs = [] if isinstance(kd, str) else (kd["tuple"] if "tuple" in kd else kd["struct"]["fields"])
                o["fields"], o["disc"] = [item(f) for f in fs], b.get("discriminant")
            else:
                o["inner"] = clean(b)
            if k in ("struct", "enum"):
                im = set()
                for n in b["impls"]:
                    ii = idx.get(str(n))
                    if not ii:
                        continue
                    bd = ii["inner"]["impl"]
                    tr = (bd.get("trait") or {}).get("path", "")
                    if bd.get("blanket_impl") or tr.split("::")[-1].startswith("_") or tr in ("Unpin",) or "Unpin" in tr or not tr:
                        continue
                    im.add((tr, bd.get("is_negative")))
                o["impls"] = sorted(im)
            return o
        out = {}
        for mid in idx[str(j["root"])]["inner"]["module"]["items"]:
            m = idx[str(mid)]
            for x in m["inner"].get("module", {}).get("items", []):
                y = idx.get(str(x))
                if y and y["name"] == "S":
                    out[m["name"]] = item(x)
        return out, ""
    p, e1 = view(False)
    a, e2 = view(True)
    if p is None or a is None:
        c.count("documentation_unavailable")
        return
    for i, d in enumerate(DOC):
        k = "k%d" % i
        c.case("docs/" + d, True)
        c.count("documented_types")
        pv, av = p.get(k) or {}, a.get(k) or {}
        if av:
            av["impls"] = [x for x in av["impls"] if x in pv.get("impls", [])]  # further ones are C14's business
        diff = [key for key in pv if pv[key] != av.get(key)]
        if diff:
            c.violate("docs/%d" % i, "documented view of the type differs in %s: plain %s annotated %s" % (diff, str({x: p[k][x] for x in diff})[:700], str({x: (a.get(k) or {}).get(x) for x in diff})[:700]), src=render(d, True))


CROSS = [
    # (library item, client, accepted) : how another crate sees the type must not change
    ("@P #[non_exhaustive] pub struct S { @p pub f: u8 }", "fn u() -> lib::S { lib::S { f: 1 } }"),
    ("@P #[non_exhaustive] pub struct S { @p pub f: u8 }", "fn u(s: lib::S) -> u8 { let lib::S { f, .. } = s; f }"),
    ("@E #[non_exhaustive] pub enum S { A(@p u8) }", "fn u(s: lib::S) -> u8 { match s { lib::S::A(x) => x } }"),
    ("@E #[non_exhaustive] pub enum S { A(@p u8) }", "fn u(s: lib::S) -> u8 { match s { lib::S::A(x) => x, _ => 1 } }"),
    ("@E pub enum S { #[non_exhaustive] A { @p x: u8 } }", "fn u(s: lib::S) -> u8 { match s { lib::S::A { x } => x } }"),
    ("@E pub enum S { A(@p u8), B { y: u8 } }", "fn u(s: lib::S) -> u8 { match s { lib::S::A(x) => x, lib::S::B { y } => y } }"),
    ("@P pub struct S { @p pub f: u8, pub g: String }", "fn u() -> String { let s = lib::S { f: 1, g: String::new() }; let t = lib::S { f: 2, ..s }; t.g }"),
    ("@P pub struct S { @p pub f: u8, g: String }", "fn u(s: lib::S) -> String { s.g }"),
    ("@P pub struct S(@p pub u8, pub u16);", "fn u() -> u16 { let f: fn(u8, u16) -> lib::S = lib::S; f(1, 2).1 }"),
    ("@P pub struct S(@p pub u8, u16);", "fn u() { let f = lib::S; }"),
    ("@P pub struct S<T>(@p pub T);", "fn u<'a>(s: lib::S<&'static u8>) -> lib::S<&'a u8> { s } const C: lib::S<u8> = lib::S(3);"),
    ("@P pub struct S<T>(@p pub T);", "fn q<T: Send + Sync + Unpin + ::std::panic::UnwindSafe + ::std::panic::RefUnwindSafe>() {} fn u() { q::<lib::S<u8>>() }"),
    ("@P pub struct S<T>(@p pub T);", "fn q<T: Send>() {} fn u() { q::<lib::S<::std::rc::Rc<u8>>>() }"),
    ("@P #[doc(hidden)] pub struct S<T: ?Sized>(@p pub T);", "fn u(s: &lib::S<[u8; 2]>) -> &lib::S<[u8]> { s }"),
]


def cross(c):
    def one(k):
        i, (l, u) = k
        try:
            res = []
            for ann in (False, True):
                ls = "#![allow(warnings)]\nuse pin_project::pin_project;\n" + render(l, ann)
                lp = os.path.join(c.wd.path, "libcross%d_%d.rmeta" % (i, ann))
                r = c.rustc(ls, name="lib", crate="lib", out=lp)
                if not r.ok:
                    res.append((None, r.brief()))
                    continue
                x = c.rustc("#![allow(warnings)]\n" + u, name="client", externs=("pin_project", "vrt", "lib=" + lp))
                res.append((x.ok, x.brief()))
                os.unlink(lp)
            c.case("cross/%s/%s" % (l, u), True)
            c.count("cross_crate")
            if res[0][0] != res[1][0]:
                c.violate("cross/%d" % i, "%s used from another crate by %s: plain %s, annotated %s" % (l, u, res[0], res[1]), src=render(l, True) + "\n// client\n" + u)
        except core.Inconclusive as e:
            c.inconclusive(str(e))
    core.pmap(one, list(enumerate(CROSS)))


def transformed(c):
    """Attribute macros beside the annotation that change the declaration: the type and its projections are those of the changed one."""
    cs = []
    X = "use ::core::marker::PhantomPinned; use ::core::pin::Pin; use pin_project::{pin_project, pinned_drop}; pub struct Pn(pub u8, PhantomPinned); pub fn pn() -> Pn { Pn(1, PhantomPinned) }\n"
    for args in ("", "project = SP", "project_replace", "!Unpin", "project = SP, project_ref = SR, project_replace = SO"):
        pp = "#[pin_project%s]" % ("(%s)" % args if args else "")
        for first in (True, False):
            def at(*m):
                m = " ".join(m)
                return "%s %s" % (pp, m) if first else "%s %s" % (m, pp)
            up = "false" if "!Unpin" in args else "true"
            nm = "%s/%s" % (args, "above" if first else "below")
            rep = "project_replace" in args
            cs.append(("named/" + nm, at("#[vaux::with_field(#[pin] pub e: u16, pub h: String)]") + " pub struct S { #[pin] pub f: u8, pub g: u8, }",
                       "let mut s = Box::pin(S { f: 1, g: 2, e: 3, h: \"x\".to_string() }); { let p = s.as_mut().project(); let _: &Pin<&mut u8> = &p.f; let _: &Pin<&mut u16> = &p.e; let _: &&mut String = &p.h; *p.g = 7; p.h.push('y'); vrt::eq(*p.e, 3); }"
                       " { let p = s.as_ref().project_ref(); vrt::eq(*p.g, 7); vrt::eq(p.h.as_str(), \"xy\"); let _: Pin<&u16> = p.e; } vrt::eq(vrt::is!(S: Unpin), %s);" % up +
                       (" let o = s.as_mut().project_replace(S { f: 1, g: 2, e: 30, h: String::new() }); vrt::eq(o.h.as_str(), \"xy\"); let _: ::core::marker::PhantomData<u16> = o.e; vrt::eq(s.e, 30);" if rep else "")))
            cs.append(("tuple/" + nm, at("#[vaux::with_field(#[pin] pub Pn, pub u32)]") + " pub struct S(#[pin] pub u8, pub u16,);",
                       "let mut s = Box::pin(S(1, 2, pn(), 4)); { let p = s.as_mut().project(); let _: &Pin<&mut Pn> = &p.2; *p.3 += 1; } { let p = s.as_ref().project_ref(); vrt::eq(*p.3, 5); let _: Pin<&Pn> = p.2; } vrt::eq(vrt::is!(S: Unpin), false);"))
            cs.append(("unpinned/" + nm, at("#[vaux::with_field(pub h: Pn)]") + " pub struct S { #[pin] pub f: u8, }",
                       "let mut s = Box::pin(S { f: 1, h: pn() }); { let p = s.as_mut().project(); *p.h = Pn(9, PhantomPinned); } vrt::eq(s.h.0, 9); vrt::eq(vrt::is!(S: Unpin), %s);" % up))
            cs.append(("subst/" + nm, at("#[vaux::subst(OLD, Vec<Pn>)]") + " pub struct S { #[pin] pub f: OLD, pub g: OLD }",
                       "let mut s = Box::pin(S { f: vec![], g: vec![] }); { let p = s.as_mut().project(); p.g.push(pn()); let _: &Pin<&mut Vec<Pn>> = &p.f; } vrt::eq(s.g.len(), 1); vrt::eq(vrt::is!(S: Unpin), false);"))
            cs.append(("rename/" + nm, at("#[vaux::subst(g, renamed)]") + " pub struct S { #[pin] pub f: u8, pub g: u8 }",
                       "let mut s = Box::pin(S { f: 1, renamed: 2 }); *s.as_mut().project().renamed = 5; vrt::eq(s.renamed, 5);"))
            cs.append(("pins/" + nm, at("#[vaux::subst(marked, pin)]") + " pub struct S { #[marked] pub f: Pn, pub g: u8 }",
                       "let mut s = Box::pin(S { f: pn(), g: 2 }); let _: Pin<&mut Pn> = s.as_mut().project().f; vrt::eq(vrt::is!(S: Unpin), false);"))
            if not first:  # above, the macro would see the annotation's own #[pin] too
              cs.append(("unpins/" + nm, at("#[vaux::subst(pin, doc(hidden))]") + " pub struct S { #[pin] pub f: Pn, pub g: u8 }",
                       "let mut s = Box::pin(S { f: pn(), g: 2 }); let _: &mut Pn = s.as_mut().project().f; vrt::eq(vrt::is!(S: Unpin), %s);" % up))
            cs.append(("generic/" + nm, at("#[vaux::with_field(#[pin] pub e: T)]", "#[vaux::identity]") + " pub struct S<T> where T: Copy { pub f: T, }",
                       "let mut s = Box::pin(S { f: 1u8, e: 2u8 }); let _: Pin<&mut u8> = s.as_mut().project().e; vrt::eq(vrt::is!(S<u8>: Unpin), %s);" % up))
            cs.append(("repr/" + nm, at("#[vaux::hidden_attr(repr(C, align(64)))]") + " pub struct S { #[pin] pub f: u8, pub g: u32 }",
                       "vrt::eq(::core::mem::align_of::<S>(), 64); let mut s = Box::pin(S { f: 1, g: 2 }); let a = s.as_mut().project().g as *mut u32 as usize; vrt::eq(a - &*s as *const S as usize, 4);"))
            if "SP" in args:
                cs.append(("enum/" + nm, at("#[vaux::with_field(E { #[pin] e: Pn, h: u8 }, U)]") + " pub enum S { A(#[pin] u8), }",
                           "let mut s = Box::pin(S::E { e: pn(), h: 3 }); match s.as_mut().project() { SP::E { e, h } => { let _: Pin<&mut Pn> = e; *h += 1; } SP::A(_) | SP::U => panic!(\"wrong variant\") } match &*s { S::E { h, .. } => vrt::eq(*h, 4), _ => panic!(\"wrong variant\") } vrt::eq(vrt::is!(S: Unpin), false);"))
    out = []
    for n, d, b in cs:
        out.append(suite.Case("transformed/" + n, X + d + "\npub fn run() { " + b + " }\n", key=n))
    # a pinned destructor of a changed declaration
    for order in ("#[pin_project(PinnedDrop)] #[vaux::with_field(#[pin] pub e: u16)]", "#[vaux::with_field(#[pin] pub e: u16)] #[pin_project(PinnedDrop)]"):
        out.append(suite.Case("transformed/drop/" + order, X + order + " pub struct S { pub f: u8, }\n#[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) { let p = self.project(); let _: Pin<&mut u16> = p.e; vrt::say(\"dropped\"); } }\n"
                              "pub fn run() { vrt::said(); drop(S { f: 1, e: 2 }); vrt::eq(vrt::said().len(), 1); }\n", key=order))
    return out


def c17(c):
    rng = random.Random("C17/%s" % c.seed)
    cs = []
    for i in range(c.pick(1200, 8000)):
        t = T(rng)
        cs.append(suite.Case("random/%d" % i, t.module(), key=t.decl(True)))
    cs += transformed(c)
    suite.run_suite(c, cs, per=16, extra=[], externs=("pin_project", "vrt", "vaux"))
    verdicts(c)
    generic.family(c, c.pick(2000, 20000), "C17")
    grun.layout(c, c.pick(500, 5000))
    lints(c)
    docs(c, cs)
    cross(c)
    c.rule = "random declarations observed (layout, niches, offsets, auto traits, derives, construction, destructuring, constants, discriminants) beside a plain twin of the same text; verdict and diagnostics twins for variance, drop check, constness, privacy and attributes; rustdoc's view of the type; distinct by declaration or program"
