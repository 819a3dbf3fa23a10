"""C15: whatever the language allows without the annotation is allowed with it (twin verdicts)."""
import os
import random
import re
import shutil
from . import core, suite, verdict

PRE = ("use pin_project::{pin_project, pinned_drop, UnsafeUnpin}; use ::core::marker::{PhantomData, PhantomPinned}; use ::std::fmt::Debug; "
       "pub trait Tr { type A; type G<'g, X> where Self: 'g, X: 'g; const K: usize = 2; fn m(&self) {} } impl<X: ?Sized> Tr for X { type A = u8; type G<'g, Y> = &'g Y where Self: 'g, Y: 'g; } "
       "pub trait Ob { fn o(&self) {} } pub struct Ty<X: ?Sized>(::std::boxed::Box<X>); pub struct Lt<'l, X>(&'l X); pub struct Cn<const M: usize>; pub struct r#Trait0(u8); pub mod sub { pub struct In<X>(pub X); } "
       "macro_rules! mty { ($t:ty) => { ::core::option::Option<$t> }; } ")

LTS = ["'a", "'b", "'c", "'pin", "'pin_", "'pin__", "'pinned", "'p", "'this", "'lt", "'long_lifetime_name", "'r", "'x", "'pi"]
TPS = ["T", "U", "V", "Fut", "Pin", "Unpin", "Drop", "Send", "Sized", "Option", "P", "Self_", "Projection", "PhantomData_", "r#Type", "A", "Target", "Lowercase", "t", "TT", "Wrapper", "K1", "Box"]
CPS = ["N", "M", "SIZE", "n", "FLAG"]


class G:
    """Random generics."""

    def __init__(self, rng):
        self.rng = rng
        self.lts = rng.sample(LTS, rng.choice([0, 0, 0, 1, 1, 2, 3]))
        self.tps = rng.sample(TPS, rng.choice([0, 1, 1, 1, 2, 2, 3]))
        self.cps = rng.sample(CPS, rng.choice([0, 0, 0, 0, 1, 2]))
        self.maybe = set()
        self.params = []      # (kind, name, decl, default)
        for i, l in enumerate(self.lts):
            b = [x for x in self.lts[:i] if rng.random() < 0.3]
            self.params.append(("l", l, l + (": " + " + ".join(b) if b else ""), ""))
        tail = []
        dflt = False
        for i, t in enumerate(self.tps):
            b = []
            others = [x for x in self.tps if x != t]
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                b.append(rng.choice(["Debug", "Tr", "Clone", "Copy", "Tr<A = u8>", "Iterator", "Iterator<Item = u8>", "'static", "Ob", "::core::marker::Send", "for<'q> Fn(&'q u8) -> &'q u8",
                                     "Fn(u8) -> u8", "FnMut()", "Into<::std::string::String>", "PartialEq<Vec<u8>>", "::core::marker::Sized", "::core::marker::Unpin", "AsRef<[u8]>", "crate::CR", "?::core::marker::Sized", "(Debug)", "Ob + 'static"]
                                    + (["Into<%s>" % rng.choice(others), "PartialEq<%s>" % rng.choice(others), "Fn(&%s)" % rng.choice(others)] if others else [])
                                    + ([rng.choice(self.lts)] * 3 if self.lts else [])
                                    + (["AsRef<[u8; %s]>" % rng.choice(self.cps)] if self.cps and self.cps[0] != "FLAG" else [])))
            b = list(dict.fromkeys(b))
            if any("?" in x for x in b):
                self.maybe.add(t)
            d = ""
            if dflt or rng.random() < 0.12:
                d = " = " + rng.choice(["u8", "()", "Vec<u8>", "[u8; 2]", "fn(u8) -> u8", "&'static str"])
                dflt = True
            tail.append(("t", t, t + (": " + " + ".join(b) if b else ""), d))
        for k in self.cps:
            ty = "bool" if k == "FLAG" else rng.choice(["usize", "usize"])
            d = ""
            if dflt or rng.random() < 0.15:
                d = " = " + ("true" if ty == "bool" else rng.choice(["3", "{ 1 + 2 }"]))
                dflt = True
            tail.append(("c", k, "const %s: %s" % (k, ty), d))
        if not dflt and rng.random() < 0.5:
            rng.shuffle(tail)
        self.params += tail
        w = []
        for _ in range(rng.choice([0, 0, 0, 1, 2, 3])):
            c = ["u8: Copy", "::std::string::String: Clone", "Self: ::core::marker::Sized", "for<'q> &'q u8: Debug", "Self: Tr", "Self: 'static"]
            for t in self.tps:
                s = t
                c += ["%s: Debug" % s, "%s: Debug + Clone" % s, "Vec<%s>: Clone" % s, "for<'q> &'q %s: Debug" % s, "for<'q> %s: Fn(&'q u16)" % s, "[%s; 2]: Debug" % s, "::core::option::Option<%s>: Copy" % s,
                      "<%s as Tr>::A: Debug" % s, "%s:" % s, "(%s, u8): Debug" % s, "%s: Tr" % s, "Ty<%s>: Tr<A = u8>" % s, "fn(%s): Debug" % s, "Ty<Self>: Tr" if False else "%s: 'static" % s, "for<'pin> &'pin %s: Debug" % s]
                for l in self.lts:
                    c += ["%s: %s" % (s, l), "&%s %s: Debug" % (l, s), "%s: Debug + %s" % (s, l)]
            for k in self.cps:
                if k != "FLAG":
                    c += ["[u8; %s]: Debug" % k, "[(); %s]: ::core::marker::Sized" % k, "Cn<%s>: Tr" % k]
            for l in self.lts:
                c += ["%s: 'static" % l if False else "'static: %s" % l, "%s: %s" % (l, rng.choice(self.lts))]
            w.append(rng.choice(c))
        self.where = list(dict.fromkeys(w))
        # Outlives bounds that the language would infer from the fields are spelt out where
        # where clauses depend on them (see the inferred-outlives probe).
        if self.lts and self.tps and (self.where or rng.random() < 0.4):
            self.explicit = True
            self.params = [(k, n, (d + (" + " if ":" in d else ": ") + " + ".join(self.lts)) if k == "t" else d, df) for k, n, d, df in self.params]
        else:
            self.explicit = False
        self.trail = rng.random() < 0.4
        self.empty_where = rng.random() < 0.05

    def decl(self):
        if not self.params:
            return self.rng.choice(["", "", "<>"])
        return "<%s%s>" % (", ".join(p[2] + p[3] for p in self.params), self.rng.choice(["", ","]))

    def impl(self):
        return "<%s>" % ", ".join(p[2] for p in self.params) if self.params else ""

    def args(self, first=None):
        a = ([first] if first else []) + [p[1] for p in self.params]
        return "<%s>" % ", ".join(a) if a else ""

    def wh(self):
        if self.where:
            return " where " + ", ".join(self.where) + ("," if self.trail else "")
        return " where" if self.empty_where else ""

    def ty(self, last=False, depth=0):
        rng = self.rng
        if not last and depth < 3 and rng.random() < 0.16:
            a, b = self.ty(depth=depth + 1), self.ty(depth=depth + 1)
            l = rng.choice(self.lts + ["'static"])
            # a reference implies outlives bounds, which the language infers from fields (see the inferred-outlives probe)
            if any(x not in (l, "'static", "'q", "'pin") for x in re.findall(r"'\w+", a)) or "Self" in a or any(re.search(r"(?<!\w)%s\b" % re.escape(t), a) for t in self.tps) and (l == "'static" or not self.explicit):
                l = None
            if l and rng.random() < 0.25:
                return rng.choice(["&%s %s" % (l, a), "&%s mut %s" % (l, a), "&%s [%s]" % (l, a), "::core::pin::Pin<&%s mut %s>" % (l, a)])
            return rng.choice(["::core::option::Option<%s>" % a, "(%s, %s)" % (a, b), "(%s,)" % a, "[%s; 2]" % a, "fn(%s) -> %s" % (a, b), "::std::boxed::Box<%s>" % a, "Vec<%s>" % a, "sub::In<%s>" % a, "Ty<%s>" % a,
                               "PhantomData<%s>" % a, "*const %s" % a, "::core::result::Result<%s, %s>" % (a, b), "(%s)" % a, "mty!(%s)" % a, "::core::pin::Pin<::std::boxed::Box<%s>>" % a, "::core::mem::ManuallyDrop<%s>" % a,
                               "::core::cell::RefCell<%s>" % a, "::std::collections::BTreeMap<%s, %s>" % (a, b), "dyn_box!(%s)" % a if False else "::std::boxed::Box<dyn Fn(%s) -> %s>" % (a, b), "<%s as Tr>::A" % a if "&" not in a and "Self" not in a and not any(": Tr" in w for w in self.where) else a, "::std::rc::Rc<%s>" % a])
        c = ["u8", "::std::string::String", "Vec<u8>", "Ty<Self>", "::core::option::Option<::std::boxed::Box<Self>>", "*const Self", "PhantomData<Self>", "fn(&Self) -> u8", "&'static str", "((u8))", "(u8,)", "()", "[u8; { 1 + 2 }]",
             "PhantomPinned", "for<'q> fn(&'q u8) -> &'q u8", "for<'pin> fn(&'pin u8) -> &'pin u8", "fn(&u8) -> &u8", "unsafe extern \"C\" fn(u8)", "::std::boxed::Box<dyn Ob>", "::std::boxed::Box<dyn Ob + ::core::marker::Send + 'static>",
             "::std::boxed::Box<dyn for<'pin> Fn(&'pin u8) -> &'pin u8>", "::std::boxed::Box<dyn Fn(&Self) -> Vec<Self>>", "mty!(u8)", "mty!(fn(&Self) -> u8)", "mty!(Option<fn() -> Self>)", "crate::CT", "self::sub::In<u8>", "super::super_t!()" if False else "sub::In<sub::In<u8>>", "r#Trait0", "Cn<3>", "Cn<{ 2 + 2 }>",
             "<u8 as Tr>::A", "<Self as Tr>::A" if False else "<Vec<u8> as Tr>::A", "&'static dyn Ob", "[[u8; 2]; 3]", "[u8; <u8 as Tr>::K]", "::core::pin::Pin<::std::boxed::Box<dyn ::core::future::Future<Output = u8>>>", "PhantomData<fn(Self) -> Self>",
             "[&'static Self; 0]" if False else "[u8; 0]", "fn(u8, for<'q> fn(&'q u8)) -> !", "(dyn_t![])" if False else "(u8, (u16, [u8; 1]))", "<u8 as Tr>::G<'static, u8>", "::std::rc::Rc<Self>", "PhantomData<[Self]>", "*mut [Self]"]
        for t in self.tps:
            b = "PhantomData<%s>" % t
            if t in self.maybe:
                c += [b, "Ty<%s>" % t, "::std::boxed::Box<%s>" % t, "*const %s" % t, "PhantomData<*const %s>" % t]
                continue
            c += [t, t, t, "::core::option::Option<%s>" % t, "(%s, u8)" % t, "[%s; 2]" % t, b, "Vec<%s>" % t, "*mut %s" % t, "fn(%s) -> %s" % (t, t), "<%s as Tr>::A" % t, "Ty<%s>" % t, "sub::In<%s>" % t, "mty!(%s)" % t,
                  "::std::boxed::Box<dyn Fn(%s) -> Self>" % t if False else "fn(&%s) -> &%s" % (t, t), "((%s))" % t, "[%s; <u8 as Tr>::K]" % t, "for<'pin> fn(&'pin %s)" % t, "%s::A" % t, "%s::Item" % t, "::core::mem::ManuallyDrop<%s>" % t, "PhantomData<dyn Fn(%s)>" % t, "self::sub::In<[%s; 1]>" % t]
            for l in self.lts:
                c += ["&%s %s" % (l, t), "&%s mut %s" % (l, t), "Lt<%s, %s>" % (l, t), "::std::boxed::Box<dyn Fn(&%s %s) + %s>" % (l, t, l), "&%s [%s]" % (l, t)] + (["<%s as Tr>::G<%s, u8>" % (t, l)] if self.explicit else [])
            for k in self.cps:
                if k != "FLAG":
                    c += ["[%s; %s]" % (t, k), "[%s; { %s }]" % (t, k)]
        for l in self.lts:
            c += ["&%s u8" % l, "&%s mut [u8]" % l, "::std::boxed::Box<dyn Ob + %s>" % l, "Lt<%s, u8>" % l, "fn(&%s u8)" % l, "::std::borrow::Cow<%s, str>" % l, "PhantomData<&%s mut &%s ()>" % (l, l), "&%s dyn Ob" % l, "for<'pin2> fn(&%s u8, &'pin2 u8)" % l, "&%s (dyn Ob + %s)" % (l, l), "(&%s u8, &%s u8)" % (l, self.rng.choice(self.lts))]
        for k in self.cps:
            if k == "FLAG":
                continue
            c += ["[u8; %s]" % k, "Cn<%s>" % k, "Cn<{ %s }>" % k, "[[u8; %s]; 2]" % k]
        if last:
            c = ["[u8]", "str", "dyn Ob", "dyn Debug + 'static", "[Ty<Self>]", "(dyn Ob + ::core::marker::Send)"] + [t for t in self.maybe] * 4 + ["[%s]" % t for t in self.tps if t not in self.maybe]
        return rng.choice(c)

    def anchor(self):
        """A type that uses every parameter."""
        a = ["PhantomData<%s>" % t for t in self.tps] + ["&%s ()" % l for l in self.lts]
        return "(%s)" % "".join(x + ", " for x in a) if a else "u8"


FNAMES = ["a", "b", "c", "field", "r#type", "r#fn", "pin", "project", "this", "drop", "self_", "x1", "value", "r#move", "unpin", "t", "ptr", "result", "фыва", "r#async", "r#dyn", "guard", "ünï", "pin_project", "pinned", "r#static", "core", "std", "test", "union", "auto", "default", "raw", "macro_rules", "Upper", "camelCase", "X", "SHOUT_1", "_9", "__x", "r#try", "r#box", "r#yield", "f0", "get_ref"]


def declaration(rng, name="S", dead=0.0):
    """Returns (annotated, extra uses of the projections); the plain twin strips the markers."""
    g = G(rng)
    kind = rng.choice(["named", "named", "tuple", "enum", "enum"])
    nf = rng.choice([1, 2, 2, 3, 4, 6]) if rng.random() < 0.97 else rng.choice([9, 13, 20])
    unsized = kind != "enum" and rng.random() < 0.12
    shape, shapes = [], []

    def field(style, i, nm, ty, vis=True):
        at = "".join(rng.choice(["", "", "", "/** doc */ ", "#[allow(dead_code)] ", "#[cfg(all())] ", "#[doc = \"x\"] "]) for _ in range(rng.choice([1, 1, 1, 2, 4])))
        v = rng.choice(["", "", "pub ", "pub(crate) ", "pub(super) ", "pub(self) ", "pub(in super) ", "pub(in crate) "]) if vis else ""
        p = "#[pin] " if rng.random() < 0.5 else ""
        if dead:
            if p and rng.random() < 0.5:
                p = rng.choice(["#[cfg_attr(all(), pin)] ", "#[cfg_attr(not(any()), pin)] ", "#[cfg_attr(all(), doc = \"d\", pin)] ", "#[cfg_attr(all(), cfg_attr(all(), pin))] "])
            elif not p and rng.random() < 0.4:
                at += rng.choice(["#[cfg_attr(any(), pin)] ", "#[cfg_attr(not(all()), pin)] ", "#[cfg_attr(all(), cfg_attr(any(), pin))] "])
        shape.append((nm if style == "named" else str(i), ty, bool(p)))
        a2 = "".join(rng.choice(["", "", "#[allow(unused)] ", "/** d */ "]) for _ in range(rng.choice([1, 1, 3])))
        return (at + p if rng.random() < 0.7 else p + at) + a2 + v + ("%s: %s" % (nm, ty) if style == "named" else ty)

    def fields(style, n, anchor, vis):
        nm = rng.sample(FNAMES, min(n + 1, len(FNAMES)))
        tys = [g.ty() for _ in range(n)]
        if anchor:
            tys.insert(rng.randrange(len(tys) + 1), g.anchor())
        if unsized:
            tys[-1] = g.ty(last=True)
        shape.clear()
        fs = [field(style, i, nm[i], t, vis) for i, t in enumerate(tys)]
        if dead:
            for _ in range(rng.choice([0, 1, 1, 2])):
                f = rng.choice(["#[cfg(any())] ", "#[cfg(not(all()))] ", "#[cfg_attr(all(), cfg(any()))] ", "#[cfg(all())] #[cfg(any())] "])
                f += rng.choice(["", "#[pin] ", "#[pin] #[pin] " if False else "#[pin] "]) + (rng.choice(["gone", "r#in", "a", "фыва"]) + "%d: " % rng.randrange(9) if style == "named" else "") + rng.choice(["Missing", "u8", "PhantomPinned", "<Missing as Tr>::A"])
                if not unsized or True:
                    fs.insert(rng.randrange(len(fs) + 1), f)
        tr = "," if rng.random() < 0.5 else ""
        return ("{ %s%s }" if style == "named" else "(%s%s)") % (", ".join(fs), tr), nm, tys
    vis = rng.choice(["", "pub ", "pub(crate) ", "pub(super) ", "pub(self) ", "pub(in super) ", "crate_" if False else ""])
    args = []
    if rng.random() < 0.5 or kind == "enum":
        args.append("project = SP")
    if rng.random() < 0.4 or (kind == "enum" and rng.random() < 0.4):
        args.append("project_ref = SR")
    pd = rng.random() < 0.15
    if not unsized and not pd and rng.random() < 0.3:
        args.append("project_replace = SO")
    mode = rng.choice(["", "", "", "!Unpin", "UnsafeUnpin"])
    if mode:
        args.append(mode)
    if pd:
        args.append("PinnedDrop")
    rng.shuffle(args)
    at = "#[pin_project(%s)]" % ", ".join(args) if args else rng.choice(["#[pin_project]", "#[pin_project()]", "#[::pin_project::pin_project]"])
    if kind == "enum":
        vs = []
        nv = rng.choice([1, 2, 3, 4])
        for i in range(nv):
            st = rng.choice(["named", "tuple"])
            body, _, _ = fields(st, rng.choice([1, 2, 3]), i == 0, False)
            vs.append("%s%s %s" % (rng.choice(["", "", "/** d */ "]), ["A", "B", "r#Match", "Some", "Pin"][i], body))
            shapes.append((["A", "B", "r#Match", "Some", "Pin"][i], list(shape)))
        if dead and rng.random() < 0.6:
            vs.append(rng.choice(["#[cfg(any())] ", "#[cfg(not(all()))] ", "#[cfg_attr(all(), cfg(any()))] "]) + rng.choice(["Gone", "Gone(#[pin] Missing)", "Gone { #[pin] x: Missing, y: u8 }", "A(#[pin] PhantomPinned)"]))
        if rng.random() < 0.3:
            vs.append(rng.choice(["U", "U {}", "U()", "None"]))
        rng.shuffle(vs)
        body = "{ %s%s }" % (", ".join(vs), rng.choice(["", ","]))
        d = "%senum %s%s%s %s" % (vis, name, g.decl(), g.wh(), body)
    elif kind == "named":
        body, nm, tys = fields("named", nf, True, True)
        d = "%sstruct %s%s%s %s" % (vis, name, g.decl(), g.wh(), body)
    else:
        body, nm, tys = fields("tuple", nf, True, True)
        d = "%sstruct %s%s%s%s;" % (vis, name, g.decl(), body, g.wh())
    d = "".join(rng.choice(["/** item */ ", "#[must_use] ", "#[non_exhaustive] ", "#[allow(dead_code)] ", "#[cfg(all())] ", "#[repr(C)] ", "#[doc(hidden)] ", "#[cfg_attr(all(), doc = \"x\")] ", "#[derive()] ", "#[deprecated] "]) for _ in range(rng.choice([0, 0, 0, 0, 1, 1, 2]))) + d
    use = ""
    ms = []
    if kind != "enum" or "project = SP" in args:
        ms.append("fn use_p(self: ::core::pin::Pin<&mut Self>) { let _p = self.project(); }")
    if kind != "enum" or "project_ref = SR" in args:
        ms.append("fn use_r(self: ::core::pin::Pin<&Self>) { let _p = self.project_ref(); }")
    if "project = SP" in args:
        ms.append("fn sig_p<'zz>(self: ::core::pin::Pin<&'zz mut Self>) -> SP%s { self.project() }" % g.args("'zz"))
    if "project_ref = SR" in args:
        ms.append("fn sig_r<'zz>(self: ::core::pin::Pin<&'zz Self>) -> SR%s { self.project_ref() }" % g.args("'zz"))
    if "project_replace = SO" in args:
        ms.append("fn sig_o(self: ::core::pin::Pin<&mut Self>, v: Self) -> SO%s { self.project_replace(v) }" % g.args())
    if ms:
        use += "impl%s %s%s%s { %s }" % (g.impl(), name, g.args(), g.wh(), " ".join(ms))
    if pd:
        use += " #[pinned_drop] impl%s PinnedDrop for %s%s%s { fn drop(self: ::core::pin::Pin<&mut Self>) { %s } }" % (g.impl(), name, g.args(), g.wh(), rng.choice(["", "let _ = self.as_ref();", "let _x: ::core::pin::Pin<&mut Self> = self;"]))
    if mode == "UnsafeUnpin" and rng.random() < 0.5:
        use += " unsafe impl%s UnsafeUnpin for %s%s%s {}" % (g.impl(), name, g.args(), g.wh())
    plain_use = "impl%s %s%s%s { fn use_p(self: ::core::pin::Pin<&mut Self>) {} }" % (g.impl(), name, g.args(), g.wh())
    return at, d, use, plain_use, Typed(g, name, kind, args, shapes or [("", list(shape))], not unsized)


class Typed:
    """Code that states the type of every field of every projection."""

    def __init__(self, g, name, kind, args, shapes, sized=True):
        self.sized = sized
        self.g, self.name, self.kind, self.args, self.shapes = g, name, kind, args, shapes

    def body(self, recv, expr, ty, form):
        def stmts(fs, acc):
            return " ".join("let _: %s = %s;" % (form(t, pinned), acc(i, nm)) for i, (nm, t, pinned) in enumerate(fs))
        if self.kind != "enum":
            return "let p = %s; %s" % (expr, stmts(self.shapes[0][1], lambda i, nm: recv + "p." + nm))
        arms = ""
        for v, fs in self.shapes:
            arms += "%s::%s { %s.. } => { %s } " % (ty, v, "".join("%s: x%d, " % (nm, i) for i, (nm, _, _) in enumerate(fs)), stmts(fs, lambda i, nm: recv + "*x%d" % i if recv else "x%d" % i))
        return "match %s { %s _ => {} }" % (expr, arms)

    def impl(self, ms):
        g = self.g
        return "impl%s %s%s%s { %s }" % (g.impl(), self.name, g.args(), g.wh(), " ".join(ms))

    def plain(self):
        """The same statements about the plain declaration."""
        ms = ["fn ty_p<'zz>(&'zz mut self) { %s }" % self.body("&mut ", "self", "Self", lambda t, p: "&'zz mut (%s)" % t),
              "fn ty_r<'zz>(&'zz self) { %s }" % self.body("&", "self", "Self", lambda t, p: "&'zz (%s)" % t)]
        if "project_replace = SO" in self.args:
            ms.append("fn ty_o(self) { %s }" % self.body("", "self", "Self", lambda t, p: t))
        return self.impl(ms)

    def annotated(self):
        pin = "::core::pin::Pin<%s>"
        ms = []
        if self.kind != "enum" or "project = SP" in self.args:
            ms.append("fn ty_p<'zz>(self: ::core::pin::Pin<&'zz mut Self>) { %s }" % self.body("", "self.project()", "SP", lambda t, p: (pin if p else "%s") % ("&'zz mut (%s)" % t)))
        if self.kind != "enum" or "project_ref = SR" in self.args:
            ms.append("fn ty_r<'zz>(self: ::core::pin::Pin<&'zz Self>) { %s }" % self.body("", "self.project_ref()", "SR", lambda t, p: (pin if p else "%s") % ("&'zz (%s)" % t)))
        if "project_replace = SO" in self.args:
            ms.append("fn ty_o(self: ::core::pin::Pin<&mut Self>, v: Self) { %s }" % self.body("", "self.project_replace(v)", "SO", lambda t, p: ("::core::marker::PhantomData<%s>" if p else "%s") % t))
        return self.impl(ms)


def typed(c, n, dead=0.0):
    """C01, C02, C03 (replacement results): every field of every projection has the declared type and pinning, for everything the grammar of C15 declares;
    C16: the same with parts that conditional compilation removes."""
    rng = random.Random("%st/%s" % (c.prop, c.seed))
    items = []
    while len(items) < n:
        a, d, u, pu, t = declaration(rng, dead=dead)
        if c.prop == "C03" and "project_replace = SO" not in t.args:
            continue
        pd = u[u.index("#[pinned_drop]"):].split(" unsafe impl")[0] if "PinnedDrop" in t.args else ""
        items.append(("typed %s %s" % (a, d), PRE + strip(d) + " " + t.plain(), PRE + a + " " + d + " " + t.annotated() + " " + pd))
    twins(c, items)
    c.count("typed_declarations", len(items))


def strip(d):
    d = re.sub(r"#\[cfg_attr\([^\]]*\bpin\)+\] ", "", d)
    return d.replace("#[pin] ", "").replace("#[pin]", "")


CRATE = "pub trait CR {} pub struct CT; impl<T: ?Sized> CR for T {}"


def hand():
    """Hand-written hostile declarations: (name, attribute, declaration, uses)."""
    P = "#[pin_project]"
    o = []

    def add(n, a, d, u=""):
        o.append((n, a, d, u))
    add("self in bound", P, "struct S<T> where Self: Tr, T: Tr<A = u8> { #[pin] f: T }")
    add("self assoc const", P, "struct S<T> { #[pin] f: T, g: [u8; <u8 as Tr>::K] }")
    add("self paths", P, "struct S<T> { #[pin] f: ::core::option::Option<::std::boxed::Box<Self>>, g: PhantomData<fn(Self) -> T>, h: *const [Self] }")
    add("self pinned phantom", P, "struct S<T> { #[pin] f: PhantomData<Self>, g: T }")
    add("self in fn pointer", P, "struct S<'a, T> { #[pin] f: fn(&Self, &'a T) -> Self }")
    add("self dyn", P, "struct S<'a> { #[pin] f: ::std::boxed::Box<dyn Fn(&Self) -> &'a u8 + 'a> }")
    add("self qualified", P, "struct S<T> { #[pin] f: ::std::boxed::Box<<Self as Own>::B>, t: T } pub trait Own { type B; } impl<T> Own for S<T> { type B = u8; }")
    add("self turbofish const", P, "struct S<const N: usize> { #[pin] f: [u8; N], g: Cn<N>, h: Cn<{ 3 }> }")
    add("hrtb field", P, "struct S<F> where F: for<'pin> Fn(&'pin u8) -> &'pin u8 { #[pin] f: F }")
    add("hrtb nested", P, "struct S<F> where for<'pin, 'a> F: Fn(&'pin u8, &'a F) { #[pin] f: F, g: for<'pin> fn(for<'pin_> fn(&'pin u8, &'pin_ u8)) }")
    add("lifetime family", P, "struct S<'pin, 'pin_, 'pin__, T> { #[pin] f: &'pin mut T, g: &'pin_ u8, h: &'pin__ u8 }")
    add("lifetime prefix", P, "struct S<'pinned, 'p, 'pi> { #[pin] f: &'pinned u8, g: &'p u8, h: &'pi u8 }")
    add("lifetime bounds", P, "struct S<'a: 'b, 'b, 'c: 'a + 'b, T: 'a + 'b + ?Sized> { #[pin] f: &'a T, g: &'b u8, h: &'c u8 }")
    add("gat field", P, "struct S<'a, T: Tr + 'a> { #[pin] f: <T as Tr>::G<'a, u8>, g: T::A }")
    add("assoc chain", P, "struct S<I: Iterator> where I::Item: IntoIterator, <I::Item as IntoIterator>::Item: Debug { #[pin] f: <I::Item as IntoIterator>::IntoIter, g: ::core::option::Option<I::Item>, i: I }")
    add("assoc equality", P, "struct S<I, U> where I: Iterator<Item = (U, <U as Tr>::A)>, U: Tr { #[pin] f: I, g: ::core::option::Option<I::Item> }")
    add("const expr default", P, "struct S<T = Vec<u8>, const N: usize = { 2 + 3 }, const B: bool = true, const C: char = 'x'> { #[pin] f: T, g: [u8; N] }")
    add("default refers to earlier", P, "struct S<T = u8, U = ::core::option::Option<T>> { #[pin] f: T, #[pin] g: U }")
    add("default lifetimes", P, "struct S<'a, T: 'a + ?Sized = dyn Ob + 'a> { #[pin] f: &'a T }")
    add("unsized slice", P, "struct S<T> { a: u8, #[pin] f: [T] }")
    add("unsized dyn", P, "struct S { a: u8, #[pin] f: dyn Ob }")
    add("unsized str unpinned", P, "struct S { #[pin] a: u8, f: str }")
    add("unsized param", P, "struct S<T: ?Sized> { a: u8, #[pin] f: T }", "fn dynuse(s: ::core::pin::Pin<::std::boxed::Box<S<dyn Ob>>>) { let mut s = s; let p = s.as_mut().project(); p.f.as_ref().get_ref().o(); }")
    add("unsized param where", P, "struct S<T> where T: ?Sized + Ob { a: u8, f: T }", "fn dynuse(s: ::core::pin::Pin<::std::boxed::Box<S<dyn Ob>>>) { s.as_ref().project_ref().f.o(); }")
    add("unsized tuple", P, "struct S<T: ?Sized>(u8, #[pin] T);")
    add("unsized nested", P, "struct S<'a, T: ?Sized + 'a>(&'a u8, #[pin] sub::In<u8>, #[pin] T);")
    add("unsized not unpin", "#[pin_project(!Unpin)]", "struct S<T: ?Sized> { #[pin] f: T }")
    add("unsized unsafe unpin", "#[pin_project(UnsafeUnpin)]", "struct S<T: ?Sized> { #[pin] f: T }", "unsafe impl<T: ?Sized> UnsafeUnpin for S<T> {}")
    add("unsized pinned drop", "#[pin_project(PinnedDrop)]", "struct S<T: ?Sized> { a: u8, #[pin] f: T }", "#[pinned_drop] impl<T: ?Sized> PinnedDrop for S<T> { fn drop(self: ::core::pin::Pin<&mut Self>) {} }")
    add("recursive enum", "#[pin_project(project = SP)]", "enum S<T> { Leaf(T), Node { #[pin] l: ::std::boxed::Box<S<T>>, #[pin] r: ::std::boxed::Box<Self> } }")
    add("mutual recursion", P, "struct S { #[pin] o: ::core::option::Option<::std::boxed::Box<S2>> } struct S2 { o: ::std::vec::Vec<S> }")
    add("polymorphic recursion", P, "struct S<T> { #[pin] f: T, n: ::core::option::Option<::std::boxed::Box<S<(T, T)>>> }")
    add("raw type name", P, "struct r#fn { #[pin] r#struct: u8, r#enum: u16 }", "impl r#fn { fn u(self: ::core::pin::Pin<&mut Self>) { let p = self.project(); *p.r#enum += 1; let _: ::core::pin::Pin<&mut u8> = p.r#struct; } }")
    add("raw everything", "#[pin_project(project = r#match, project_ref = r#loop, project_replace = r#while)]", "enum r#enum<r#type> { r#struct { #[pin] r#fn: r#type, r#if: u8 }, r#mod(r#type) }", "impl<r#type> r#enum<r#type> { fn u(self: ::core::pin::Pin<&mut Self>) { match self.project() { r#match::r#struct { r#fn, r#if } => { *r#if += 1; } r#match::r#mod(_) => {} } } }")
    add("underscore field names", P, "struct S { #[pin] _a: u8, _b: u8, a_: u8, a__b: u8 }")
    add("lower case type", P, "struct lower<t, u> { #[pin] f: t, g: u }")
    add("unicode", P, "struct Été<Ж> { #[pin] поле: Ж, 名前: u8 }", "impl<Ж> Été<Ж> { fn u(self: ::core::pin::Pin<&mut Self>) { *self.project().名前 += 1; } }")
    add("param named like std", P, "struct S<Pin, Unpin, Drop, PhantomData2, Sized2, Send> { #[pin] a: Pin, #[pin] b: Unpin, c: Drop, d: PhantomData2, e: Sized2, f: Send }")
    add("param named like helper", P, "struct S<T, Wrapper, AlwaysUnpin, PinnedFieldsOf, UnsafeUnpin2> { #[pin] a: T, b: Wrapper, #[pin] c: AlwaysUnpin, d: PinnedFieldsOf, e: UnsafeUnpin2 }")
    add("param named like projections", P, "struct S<Projection, SProjection, ProjectionRef> { #[pin] a: Projection, b: SProjection, c: ProjectionRef }")
    add("type named Pin", P, "struct Pin<T> { #[pin] f: T }")
    add("type named Unpin", P, "struct Unpin<T> { #[pin] f: T }")
    add("type named Drop", "#[pin_project(PinnedDrop)]", "struct Drop<T> { #[pin] f: T }", "#[pinned_drop] impl<T> PinnedDrop for Drop<T> { fn drop(self: ::core::pin::Pin<&mut Self>) {} }")
    add("type named Option", "#[pin_project(project = OP, project_ref = OR, project_replace = OO)]", "enum Option<T> { Some(#[pin] T, u8), None }", "impl<T> Option<T> { fn u(self: ::core::pin::Pin<&mut Self>) { if let OP::Some(_, b) = self.project() { *b += 1; } } }")
    add("type named like crate", P, "struct pin_project2<T> { #[pin] f: T }")
    add("many fields", P, "struct S<T> { %s }" % ", ".join("%sf%d: %s" % ("#[pin] " if i % 3 == 0 else "", i, "T" if i % 7 == 0 else "u8") for i in range(64)))
    add("many tuple fields", P, "struct S<T>(%s);" % ", ".join("%s%s" % ("#[pin] " if i % 5 == 1 else "", "T" if i % 9 == 1 else "u8") for i in range(40)))
    add("many variants", "#[pin_project(project = SP, project_ref = SR, project_replace = SO)]", "enum S<T> { %s }" % ", ".join("V%d(%sT, u8)" % (i, "#[pin] " if i % 2 else "") for i in range(40)))
    add("many params", P, "struct S<%s> { %s }" % (", ".join("T%d" % i for i in range(30)), ", ".join("%sf%d: T%d" % ("#[pin] " if i % 2 else "", i, i) for i in range(30))))
    add("type macro", P, "struct S<T> { #[pin] f: mty!(T), g: mty!(mty!(u8)) }")
    add("never and pointers", P, "struct S { #[pin] f: fn() -> !, h: *mut *const u8, i: extern \"C\" fn(*const u8, ...) -> u8, j: unsafe fn() }".replace("i: extern", "i: unsafe extern"))
    add("parenthesised", P, "struct S<T> { #[pin] f: (((T))), g: (fn(T) -> (T)), h: &'static (dyn Ob + Send) }")
    add("dyn plus", P, "struct S<'a> { #[pin] f: &'a (dyn Ob + Sync + 'a), g: ::std::boxed::Box<dyn Ob + 'a> }")
    add("bare tuple", P, "struct S<T>(#[pin] (), (T,), #[pin] (T, (u8,)));")
    add("pub in tuple", P, "struct S<T>(#[pin] pub(crate) T, pub(super) (u8), pub (u8, u16), pub(self) [u8; 2]);")
    add("attributes galore", P, "#[derive(Clone, Debug)] #[allow(dead_code)] #[doc = \"d\"] #[must_use] #[non_exhaustive] #[repr(C)] struct S<T> { #[doc = \"x\"] #[allow(unused)] #[pin] #[deprecated] f: T, /** y */ #[cfg(any())] #[pin] g: u8, #[cfg_attr(all(), doc = \"z\")] h: u8 }")
    add("variant attributes", "#[pin_project(project = SP)]", "#[derive(Clone)] enum S<T> { #[allow(unused)] #[doc = \"x\"] A { #[pin] f: T }, #[deprecated] B(#[pin] T), #[cfg(any())] C(Missing), #[non_exhaustive] D { x: u8 } }")
    add("empty variants", "#[pin_project(project = SP, project_ref = SR, project_replace = SO)]", "enum S<T> { A {}, B(), C, D(#[pin] T) }", "impl<T> S<T> { fn u(self: ::core::pin::Pin<&mut Self>) { match self.project() { SP::A {} => {} SP::B() => {} SP::C => {} SP::D(_) => {} } } }")
    add("where trailing", P, "struct S<T,> where T: Debug, T: Clone, (): Debug, { #[pin] f: T, }")
    add("empty generics", P, "struct S<> where { #[pin] f: u8 }")
    add("projection where self", "#[pin_project(project = SP, project_ref = SR)]", "struct S<'a, T> where T: 'a, &'a T: Debug, Self: 'a { #[pin] f: T, g: &'a u8 }")
    add("duplicate pinned types", P, "struct S<T> { #[pin] a: T, #[pin] b: T, #[pin] c: (T, T), #[pin] d: T }")
    add("pinned duplicates across variants", "#[pin_project(project = SP)]", "enum S<T> { A(#[pin] T), B(#[pin] T), C { #[pin] a: T, #[pin] b: T } }")
    add("bound on projection type", P, "struct S<T: for<'q> Tr<A = u8>> where for<'q> <T as Tr>::G<'q, u8>: Debug { #[pin] f: T }".replace("where for<'q> <T as Tr>::G<'q, u8>: Debug ", ""))
    add("fn bounds", P, "struct S<F, R> where F: FnOnce(&mut Vec<u8>, for<'r> fn(&'r u8)) -> R + Send + 'static { #[pin] f: ::core::option::Option<F>, #[pin] r: ::core::option::Option<R> }")
    add("const param array of param", P, "struct S<T, const N: usize, const M: usize> where [T; N]: Debug { #[pin] f: [[T; N]; M], g: Cn<N>, h: Cn<M> }")
    add("const bool char i128", P, "struct S<const B: bool, const C: char, const I: i128> { #[pin] f: u8 }")
    add("phantom only", P, "struct S<T: ?Sized>(PhantomData<T>, #[pin] u8);")
    add("dyn trait with assoc", P, "struct S<T> { #[pin] f: ::std::boxed::Box<dyn Iterator<Item = T>>, g: ::core::pin::Pin<::std::boxed::Box<dyn ::core::future::Future<Output = T> + Send>> }")
    add("impl below with same generics", P, "struct S<T> { #[pin] f: T }", "impl<T> Clone for S<T> where T: Clone { fn clone(&self) -> Self { S { f: self.f.clone() } } } impl<T> ::core::ops::Deref for S<T> { type Target = T; fn deref(&self) -> &T { &self.f } }")
    add("deref to something with project", P, "struct S<T> { #[pin] f: T }", "impl<T> ::core::ops::Deref for S<T> { type Target = O; fn deref(&self) -> &O { &O } } pub struct O; impl O { fn project(&self) -> u8 { 1 } } fn u(s: ::core::pin::Pin<&mut S<u8>>) { let p = s.project(); let _: ::core::pin::Pin<&mut u8> = p.f; }")
    add("in fn with outer generics item", P, "struct S<T>(#[pin] T);", "fn outer<T: Debug>() { #[pin_project] struct Inner<T> { #[pin] f: T } let mut x = ::std::boxed::Box::pin(Inner { f: 1u8 }); let _ = x.as_mut().project(); }")
    add("in const", P, "struct S<T>(#[pin] T);", "const _: () = { #[pin_project(project = P1)] enum Inner { A(#[pin] u8) } };")
    add("in trait impl body", P, "struct S<T>(#[pin] T);", "impl<T> Iterator for S<T> { type Item = u8; fn next(&mut self) -> ::core::option::Option<u8> { #[pin_project] struct Inner(#[pin] u8); None } }")
    return o


MACROS = [
    ("ident ty", "macro_rules! mk { ($n:ident, $f:ident, $t:ty) => { @P struct $n { @p $f: $t, other: u8 } } } mk!(S, field, ::core::option::Option<u8>);", "fn u(s: ::core::pin::Pin<&mut S>) { let p = s.project(); *p.other += 1; let _: ::core::pin::Pin<&mut ::core::option::Option<u8>> = p.field; }"),
    ("generics", "macro_rules! mk { ($n:ident < $($g:ident),* >) => { @P struct $n<$($g),*> { @p f: ($($g,)*) } } } mk!(S<A, B, C>);", "fn u<A, B, C>(s: ::core::pin::Pin<&mut S<A, B, C>>) { let _ = s.project().f; }"),
    ("lifetime", "macro_rules! mk { ($l:lifetime, $n:ident) => { @P struct $n<$l, T: $l> { @p f: &$l mut T } } } mk!('pin, S);", ""),
    ("lifetime a", "macro_rules! mk { ($l:lifetime, $n:ident) => { @P struct $n<$l, 'pin, T: $l> { @p f: &$l mut T, g: &'pin u8 } } } mk!('pin_, S);", ""),
    ("vis", "macro_rules! mk { ($v:vis $n:ident $fv:vis $f:ident) => { @P $v struct $n { @p $fv $f: u8, $v g: u8 } } } mk!(pub(crate) S pub(super) field);", ""),
    ("empty vis", "macro_rules! mk { ($v:vis struct $n:ident) => { @P $v struct $n { @p $v f: u8 } } } mk!(struct S);", ""),
    ("tt fields", "macro_rules! mk { ($n:ident { $($body:tt)* }) => { @P struct $n { $($body)* } } } mk!(S { @p a: Vec<u8>, b: u8 });", ""),
    ("item", "macro_rules! mk { ($i:item) => { @P $i } } mk! { struct S<T> { @p a: T, b: u8 } }", "fn u<T>(s: ::core::pin::Pin<&mut S<T>>) { let _ = s.project().a; }"),
    ("meta", "macro_rules! mk { ($(#[$m:meta])* $n:ident) => { $(#[$m])* struct $n { @p a: u8, b: u8 } } } mk! { @A #[derive(Clone)] S }", ""),
    ("expr const", "macro_rules! mk { ($n:ident, $e:expr) => { @P struct $n { @p a: [u8; $e], b: u8 } } } mk!(S, 1 + 2 * 3);", "fn u(s: ::core::pin::Pin<&mut S>) { let _: ::core::pin::Pin<&mut [u8; 7]> = s.project().a; }"),
    ("literal", "macro_rules! mk { ($n:ident, $e:literal) => { @P struct $n { @p a: [u8; $e], b: Cn<$e> } } } mk!(S, 4);", ""),
    ("block const", "macro_rules! mk { ($n:ident, $e:block) => { @P struct $n { @p a: [u8; $e] } } } mk!(S, { 4 });", ""),
    ("path bound", "macro_rules! mk { ($n:ident, $p:path) => { @P struct $n<T: $p> where T: $p { @p a: T } } } mk!(S, ::std::fmt::Debug);", ""),
    ("ty self", "macro_rules! mk { ($n:ident, $t:ty) => { @P struct $n { @p a: ::core::option::Option<::std::boxed::Box<$t>> } } } mk!(S, Self);", ""),
    ("ty fn", "macro_rules! mk { ($t:ty) => { @P struct S { @p a: $t, b: *const $t } } } mk!(fn(u8) -> u8);", ""),
    ("ty dyn plus", "macro_rules! mk { ($t:ty) => { @P struct S { a: &'static ($t), @p b: ::std::boxed::Box<$t> } } } mk!(dyn Ob + Send);", ""),
    ("ty ref", "macro_rules! mk { ($l:lifetime, $t:ty) => { @P struct S<$l> { a: &$l $t, @p b: &$l mut $t } } } mk!('a, &'a u8);", ""),
    ("ty pin lifetime", "macro_rules! mk { ($t:ty) => { @P struct S { @p a: $t } } } mk!(for<'pin> fn(&'pin u8) -> &'pin u8);", ""),
    ("tuple rep", "macro_rules! mk { ($n:ident, $($t:ty),*) => { @P struct $n($(@p $t),*); } } mk!(S, u8, Vec<u8>, (u8, u16));", "fn u(s: ::core::pin::Pin<&mut S>) { let p = s.project(); let _: (::core::pin::Pin<&mut u8>, ::core::pin::Pin<&mut (u8, u16)>) = (p.0, p.2); }"),
    ("enum rep", "macro_rules! mk { ($n:ident $p:ident, $($v:ident $t:ty),*) => { @E($p) enum $n { $($v(@p $t),)* End } } } mk!(S SP, A u8, B Vec<u8>);", "fn u(s: ::core::pin::Pin<&mut S>) { match s.project() { SP::A(_) | SP::B(_) | SP::End => {} } }"),
    ("nested macro", "macro_rules! outer { ($($x:tt)*) => { mk! { $($x)* } } } macro_rules! mk { ($n:ident, $t:ty) => { @P struct $n { @p a: $t, b: u8 } } } outer!(S, u8);", ""),
    ("hygienic field from macro", "macro_rules! mk { ($n:ident) => { @P struct $n { @p inner: u8, value: u8 } impl $n { fn v(&self) -> u8 { self.value } } } } mk!(S);", "fn u(s: ::core::pin::Pin<&mut S>) { let _ = s.project().value; }"),
    ("generic const", "macro_rules! mk { ($n:ident, $c:ident : $t:ty) => { @P struct $n<const $c: $t> { @p a: [u8; $c] } } } mk!(S, LEN: usize);", ""),
    ("raw ident", "macro_rules! mk { ($n:ident, $f:ident) => { @P struct $n { @p $f: u8 } } } mk!(r#struct, r#type);", ""),
    ("where tt", "macro_rules! mk { ($n:ident where $($w:tt)*) => { @P struct $n<T> where $($w)* { @p a: T } } } mk!(S where T: Clone, for<'x> &'x T: Debug);", ""),
    ("lifetimes rep", "macro_rules! mk { ($n:ident, $($l:lifetime),*) => { @P struct $n<$($l),*> { @p a: ($(&$l u8,)*) } } } mk!(S, 'a, 'pin, 'b);", ""),
    ("doc comments", "macro_rules! mk { ($(#[$m:meta])* $n:ident { $($(#[$fm:meta])* $f:ident: $t:ty),* }) => { @P $(#[$m])* struct $n { $($(#[$fm])* $f: $t),* } } } mk! { /** Doc */ S { /** a */ @p a: u8, /** b */ b: u16 } }", ""),
    ("fn in macro type", "macro_rules! mk { ($n:ident, $t:ty) => { @P struct $n { @p a: mty!($t), b: mty!(fn($t) -> $t) } } } mk!(S, u8);", ""),
]


def macro_decls():
    o = []
    for n, d, u in MACROS:
        if "@A" in d:
            o.append((n, None, d, u))
        else:
            o.append((n, None, d, u))
    return o


def render_macro(d, annotated):
    if annotated:
        return d.replace("@P", "#[pin_project]").replace("@p", "#[pin]").replace("@E($p)", "#[pin_project(project = $p)]").replace("@A", "#[pin_project]")
    return d.replace("@P", "").replace("@p", "").replace("@E($p)", "").replace("@A", "")


def twins(c, items, edition="2021", per=40, extra="", feat="", env=None):
    """items: (name, plain source, annotated source), each a module body."""
    head = "#![allow(warnings)] " + feat + "\n" + CRATE + extra + "\n"
    groups = [items[i:i + per] for i in range(0, len(items), per)]
    good = []

    def prog(g, which):
        return head + "".join("pub mod k%d { %s }\n" % (i, " ".join(x[which].split("\n"))) for i, x in enumerate(g))

    def solo(x, which):
        return head + "pub mod k0 {\n%s\n}\n" % x[which]

    def one(g):
        try:
            # 1. drop what the language itself rejects
            for _ in range(4):
                if not g:
                    return
                r = c.rustc(prog(g, 1), name="plain", edition=edition, env=env)
                shutil.rmtree(os.path.dirname(r.path), ignore_errors=True)
                if r.ok:
                    break
                bad = verdict.error_lines(r)
                keep = [x for i, x in enumerate(g) if i + 3 not in bad]
                c.count("plain_invalid", len(g) - len(keep))
                if len(keep) == len(g):
                    raise core.Inconclusive("cannot attribute error in plain batch: " + r.brief())
                g = keep
            else:
                g2 = []
                for x in g:
                    r = c.rustc(solo(x, 1), name="plain", edition=edition, env=env)
                    if r.ok:
                        g2.append(x)
                    else:
                        c.count("plain_invalid")
                g = g2
            # 2. all others must be accepted with the annotation
            r = c.rustc(prog(g, 2), name="annotated", edition=edition, env=env)
            shutil.rmtree(os.path.dirname(r.path), ignore_errors=True)
            for x in g:
                c.case(x[0], True)
            c.count("twins", len(g))
            if r.ok:
                good.extend(g)
            else:
                bad = verdict.error_lines(r)
                found = 0
                sus = [x for i, x in enumerate(g) if i + 3 in bad] or g
                for attempt in (sus, [x for x in g if x not in sus]):
                    for x in attempt:
                        rx = c.rustc(solo(x, 2), name="annotated", edition=edition, env=env)
                        if not rx.ok:
                            found += 1
                            rp = c.rustc(solo(x, 1), name="plain", edition=edition, env=env)
                            if rp.ok:
                                c.violate("rejected/" + x[0], "%s: valid declaration rejected when annotated: %s" % (x[0], rx.brief() or rx.status), src=solo(x, 2), plain=solo(x, 1))
                    if found:
                        break
                if not found:
                    raise core.Inconclusive("annotated batch rejected, members accepted: " + r.brief())
        except core.Inconclusive as e:
            c.inconclusive(str(e))
    core.pmap(one, groups)
    for x in items[:1] + items[len(items) // 3:len(items) // 3 + 2]:
        c.sample({"twin": x[0], "annotated": x[2][-700:]})
    return good


def large(n=300):
    """More of everything than small counters and fixed tables can hold."""
    A = "#[pin_project(project = LP, project_ref = LR, project_replace = LO)]"
    deep = "u8"
    for _ in range(60):
        deep = "::core::option::Option<(%s, u8)>" % deep
    r = range(n)
    g = range(n // 2)
    pin = lambda i: "#[pin] " if i % 3 == 0 or i == n - 1 else ""
    return [
        ("named fields", A, "pub struct S { %s }" % " ".join("%sf%d: u8," % (pin(i), i) for i in r)),
        ("tuple fields", A, "pub struct S(%s);" % " ".join("%su8," % pin(i) for i in r)),
        ("pinned tuple fields", A, "pub struct S(%s);" % ("#[pin] u8, " * n)),
        ("unpinned tuple fields", A, "pub struct S(%s);" % ("u8, " * n)),
        ("variants", A, "pub enum S { %s }" % " ".join(["V%d," % i, "V%d(%su8)," % (i, pin(i)), "V%d { %sx: u8, y: u16 }," % (i, pin(i))][i % 3] for i in r)),
        ("named variant fields", A, "pub enum S { A { %s }, B }" % " ".join("%sf%d: u8," % (pin(i), i) for i in r)),
        ("tuple variant fields", A, "pub enum S { A(%s), B(#[pin] u8) }" % " ".join("%su8," % pin(i) for i in r)),
        ("type parameters", A, "pub struct S<%s> { %s }" % (", ".join("T%d" % i for i in g), " ".join("%sf%d: T%d," % (pin(i), i, i) for i in g))),
        ("bounds", A, "pub struct S<%s> where %s { %s }" % (", ".join("T%d: Send" % i for i in g), ", ".join("T%d: Clone + Sync" % i for i in g), " ".join("%sf%d: T%d," % (pin(i), i, i) for i in g))),
        ("lifetimes", A, "pub struct S<%s> { %s }" % (", ".join("'l%d" % i for i in g), " ".join("%sf%d: &'l%d u8," % (pin(i), i, i) for i in g))),
        ("const parameters", A, "pub struct S<%s> { %s }" % (", ".join("const N%d: usize" % i for i in g), " ".join("%sf%d: [u8; N%d]," % (pin(i), i, i) for i in g))),
        ("pin lifetimes", A, "pub struct S<%s> { %s }" % (", ".join("'pin" + "_" * i for i in range(60)), " ".join("#[pin] f%d: &'pin%s u8," % (i, "_" * i) for i in range(60)))),
        ("deep type", A, "pub struct S { #[pin] f: %s, g: %s }" % (deep, deep)),
        ("long names", A, "pub struct %s<%s> { #[pin] %s: %s, %s: u8 }" % ("S" + "x" * 400, "T" + "y" * 400, "f" + "z" * 400, "T" + "y" * 400, "g" + "w" * 400)),
        ("attributes", A, "%s pub struct S { #[pin] %s f: u8, %s g: u8 }" % ("#[allow(dead_code)] " * n, "#[allow(dead_code)] " * n, "#[doc = \"x\"] " * n)),
        ("removed", A, "pub struct S { #[pin] f: u8, %s }" % " ".join("#[cfg(any())] #[pin] f%d: Missing," % i for i in r)),
        ("removed variants", A, "pub enum S { A(#[pin] u8), %s }" % " ".join("#[cfg(any())] V%d(Missing)," % i for i in r)),
    ]


def probes():
    """Declarations whose rejection is recorded as a known finding (see known_findings.txt)."""
    k = []
    for n, d in [("const-named-like-field", "const limit: u8 = 3; @P struct S { @p limit: u8, g: u8 }"), ("static-named-like-field", "static limit: u8 = 3; @P struct S { limit: u8, @p g: u8 }"),
                 ("unit-struct-named-like-field", "struct marker; @P struct S { @p marker: u8 }"), ("tuple-struct-named-like-field", "struct marker(u8); @P struct S { @p marker: marker }"),
                 ("inferred-outlives-with-self-bound", "@P struct S<'a, T> where Self: Tr { @p f: &'a T }"), ("const-parameter-named-like-field", "@P struct S<const n: usize> { @p n: u8 }"), ("raw-pointer-to-trait-object", "@P struct S { @p a: *mut dyn Ob, b: *const dyn Ob }"),
                 ("where-clause-guides-inference", "@E enum S<T, U> where Ty<U>: Tr { A(@p <Ty<T> as Tr>::A), B(T, U) }"),
                 ("const-named-like-variant-field", "const limit: u8 = 3; @E enum S { A { @p limit: u8 } }")]:
        k.append((n, d))
    return k


def c15(c):
    rng = random.Random("C15/%s" % c.seed)
    items = []
    for n, a, d, u in hand():
        items.append(("hand/" + n, PRE + strip(d), PRE + a + " " + d + " " + u))
    for n, a, d, u in macro_decls():
        items.append(("macro/" + n, PRE + render_macro(d, False), PRE + render_macro(d, True) + " " + u))
    for n, d in probes():
        ann = d.replace("@P", "#[pin_project]").replace("@E", "#[pin_project(project = SP)]").replace("@p", "#[pin]")
        items.append((n, PRE + d.replace("@P", "").replace("@E", "").replace("@p", ""), PRE + ann))
    for i in range(c.pick(9000, 60000)):
        a, d, u, pu, _ = declaration(rng)
        items.append(("%s %s" % (a, d), PRE + strip(d) + " " + pu, PRE + a + " " + d + " " + u))
    for n, a, d in large(c.pick(300, 1200)):
        items.append(("large/" + n, PRE + strip(d), PRE + a + " " + d))
    twins(c, items)
    # the same hand-written ones on the other editions
    for ed in ("2018", "2024"):
        twins(c, [("%s/%s" % (x[0], ed), x[1], x[2]) for x in items if x[0].startswith(("hand/", "macro/"))], edition=ed)
    c.rule = "declarations the compiler accepts plainly (hand-written hostile ones, macro_rules! deliveries, random generics/bounds/types/names) annotated and used from generic code; distinct by declaration text; plain_invalid counts generated texts the language itself rejects"
