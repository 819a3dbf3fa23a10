"""C16: conditional compilation. The same text under every configuration against a shape evaluated in Python."""
import itertools
import random
from . import c15, suite, verdict

PRE = "use pin_project::{pin_project, pinned_drop, UnsafeUnpin}; use ::core::pin::Pin; use ::core::marker::{PhantomPinned, PhantomData};\n#[derive(Debug, PartialEq, Clone)] pub struct Np(u32, PhantomPinned);\nfn np(x: u32) -> Np { Np(x, PhantomPinned) }\n"
CONFIGS = [dict(zip("abc", v)) for v in itertools.product((False, True), repeat=3)]


def expr(rng, depth=0):
    """(text, evaluator)"""
    r = rng.random()
    if depth > 2 or r < 0.45:
        k = rng.choice("abc")
        return k, lambda e: e[k]
    if r < 0.65:
        t, f = expr(rng, depth + 1)
        return "not(%s)" % t, lambda e: not f(e)
    if r < 0.72:
        x = rng.random() < 0.5
        return ("all()", lambda e: True) if x else ("any()", lambda e: False)
    subs = [expr(rng, depth + 1) for _ in range(rng.choice([1, 2, 3]))]
    tr = rng.choice(["", ","])
    if rng.random() < 0.5:
        return "all(%s%s)" % (", ".join(t for t, _ in subs), tr), lambda e: all(f(e) for _, f in subs)
    return "any(%s%s)" % (", ".join(t for t, _ in subs), tr), lambda e: any(f(e) for _, f in subs)


class Cond:
    """A list of conditions attached to something; holds when all do."""

    def __init__(self, rng, p):
        self.parts = []
        self.text = []
        if rng.random() < p:
            for _ in range(rng.choice([1, 1, 1, 2])):
                t, f = expr(rng)
                if rng.random() < 0.2:
                    t2, f2 = expr(rng)
                    self.text.append("#[cfg_attr(%s, cfg(%s))]" % (t, t2))
                    self.parts.append(lambda e, f=f, f2=f2: (not f(e)) or f2(e))
                else:
                    self.text.append("#[cfg(%s)]" % t)
                    self.parts.append(f)

    def __call__(self, e):
        return all(f(e) for f in self.parts)


class Marker:
    def __init__(self, rng):
        self.text, self.f = [], lambda e: False
        r = rng.random()
        if r < 0.3:
            self.text, self.f = ["#[pin]"], lambda e: True
        elif r < 0.55:
            t, f = expr(rng)
            form = rng.choice(["#[cfg_attr(%s, pin)]", "#[cfg_attr(%s, pin,)]", "#[cfg_attr(%s, doc = \"x\", pin)]", "#[cfg_attr(%s, pin, allow(unused))]"])
            self.text, self.f = [form % t], f
        elif r < 0.65:
            t, f = expr(rng)
            t2, f2 = expr(rng)
            self.text, self.f = ["#[cfg_attr(%s, cfg_attr(%s, pin))]" % (t, t2)], lambda e: f(e) and f2(e)
        elif r < 0.72:
            t, f = expr(rng)
            # two exclusive conditional markers
            t2, f2 = expr(rng)
            self.text = ["#[cfg_attr(all(%s, %s), pin)]" % (t, t2), "#[cfg_attr(all(%s, not(%s)), pin)]" % (t, t2)]
            self.f = f


def never(rng, depth=0):
    """A condition that holds in no configuration."""
    k = rng.choice("abc")
    t = rng.choice(["any()", "not(all())", "all(%s, not(%s))" % (k, k), "all(any(), %s)" % k, "feature = \"absent\"", "not(any(%s, not(%s)))" % (k, k), "target_pointer_width = \"8\"", "any(any(), not(all()))"])
    return rng.choice(["#[cfg(%s)]", "#[cfg(%s)]", "#[cfg(%s,)]", "#[cfg_attr(all(), cfg(%s))]"]) % t


# what is removed need not be supported, nor resolve
DEAD_FIELD = ["#[pin] #[pin] @", "#[pin(x)] @", "#[pin()] @", "#[pin = 1] @", "#[pin] @", "@", "#[cfg_attr(all(), pin)] #[pin] @", "#[pin] #[pin] #[pin] @", "#[pin(__private())] @", "#[unknown::attribute] @", "#[r#pin] #[pin] @"]
DEAD_TY = ["Missing", "Missing<'nowhere>", "Nor<T, N>", "missing::Path<u8>", "missing!(u8)", "[Missing; NOWHERE]", "dyn Missing", "&'nowhere Np", "impl Missing", "_", "str", "[u8]", "Self", "S", "!", "PhantomPinned"]
DEAD_VARIANT = ["Gone", "Gone = 7", "Gone = 7 + 1", "#[pin] Gone", "#[pin] Gone(u8)", "#[pin()] Gone { x: u8 }", "Gone(#[pin] #[pin] Missing)", "Gone { #[pin(x)] x: Missing }", "Gone(Missing<'nowhere>) = 3", "#[pin] #[pin] Gone = 4", "V0", "V0 { f0: u8 }", "V1(Missing)", "Gone(pub u8)",
                "pub Gone", "#[repr(packed)] Gone(u8)", "Gone {}", "Gone()", "Gone { x: u8, x: u8 }", "#[cfg(all())] Gone(impl Missing)", "#[r#pin] Gone"]
DEAD_ITEM = ["#[cfg_attr(any(), pin)]", "#[cfg_attr(any(), repr(packed))]", "#[cfg_attr(any(), pin_project)]", "#[cfg_attr(any(), repr(C, packed(4)))]", "#[cfg_attr(not(all()), pin(x))]", "#[cfg_attr(any(), pin_project(PinnedDrop))]", "#[cfg_attr(any(), unknown)]", "#[cfg_attr(all(), cfg_attr(any(), pin))]",
             "#[cfg_attr(any(), derive(Copy))]", "#[cfg_attr(all(),)]"]


class Fld:
    def __init__(self, rng, i, always=False):
        self.name = rng.choice(["f%d", "r#f%d", "value%d"]) % i
        self.mark = Marker(rng)
        self.cond = Cond(rng, 0 if always else 0.45)
        self.np = rng.random() < 0.5
        self.ty = "Np" if self.np else "u32"
        if self.cond.parts and rng.random() < 0.3:
            # the type only exists when the field does: guarded item elsewhere
            pass
        at = self.mark.text + self.cond.text + rng.choice([[], [], ["#[doc = \"d\"]"], ["#[allow(unused)]"]])
        rng.shuffle(at)
        self.attrs = " ".join(at)
        self.val = rng.randrange(1, 1000)

    def lit(self, d=0):
        return "np(%d)" % (self.val + d) if self.np else "%du32" % (self.val + d)


class Case:
    def __init__(self, rng):
        self.kind = rng.choice(["named", "tuple", "enum", "enum"])
        self.args = []
        self.vs = []
        n = 1 if self.kind != "enum" else rng.choice([1, 2, 3, 4])
        for i in range(n):
            st = {"named": "named", "tuple": "tuple"}.get(self.kind) or rng.choice(["named", "tuple", "tuple"])
            k = rng.choice([1, 2, 3, 4, 5])
            pos = rng.randrange(k)
            fs = [Fld(rng, j, always=(i == 0 and j == pos)) for j in range(k)]
            self.vs.append(("V%d" % i, st, fs, Cond(rng, 0.4 if i and self.kind == "enum" else 0)))
        if self.kind == "enum" and rng.random() < 0.3:
            self.vs.append(("Unit", "unit", [], Cond(rng, 0.5)))
        order = list(self.vs)
        rng.shuffle(order)
        self.mode = rng.choice(["", "", "", "!Unpin", "PinnedDrop"])
        self.condattr = None
        a = ["project = SP", "project_ref = SR"]
        if self.mode != "PinnedDrop":
            a.append("project_replace = SO")
        if self.mode:
            a.append(self.mode)
        rng.shuffle(a)
        at = "#[pin_project(%s)]" % ", ".join(a)
        if rng.random() < 0.2:
            t, f = expr(rng)
            self.condattr = f
            alt = [x for x in a if x not in ("!Unpin",)]
            # the other branch asks for !Unpin instead
            at = "#[cfg_attr(%s, pin_project(%s))] #[cfg_attr(not(%s), pin_project(%s))]" % (t, ", ".join(alt), t, ", ".join(alt + ["!Unpin"]))
            self.mode = "PinnedDrop" if "PinnedDrop" in alt else ""
        self.derive = rng.choice(["", "", "#[derive(Debug)] "])
        body = []
        for name, st, fs, cond in order:
            fl = ["%s %s%s" % (f.attrs, f.name + ": " if st == "named" else "", f.ty) for f in fs]
            if st != "unit" and rng.random() < 0.2:
                av = rng.choice(DEAD_FIELD).split(" ")[:-1] + [never(rng)]
                if rng.random() < 0.7:
                    av = [av[-1]] + av[:-1]
                g = "%s %s%s" % (" ".join(av), rng.choice(["gone", fs[0].name, "r#fn"]) + ": " if st == "named" else "", rng.choice(DEAD_TY))
                fl.insert(rng.randrange(len(fl) + 1), g)
            fl = ", ".join(fl)
            fl = {"named": "{ %s }" % fl, "tuple": "(%s)" % fl, "unit": ""}[st]
            body.append((" ".join(cond.text), name, fl))
        if self.kind == "enum" and rng.random() < 0.25:
            for _ in range(rng.choice([1, 1, 2])):
                body.insert(rng.randrange(len(body) + 1), (never(rng), rng.choice(DEAD_VARIANT), ""))
        if rng.random() < 0.15:
            x = rng.choice(DEAD_ITEM)
            at = at + " " + x if rng.random() < 0.6 else x + " " + at
        if self.kind == "enum":
            self.decl = "%s %spub enum S { %s }" % (at, self.derive, ", ".join("%s %s %s" % b for b in body))
        else:
            self.decl = "%s %spub struct S %s%s" % (at, self.derive, body[0][2], ";" if self.kind == "tuple" else "")
        if rng.random() < 0.2:
            self.decl = "macro_rules! deliver { ($i:item) => { $i } } deliver! { %s }" % self.decl

    def live(self, e):
        return [(n, st, [f for f in fs if f.cond(e)], c) for n, st, fs, c in self.vs if c(e)]

    def module(self, e):
        s = PRE + self.decl + "\n"
        if self.mode == "PinnedDrop":
            s += "#[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) { let _ = self.project(); vrt::say(\"d\"); } }\n"
        live = self.live(e)
        enum = self.kind == "enum"

        def path(p, v):
            return "%s::%s" % (p, v) if enum else p

        def make(v, d=0):
            n, st, fs, _ = v
            p = path("S", n)
            if st == "unit":
                return p
            if st == "named":
                return "%s { %s }" % (p, ", ".join("%s: %s" % (f.name, f.lit(d)) for f in fs))
            return "%s(%s)" % (p, ", ".join(f.lit(d) for f in fs))

        def pat(p, v):
            n, st, fs, _ = v
            q = path(p, n)
            if st == "unit":
                return q
            if st == "named":
                return "%s { %s }" % (q, ", ".join("%s: x%d" % (f.name, i) for i, f in enumerate(fs)))
            return "%s(%s)" % (q, ", ".join("x%d" % i for i in range(len(fs))))
        b = ""
        for vi, v in enumerate(live):
            b += "    {\n        let mut v = Box::pin(%s);\n" % make(v)
            for call, p in (("v.as_mut().project()", "SP"), ("v.as_ref().project_ref()", "SR")) + ((("v.as_mut().project_replace(%s)" % make(live[(vi + 1) % len(live)], 7), "SO"),) if self.mode != "PinnedDrop" else ()):
                b += "        match %s {\n" % call
                for w in live:
                    b += "            %s => {\n" % pat(p, w)
                    for i, f in enumerate(w[2]):
                        pin = f.mark.f(e)
                        t = {"SP": "&mut %s", "SR": "&%s", "SO": "%s"}[p] % f.ty
                        t = ("PhantomData<%s>" % f.ty if p == "SO" else "Pin<%s>" % t) if pin else t
                        b += "                let x: %s = x%d;" % (t, i)
                        if w is v and not (p == "SO" and pin):
                            got = {True: "(*x).clone()", False: "x.clone()"}[p != "SO"]
                            b += " vrt::leq(\"%s of %s in %s\", %s, %s);" % (f.name.replace("r#", ""), w[0], p, got, f.lit())
                        b += "\n"
                    if w is not v:
                        b += "                vrt::ck(false, || \"wrong variant %s\".to_string());\n" % w[0]
                    b += "            }\n"
                b += "        }\n"
            b += "        let _ = vrt::said(); drop(v); vrt::leq(\"drops\", vrt::said().len(), %dusize);\n    }\n" % (1 if self.mode == "PinnedDrop" else 0)
        un = not any(f.mark.f(e) and f.np for v in live for f in v[2])
        if self.mode == "!Unpin" or (self.condattr and not self.condattr(e)):
            un = False
        b += "    vrt::leq(\"Unpin\", vrt::is!(S: Unpin), %s);\n" % str(un).lower()
        return s + "pub fn run() {\n" + b + "}\n"

    def shape(self, e):
        return repr([(n, st, [(f.name, f.ty, f.mark.f(e)) for f in fs]) for n, st, fs, _ in self.live(e)])


HAND = [
    # conditional generics, impls, bodies; checked per configuration by its own cfg'd assertions
    ("generic parameter", "#[pin_project] pub struct S<#[cfg(a)] T, U> { #[cfg(a)] #[pin] t: T, #[pin] u: U }\n#[cfg(a)] pub fn run() { let mut s = Box::pin(S { t: 1u8, u: 2u8 }); let p = s.as_mut().project(); let _: (Pin<&mut u8>, Pin<&mut u8>) = (p.t, p.u); vrt::leq(\"u\", vrt::is!(S<Np, u8>: Unpin), false); }\n#[cfg(not(a))] pub fn run() { let mut s = Box::pin(S { u: 2u8 }); let p = s.as_mut().project(); let _: Pin<&mut u8> = p.u; vrt::leq(\"u\", vrt::is!(S<u8>: Unpin), true); }"),
    ("lifetime parameter", "#[pin_project] pub struct S<#[cfg(a)] 'pin, U> { #[cfg(a)] t: &'pin u8, #[pin] u: U }\n#[cfg(a)] pub fn run() { let x = 1; let mut s = Box::pin(S { t: &x, u: 2u8 }); let p = s.as_mut().project(); vrt::leq(\"t\", **p.t, 1); }\n#[cfg(not(a))] pub fn run() { let mut s = Box::pin(S { u: 2u8 }); vrt::leq(\"u\", *s.as_mut().project().u, 2); }"),
    ("conditional PinnedDrop impl", "#[cfg_attr(a, pin_project(PinnedDrop))] #[cfg_attr(not(a), pin_project)] pub struct S { #[pin] u: u8 }\n#[cfg(a)] #[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) { vrt::say(1); } }\npub fn run() { let _ = vrt::said(); drop(S { u: 1 }); vrt::leq(\"drops\", vrt::said().len(), cfg!(a) as usize); vrt::leq(\"needs_drop\", ::core::mem::needs_drop::<S>(), cfg!(a)); }"),
    ("cfg_attr pinned_drop", "#[pin_project(PinnedDrop)] pub struct S { #[pin] u: u8 }\n#[cfg_attr(all(), pinned_drop)] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) { #[cfg(a)] vrt::say(\"a\"); #[cfg(not(a))] vrt::say(\"na\"); if cfg!(b) { vrt::say(\"b\"); } } }\npub fn run() { let _ = vrt::said(); drop(S { u: 1 }); let mut w = vec![if cfg!(a) { \"a\" } else { \"na\" }.to_string()]; if cfg!(b) { w.push(\"b\".into()) } vrt::leq(\"said\", vrt::said(), w); }"),
    ("body match arms", "#[pin_project(project = SP, PinnedDrop)] pub enum S { #[cfg(a)] A(#[pin] u8), B { #[cfg(b)] x: u8, y: u8 } }\n#[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) { match self.project() { #[cfg(a)] SP::A(v) => vrt::say(*v), SP::B { #[cfg(b)] x, y } => { #[cfg(b)] vrt::say(*x); vrt::say(*y); } } } }\npub fn run() { let _ = vrt::said(); #[cfg(a)] drop(S::A(3)); drop(S::B { #[cfg(b)] x: 4, y: 5 }); let mut w: Vec<String> = vec![]; if cfg!(a) { w.push(\"3\".into()) } if cfg!(b) { w.push(\"4\".into()) } w.push(\"5\".into()); vrt::leq(\"said\", vrt::said(), w); }"),
    ("UnsafeUnpin impl", "#[pin_project(UnsafeUnpin)] pub struct S<T> { #[pin] t: T }\n#[cfg(a)] unsafe impl<T> UnsafeUnpin for S<T> {}\npub fn run() { vrt::leq(\"u\", vrt::is!(S<u8>: Unpin), cfg!(a)); vrt::leq(\"u\", vrt::is!(S<Np>: Unpin), cfg!(a)); }"),
    ("two declarations", "#[cfg(a)] #[pin_project] pub struct S { #[pin] t: Np }\n#[cfg(not(a))] #[pin_project(!Unpin)] pub struct S { t: u8 }\npub fn run() { vrt::leq(\"u\", vrt::is!(S: Unpin), false); #[cfg(not(a))] { let mut s = Box::pin(S { t: 2 }); *s.as_mut().project().t += 1; vrt::leq(\"t\", s.t, 3); } }"),
    ("conditional annotation", "#[cfg_attr(a, pin_project)] pub struct S { #[cfg_attr(a, pin)] t: Np, u: u8 }\npub fn run() { vrt::leq(\"u\", vrt::is!(S: Unpin), false); let mut s = Box::pin(S { t: np(1), u: 4 }); #[cfg(a)] { *s.as_mut().project().u += 1; } vrt::leq(\"v\", s.u, if cfg!(a) { 5 } else { 4 }); }"),
    ("conditional field type", "#[cfg(a)] type F = Np; #[cfg(not(a))] type F = u8;\n#[pin_project] pub struct S { #[pin] t: F }\npub fn run() { vrt::leq(\"u\", vrt::is!(S: Unpin), cfg!(not(a))); }"),
    ("missing types", "#[pin_project(project = SP)] pub enum S { #[cfg(any())] Gone(#[pin] DoesNotExist, Nor<'missing, T>), #[cfg(not(all()))] Gone2 { #[pin] #[pin] x: Missing }, A { #[cfg(any())] #[pin] x: Missing, #[pin] y: u8 } }\npub fn run() { let mut s = Box::pin(S::A { y: 1 }); match s.as_mut().project() { SP::A { y } => { let y: Pin<&mut u8> = y; vrt::leq(\"y\", *y, 1) } } }"),
    ("removed items", "#[pin_project] #[cfg(any())] pub struct S { #[pin] f: Missing }\n#[cfg(any())] #[pin_project(garbage)] union S { f: u8 }\n#[cfg(not(all()))] #[pin_project] fn S() {}\n#[pin_project(project = SP)] #[cfg_attr(all(), cfg(any()))] enum S { A(#[pin] Missing) }\n#[cfg(any())] #[pinned_drop] impl Nothing for S {}\n#[pin_project(project = SP, project_ref = SR)] #[cfg(not(any()))] pub struct S { #[pin] f: u8 }\n#[pinned_drop] #[cfg(any())] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) {} }\n#[pin_project(PinnedDrop)] pub struct Q { #[pin] f: u8 }\n#[pinned_drop] #[cfg(a)] impl PinnedDrop for Q { fn drop(self: Pin<&mut Self>) { vrt::say(\"a\"); } }\n#[pinned_drop] #[cfg(not(a))] impl PinnedDrop for Q { fn drop(self: Pin<&mut Self>) { vrt::say(\"not a\"); } }\npub fn run() { let mut s = Box::pin(S { f: 2 }); vrt::leq(\"f\", *s.as_mut().project().f, 2); let _ = vrt::said(); drop(Q { f: 1 }); vrt::leq(\"which\", vrt::said(), vec![if cfg!(a) { \"a\".to_string() } else { \"not a\".to_string() }]); }"),
    ("cfg on derive and repr", "#[pin_project] #[cfg_attr(a, derive(Clone))] #[cfg_attr(b, repr(C))] pub struct S { #[pin] t: u8, u: u32 }\npub fn run() { vrt::leq(\"clone\", vrt::is!(S: Clone), cfg!(a)); let mut s = Box::pin(S { t: 1, u: 2 }); *s.as_mut().project().u += 1; vrt::leq(\"u\", s.u, 3); }"),
    ("debug_assertions and target", "#[pin_project] pub struct S { #[cfg(debug_assertions)] #[pin] t: Np, #[cfg(not(debug_assertions))] t: u8, #[cfg(target_pointer_width = \"64\")] w: u64, #[cfg(target_pointer_width = \"16\")] w: u16, #[cfg(unix)] #[pin] x: u8, #[cfg(windows)] x: Np, #[cfg(feature = \"nope\")] y: Missing, #[cfg(not(feature = \"nope\"))] y: u8 }\npub fn run() { vrt::leq(\"u\", vrt::is!(S: Unpin), cfg!(not(debug_assertions))); fn chk(s: Pin<&mut S>) { let p = s.project(); let _: &mut u64 = p.w; let _: Pin<&mut u8> = p.x; let _: &mut u8 = p.y; } }"),
    ("cfg_attr with several fields", "#[pin_project(project = SP)] pub struct S(#[cfg(a)] #[pin] Np, #[cfg(b)] u8, #[cfg_attr(c, pin)] u16, #[cfg(not(a))] u32);\n#[cfg(all(a, b, c))] fn chk(p: SP<'_>) { let SP(w, x, y) = p; let _: (Pin<&mut Np>, &mut u8, Pin<&mut u16>) = (w, x, y); }\n#[cfg(all(a, not(b), not(c)))] fn chk(p: SP<'_>) { let SP(w, y) = p; let _: (Pin<&mut Np>, &mut u16) = (w, y); }\n#[cfg(all(not(a), b, c))] fn chk(p: SP<'_>) { let SP(x, y, z) = p; let _: (&mut u8, Pin<&mut u16>, &mut u32) = (x, y, z); }\n#[cfg(all(not(a), not(b), not(c)))] fn chk(p: SP<'_>) { let SP(y, z) = p; let _: (&mut u16, &mut u32) = (y, z); }\npub fn run() { vrt::leq(\"u\", vrt::is!(S: Unpin), cfg!(not(a))); }"),
]


def c16(c):
    rng = random.Random("C16/%s" % c.seed)
    cases = [Case(rng) for _ in range(c.pick(480, 4000))]
    shapes = set()
    for e in CONFIGS:
        extra = []
        for k, v in e.items():
            if v:
                extra += ["--cfg", k]
        tag = "".join(k for k, v in e.items() if v) or "none"
        cs = []
        for i, k in enumerate(cases):
            shapes.add(k.shape(e))
            cs.append(suite.Case("random/%d/%s" % (i, tag), k.module(e), key="%s//%s" % (tag, k.decl)))
        for n, s in HAND:
            cs.append(suite.Case("hand/%s/%s" % (n, tag), PRE + s, key="hand/%s/%s" % (n, tag)))
        suite.run_suite(c, cs, per=30, extra=extra)
    c15.typed(c, c.pick(2500, 25000), dead=1.0)
    c.cov["distinct_evaluated_shapes"] = len(shapes)
    c.rule = "random declarations with conditions on fields, variants, markers and the annotation x all 8 truth assignments of three flags, every projection destructured exhaustively with declared types and values; distinct by (configuration, declaration)"
