"""Trait answers inside generic code, for everything the grammar of C15 declares.

For each declaration a function in an impl block with the same generics (and random further bounds) asks
for a trait of the annotated type, or of its projections, and for the same trait of a tuple of what the property
names.  The answers are types; they are compared by unification, so a difference is a compile error."""
import random
from . import c15, verdict

PROBE = ("pub mod pr { pub struct Y; pub struct N; pub struct Pr<T: ?Sized>(::core::marker::PhantomData<T>); impl<T: ?Sized> Pr<T> { pub const fn new() -> Self { Pr(::core::marker::PhantomData) } } pub fn eq<X>(_: X, _: X) {} "
         + "".join("pub mod %s { use super::*; pub trait A { fn zz_answer(&self) -> Y { Y } } impl<T: ?Sized + %s> A for &Pr<T> {} pub trait B { fn zz_answer(&self) -> N { N } } impl<T: ?Sized> B for Pr<T> {} } " % x
                   for x in [("unpin", "::core::marker::Unpin"), ("send", "::core::marker::Send"), ("sync", "::core::marker::Sync"), ("us", "::core::panic::UnwindSafe"), ("rus", "::core::panic::RefUnwindSafe")])
         + "} #[macro_export] macro_rules! same { ($m:ident, $a:ty, $b:ty) => {{ use $crate::pr::$m::{A as _, B as _}; $crate::pr::eq((&&$crate::pr::Pr::<$a>::new()).zz_answer(), (&&$crate::pr::Pr::<$b>::new()).zz_answer()); }}; } "
         "#[macro_export] macro_rules! never { ($m:ident, $a:ty) => {{ use $crate::pr::$m::{A as _, B as _}; $crate::pr::eq((&&$crate::pr::Pr::<$a>::new()).zz_answer(), $crate::pr::N); }}; } "
         "#[macro_export] macro_rules! always { ($m:ident, $a:ty) => {{ use $crate::pr::$m::{A as _, B as _}; $crate::pr::eq((&&$crate::pr::Pr::<$a>::new()).zz_answer(), $crate::pr::Y); }}; } "
         "#[macro_export] macro_rules! none { ($m:ident, $a:ty) => {}; }")

TR = {"unpin": "::core::marker::Unpin", "send": "::core::marker::Send", "sync": "::core::marker::Sync", "us": "::core::panic::UnwindSafe", "rus": "::core::panic::RefUnwindSafe"}


def tup(xs):
    """Nested pairs: no limit on the number of parts."""
    r = "()"
    for x in xs:
        r = "(%s, %s)" % (r, x)
    return r


def fields(t):
    return [f for _, fs in t.shapes for f in fs]


def bounds(rng, t, traits):
    g = t.g
    w = []
    for n in g.tps:
        for tr in traits:
            if rng.random() < 0.35:
                w.append("%s: %s" % (n, TR[tr]))
    if rng.random() < 0.3:
        f = rng.choice([f for f in fields(t) if "Self" not in f[1] and "'" not in f[1]] or [("", "u8", False)])
        w.append("%s: %s" % (f[1], TR[rng.choice(traits)]))
    if rng.random() < 0.2 and g.tps:
        w.append("<%s as Tr>::A: %s" % (rng.choice(g.tps), TR[rng.choice(traits)]))
    return w


def family(c, n, prop):
    rng = random.Random("%s/generic/%s" % (prop, c.seed))
    items, asked = [], 0
    for i in range(n):
        a, d, u, pu, t = c15.declaration(rng, dead=float(rng.random() < 0.3))
        g = t.g
        mode = "!Unpin" if "!Unpin" in t.args else "UnsafeUnpin" if "UnsafeUnpin" in t.args else ""
        if "PinnedDrop" in t.args:
            u = u[u.index("#[pinned_drop]"):].split(" unsafe impl")[0]
        else:
            u = ""
        fs = fields(t)
        if g.lts and any(p and "Self" in ty for _, ty, p in fs) and prop in ("C07", "C08"):
            continue            # known finding recursive-pinned-field-with-lifetime, see c07.py
        pu = ""
        ph = [("::core::marker::PhantomData<%s>" % ty, p) for _, ty, p in fs]
        outl = ["%s: 'zz" % x for x in g.lts + g.tps]
        q = []          # (statement about the annotated, statement about the reference)
        if prop == "C07":
            if mode:
                continue
            traits = ["unpin"]
            r = tup(x for x, p in ph if p)
            q.append(("same!(unpin, Self, %s);" % r, "same!(unpin, %s, %s);" % (r, r)))
        elif prop == "C08":
            if not mode:
                mode = rng.choice(["!Unpin", "UnsafeUnpin"])
                at = t.args + [mode]
                a = "#[pin_project(%s)]" % ", ".join(at)
            traits = ["unpin"]
            if mode == "!Unpin":
                q.append(("never!(unpin, Self);", "none!(unpin, Self);"))
            elif not g.params or rng.random() < 0.3:
                q.append(("never!(unpin, Self);", "none!(unpin, Self);"))
            else:
                # the user's own condition decides
                cond = rng.choice(["T0: Unpin", "field"])
                if cond == "T0: Unpin" and g.tps:
                    x = rng.choice(g.tps)
                else:
                    x = "::core::marker::PhantomData<%s>" % rng.choice([f[1] for f in fs if "Self" not in f[1] and "'" not in f[1]] or ["u8"])
                w = g.wh().rstrip().rstrip(",")
                w = (w + ", " if g.where else " where ") + "%s: ::core::marker::Unpin" % x
                pu = " pub trait Uu {} impl%s Uu for %s%s%s {}" % (g.impl(), t.name, g.args(), w)
                u += " unsafe impl%s ::pin_project::UnsafeUnpin for %s%s%s {}" % (g.impl(), t.name, g.args(), w)
                q.append(("same!(unpin, Self, %s);" % x, "same!(unpin, %s, %s);" % (x, x)))
        elif prop == "C17":
            traits = ["send", "sync", "us", "rus"]
            r = tup(x for x, p in ph)
            for m in traits:
                q.append(("same!(%s, Self, %s);" % (m, r), "same!(%s, Self, %s);" % (m, r)))
        else:
            traits = ["send", "sync"]
            ref = {}
            if "project = SP" in t.args:
                ref["SP" + g.args("'zz")] = tup(("::core::pin::Pin<&'zz mut (%s)>" if p else "&'zz mut (%s)") % ty for _, ty, p in fs)
            if "project_ref = SR" in t.args:
                ref["SR" + g.args("'zz")] = tup(("::core::pin::Pin<&'zz (%s)>" if p else "&'zz (%s)") % ty for _, ty, p in fs)
            if "project_replace = SO" in t.args:
                ref["SO" + g.args()] = tup(("::core::marker::PhantomData<%s>" if p else "%s") % ty for _, ty, p in fs)
            if not ref:
                continue
            for k, r in ref.items():
                for m in traits:
                    q.append(("same!(%s, %s, %s);" % (m, k, r), "same!(%s, %s, %s);" % (m, r, r)))
        b = outl + bounds(rng, t, traits)
        wh = " where " + ", ".join(b) if b else ""
        imp = lambda k: "impl%s %s%s%s { fn chk<'zz>()%s { %s } }" % (g.impl(), t.name, g.args(), g.wh(), wh, " ".join(x[k] for x in q))
        asked += len(q)
        items.append(("generic %s %s%s" % (a, d, wh), c15.PRE + c15.strip(d) + pu + " " + imp(1), c15.PRE + a + " " + d + " " + u + " " + imp(0)))
    c15.twins(c, items, extra=PROBE)
    c.count("generic_questions", asked)


# ---------------------------------------------------------------- attacks

PACKED = ["repr(packed)", "repr(C, packed)", "repr(packed(1))", "repr(packed(2))", "repr(packed, C)", "repr(Rust, packed)", "repr(packed(4), C)", "repr(packed(16))"]


def attack_texts(rng, prop, a, d, t):
    """(attribute, uses that must be accepted, [(name, attribute, declaration, uses that must be rejected, phase)])."""
    g, n = t.g, t.name
    args = [x for x in t.args if x not in ("PinnedDrop", "!Unpin", "UnsafeUnpin")]
    mode = rng.choice(["", "", "!Unpin", "UnsafeUnpin"])
    pd = rng.random() < 0.4 and "project_replace = SO" not in args
    al = args + ([mode] if mode else []) + (["PinnedDrop"] if pd else [])
    rng.shuffle(al)
    attr = lambda l: "#[pin_project(%s)]" % ", ".join(l) if l else "#[pin_project]"
    full = n + g.args()

    def imp(trait, body="", extra="", unsafe=False):
        w = g.wh().rstrip().rstrip(",")
        if extra:
            w = (w + ", " if g.where else " where ") + extra
        return " %simpl%s %s for %s%s { %s }" % ("unsafe " if unsafe else "", g.impl(), trait, full, w, body)
    body = "fn drop(self: ::core::pin::Pin<&mut Self>) {}"
    pdi = " #[pinned_drop]" + imp("PinnedDrop", body) if pd else ""
    good = pdi + imp("Harmless")
    bad = []
    D = "::core::ops::Drop"
    if prop == "C09":
        for nm, extra in [("full", "")] + ([("sized", "Self: ::core::marker::Sized")] if t.sized else []) + [("bound", "%s: ::core::marker::Unpin" % x) for x in g.tps] + [("local", "%s: Harmless" % x) for x in g.tps]:
            if nm == "full" or rng.random() < 0.4:
                bad.append((nm, attr(al), d, pdi + imp("::core::marker::Unpin", extra=extra), 0))
        if mode != "UnsafeUnpin":
            bad.append(("marker", attr(al), d, pdi + imp("::pin_project::UnsafeUnpin", unsafe=True), 0))
    elif prop == "C10":
        bad.append(("drop", attr(al), d, pdi + imp(D, "fn drop(&mut self) {}"), 0))
        bad.append(("call", attr(al), d, pdi + " impl%s %s%s { fn zz_call(self: ::core::pin::Pin<&mut Self>) { ::pin_project::__private::PinnedDrop::drop(self) } }" % (g.impl(), full, g.wh()), 1))
        if pd:
            bad.append(("missing", attr(al), d, "", 0))
            bad.append(("twice", attr(al), d, pdi + pdi, 0))
            bad.append(("instead", attr(al), d, imp(D, "fn drop(&mut self) {}"), 0))
            if g.tps:
                bad.append(("partial", attr(al), d, " #[pinned_drop]" + imp("PinnedDrop", body, extra="%s: Harmless" % rng.choice(g.tps)), 0))
        else:
            bad.append(("unrequested", attr(al), d, " #[pinned_drop]" + imp("PinnedDrop", body), 0))
    elif prop == "C11":
        if t.kind == "enum":
            return None
        for sp in rng.sample(PACKED, 3):
            before = rng.random() < 0.5
            bad.append((sp, "#[%s] %s" % (sp, attr(al)) if before else attr(al), d if before else "#[%s] %s" % (sp, d), pdi, 0))
    elif prop == "C14":
        has = {"project": t.kind != "enum" or "project = SP" in args, "project_ref": t.kind != "enum" or "project_ref = SR" in args, "project_replace": "project_replace = SO" in args}
        call = {"project": "self: ::core::pin::Pin<&mut Self>) { let _ = self.project(); }", "project_ref": "self: ::core::pin::Pin<&Self>) { let _ = self.project_ref(); }", "project_replace": "self: ::core::pin::Pin<&mut Self>, v: Self) where Self: ::core::marker::Sized { let _ = self.project_replace(v); }"}
        ms = lambda l: " impl%s %s%s { %s }" % (g.impl(), full, g.wh(), " ".join("fn zz_%s(%s" % (x, call[x]) for x in l))
        good += ms([x for x in has if has[x]])
        for x in has:
            if not has[x]:
                bad.append((x, attr(al), d, pdi + ms([x]), 0))
        for nm, x in (("SP", "project = SP"), ("SR", "project_ref = SR"), ("SO", "project_replace = SO")):
            if x in args:
                p = nm + (g.args() if nm == "SO" else g.args("'_"))
                good += " impl%s HarmlessToo for %s%s {}" % (g.impl(), p, g.wh()) if False else ""
            else:
                bad.append(("name " + nm, attr(al), d, pdi + " fn zz_use() { use self::%s as _; }" % nm, 0))
    elif prop == "C20":
        P = "::core::pin::Pin<&'zz mut Self>"
        fs = []
        if t.kind != "enum" or "project = SP" in args:
            fs += [("twice", "fn zz_a(mut self: ::core::pin::Pin<&mut Self>) { let a = self.as_mut().project(); let b = self.as_mut().project(); both(a, b); }"),
                   ("moved", "fn zz_a(self: ::core::pin::Pin<&mut Self>) { let a = self.project(); let b = self.project(); }"),
                   ("shared while projected", "fn zz_a(mut self: ::core::pin::Pin<&mut Self>) { let a = self.as_mut().project(); let b = self.as_ref(); both(a, b); }"),
                   ("set while projected", "fn zz_a(mut self: ::core::pin::Pin<&mut Self>, v: Self) where Self: ::core::marker::Sized { let a = self.as_mut().project(); self.as_mut().set(v); both(a, ()); }")]
            good += " impl%s %s%s { fn zz_g(mut self: ::core::pin::Pin<&mut Self>) { { let a = self.as_mut().project(); both(a, ()); } let b = self.as_mut().project(); both((), b); } }" % (g.impl(), full, g.wh())
        if "project = SP" in args:
            fs.append(("static", "fn zz_a(self: ::core::pin::Pin<&mut Self>) -> SP%s { self.project() }" % g.args("'static")))
            fs.append(("longer", "fn zz_a<'zl, 'zz: 'zl>(self: ::core::pin::Pin<&'zl mut Self>) -> SP%s { self.project() }" % g.args("'zz")))
            good += " impl%s %s%s { fn zz_h<'zz>(self: %s) -> SP%s { self.project() } }" % (g.impl(), full, g.wh(), P, g.args("'zz"))
        if t.kind != "enum" or "project_ref = SR" in args:
            fs.append(("mutated while shared", "fn zz_a(mut self: ::core::pin::Pin<&mut Self>) { let a = self.as_ref().project_ref(); let b = self.as_mut(); both(b, a); }"))
            good += " impl%s %s%s { fn zz_i(self: ::core::pin::Pin<&Self>) { let a = self.project_ref(); let b = self.project_ref(); both(a, b); } }" % (g.impl(), full, g.wh())
        if "project_ref = SR" in args:
            fs.append(("shared static", "fn zz_a(self: ::core::pin::Pin<&Self>) -> SR%s { self.project_ref() }" % g.args("'static")))
            fs.append(("shared longer", "fn zz_a<'zl, 'zz: 'zl>(self: ::core::pin::Pin<&'zl Self>) -> SR%s { self.project_ref() }" % g.args("'zz")))
        good += " fn both<X, Y>(_: X, _: Y) {}"
        if any("'static" in w and "Self" in w for w in g.where):
            fs = [f for f in fs if "static" not in f[0]]
        for nm, f in fs:
            bad.append((nm, attr(al), d, pdi + " impl%s %s%s { %s } fn both<X, Y>(_: X, _: Y) {}" % (g.impl(), full, g.wh(), f), 1 if nm in ("moved", "static", "longer", "shared static", "shared longer") else 2))
    return attr(al), good, bad


WHY = {"C09": "additional implementation that decides Unpin", "C10": "destructor added, missing, doubled or called", "C11": "packed type projected", "C14": "API that was not requested", "C20": "projection used longer than, or beside, its source"}


def attacks(c, n, prop):
    """Declarations of the C15 grammar, each accepted in the harmless form, with one thing added that must be rejected."""
    rng = random.Random("%s/attacks/%s" % (prop, c.seed))
    pre = c15.PRE + "pub trait Harmless {} "
    items, bads = [], {}
    for i in range(n):
        a, d, u, pu, t = c15.declaration(rng, dead=float(rng.random() < 0.15))
        if not t.sized and any("Self:" in w and "Sized" in w for w in t.g.where):
            continue            # a type that cannot exist: impls for it hold vacuously
        r = attack_texts(rng, prop, a, d, t)
        if r is None:
            continue
        at, good, bad = r
        nm = "%s %s" % (at, d)
        plain = pre + c15.strip(d)
        if prop == "C11":
            plain = pre + "#[repr(packed)] " + c15.strip(d)
        items.append((nm, plain, pre + at + " " + d + good))
        bads[nm] = [("%s: %s" % (x[0], nm), pre + x[1] + " " + x[2] + x[3], WHY[prop], x[4]) for x in bad]
    ok = c15.twins(c, items)
    for ph in (0, 1, 2):
        verdict.reject_batch(c, [b[:3] for x in ok for b in bads[x[0]] if b[3] == ph], per=40, head="#![allow(warnings)]\n" + c15.CRATE + "\n")
    c.count("attacked_declarations", len(ok))
