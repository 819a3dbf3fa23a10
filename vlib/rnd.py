"""Engine D on random declarations: one thing is wrong with, or added to, a declaration
drawn from `decl`; the compiler's verdict on it is compared with the documented rule.
The undisturbed declaration (with a harmless addition) must be accepted."""
import random
from . import decl, verdict

HEAD = "#![allow(warnings)]\n"
USE = "use pin_project::{pin_project, pinned_drop}; use ::core::pin::Pin; use ::std::{vec, vec::Vec}; pub trait Harmless {} "


def flat(s):
    out = []
    for l in s.split("\n"):
        t = l.strip()
        if t.startswith("///"):
            t = "#[doc = \"d\"]"
        elif t.startswith("//"):
            continue
        out.append(t)
    return " ".join(out)


def draw(tag, seed, n, focus=(None,)):
    rng = random.Random("rnd/%s/%s" % (tag, seed))
    for i in range(n):
        d = decl.gen(rng, i, focus[i % len(focus)])
        for v in d.variants:
            for f in v.fields:
                f.pre = [p for p in f.pre if p != "//"]
        yield rng, d


def base(d, impls=None):
    return USE + flat(decl.decl_src(d)) + " " + flat(decl.impls_src(d) if impls is None else impls)


class Parts:
    """The pieces needed to name a declaration in an impl."""

    def __init__(self, d):
        self.n, self.gi, self.ta, self.w = d.name, decl.generics_impl(d), decl.ty_args(d), decl.where(d)
        self.full = d.name + self.ta
        self.inst = d.name + decl.inst_args(d)
        self.enum = d.kind == "enum"
        self.p = d.proj or not self.enum
        self.r = d.pref or not self.enum
        self.o = d.replace is not None

    def imp(self, trait, body="", unsafe=False, extra=""):
        w = self.w
        if extra:
            w = (w.rstrip(",") + ", " + extra) if w else " where " + extra
        return "%simpl%s %s for %s%s { %s }" % ("unsafe " if unsafe else "", self.gi, trait, self.full, w, body)


def uu_impl(d, p):
    return p.imp("::pin_project::UnsafeUnpin", unsafe=True) if d.unpin_arg == "unsafe_impl" else ""


def pd_impl(p, extra="", body="", attr="#[pinned_drop] "):
    return attr + p.imp("PinnedDrop", "fn drop(self: Pin<&mut Self>) { %s }" % body, extra=extra)


def shape(d):
    return decl.shape(d)


def c09(c, n):
    bad, good = [], []
    for rng, d in draw("C09", c.seed, n):
        p = Parts(d)
        b = base(d)
        k = "rnd/%d/" % d.idx
        good.append((k + "harmless", b + p.imp("Harmless")))
        atk = [("full", p.imp("Unpin")), ("path", p.imp("::core::marker::Unpin")), ("hrtb", p.imp("Unpin", extra="for<'zz> &'zz u8: Sized")), ("self-sized", p.imp("Unpin", extra="Self: Sized"))]
        if p.ta:
            atk.append(("inst", "impl Unpin for %s {}" % p.inst))
        for t in d.tps:
            atk.append(("bound-" + t[0], p.imp("Unpin", extra="%s: Unpin" % t[0])))
            atk.append(("local-bound-" + t[0], "pub trait Loc {} impl Loc for %s {} " % t[1] + p.imp("Unpin", extra="%s: Loc" % t[0])))
        atk = [atk[0]] + rng.sample(atk[1:], min(len(atk) - 1, 2))
        for nm, a in atk:
            bad.append((k + nm, b + a, "additional Unpin implementation for a random declaration"))
        if not d.unpin_arg.startswith("unsafe"):
            bad.append((k + "marker", b + p.imp("::pin_project::UnsafeUnpin", unsafe=True), "marker trait implemented without being requested"))
            if p.ta:
                bad.append((k + "marker-inst", b + "unsafe impl ::pin_project::UnsafeUnpin for %s {}" % p.inst, "marker trait implemented without being requested"))
        elif d.unpin_arg == "unsafe":
            bad.append((k + "marker-safe", b + p.imp("::pin_project::UnsafeUnpin"), "marker trait implemented without unsafe"))
    verdict.reject_batch(c, bad, per=40, head=HEAD)
    verdict.accept_batch(c, good)


def c10(c, n):
    bad, good = [], []
    for rng, d in draw("C10", c.seed, n):
        p = Parts(d)
        k = "rnd/%d/" % d.idx
        noimp = base(d, "") + uu_impl(d, p)
        b = noimp + (pd_impl(p) if d.pdrop else "")
        good.append((k + "harmless", b + p.imp("Harmless")))
        bad.append((k + "drop", b + p.imp("Drop", "fn drop(&mut self) {}"), "ordinary destructor on an annotated type"))
        bad.append((k + "call", b + " fn call%s(x: Pin<&mut %s>)%s { ::pin_project::__private::PinnedDrop::drop(x) }" % (p.gi, p.full, p.w), "direct call of the destructor"))
        if d.pdrop:
            bad.append((k + "missing", noimp, "requested destructor missing"))
            bad.append((k + "twice", b + pd_impl(p), "two pinned destructors"))
            bad.append((k + "instead", noimp + p.imp("Drop", "fn drop(&mut self) {}"), "ordinary destructor instead of the requested one"))
            for st in rng.sample(["__drop_inner(self)", "Self::drop(self)", "::pin_project::__private::PinnedDrop::drop(self)", "self.drop()", "Drop::drop(&mut *self)", "PinnedDrop::drop(self)"], 2):
                bad.append((k + "body " + st, noimp + "#[pinned_drop] " + p.imp("PinnedDrop", "fn drop(mut self: Pin<&mut Self>) { %s; }" % st), "re-entering the destructor body"))
            bad.append((k + "unsafe-op", noimp + pd_impl(p, body="let _ = Pin::new_unchecked(&mut 1u8);"), "unsafe operation without an unsafe block"))
            if p.ta:
                bad.append((k + "partial", noimp + "#[pinned_drop] impl PinnedDrop for %s { fn drop(self: Pin<&mut Self>) {} }" % p.inst, "destructor for one instantiation"))
            for t in d.tps:
                bad.append((k + "partial-" + t[0], noimp + "pub trait Loc {} " + pd_impl(p, "%s: Loc" % t[0]), "destructor for some instantiations"))
        else:
            bad.append((k + "unrequested", b + pd_impl(p), "pinned destructor not requested"))
            if p.ta:
                bad.append((k + "unrequested-inst", b + "#[pinned_drop] impl PinnedDrop for %s { fn drop(self: Pin<&mut Self>) {} }" % p.inst, "pinned destructor not requested"))
    # errors of different compiler phases hide each other: keep them apart
    ph = lambda x: x[0].split("/")[-1].split(" ")[0] in ("call", "unsafe-op", "body")
    verdict.reject_batch(c, [x for x in bad if not ph(x)], per=40, head=HEAD)
    verdict.reject_batch(c, [x for x in bad if ph(x)], per=30, head=HEAD)
    verdict.accept_batch(c, good)


def with_args(d, args, dl="()"):
    a, t = d.args, d.trail
    d.args, d.trail = args, False
    s = flat(decl.decl_src(d))
    d.args, d.trail = a, t
    return s


def c12(c, n):
    from .c12 import BAD, FIELD_MARKS
    bad, good = [], []
    for rng, d in draw("C12", c.seed, n):
        p = Parts(d)
        k = "rnd/%d/" % d.idx
        tail = " " + flat(decl.impls_src(d))
        pd = "" if d.pdrop else " "
        good.append((k + "base", base(d)))

        def put(x, pos=None):
            a = list(d.args)
            a.insert(rng.randrange(len(a) + 1) if pos is None else pos, x)
            return USE + with_args(d, a) + tail
        for x in rng.sample(BAD, 3):
            bad.append((k + "arg " + x, put(x), "argument outside the documented grammar"))
        if d.args:
            x = rng.choice(d.args)
            bad.append((k + "dup " + x, put(x), "duplicated argument"))
            key = x.split(" =")[0]
            if "=" in x:
                bad.append((k + "dup-other " + x, put(key + " = Other"), "duplicated argument with another value"))
            if key == "project_replace":
                bad.append((k + "dup-form " + x, put("project_replace" if "=" in x else "project_replace = Other"), "duplicated argument in another form"))
        for key in ("project", "project_ref", "project_replace"):
            if not any(a.split(" =")[0] == key for a in d.args) and not (key == "project_replace" and d.pdrop):
                bad.append((k + "own-name " + key, put("%s = %s" % (key, d.name)), "projection named like the type"))
                others = [a.split("= ")[1] for a in d.args if "= " in a]
                if others:
                    bad.append((k + "same-name " + key, put("%s = %s" % (key, rng.choice(others))), "two projections of one name"))
                if key != "project_replace":
                    bad.append((k + "no-value " + key, put(key), "incomplete argument"))
                elif p.enum:
                    bad.append((k + "no-value " + key, put(key), "incomplete argument"))
                bad.append((k + "half-value " + key, put(key + " ="), "incomplete argument"))
        if d.pdrop:
            bad.append((k + "pd-replace", put("project_replace = Other"), "contradictory arguments"))
            if not p.enum:
                bad.append((k + "pd-replace-unnamed", put("project_replace"), "contradictory arguments"))
        elif d.replace:
            bad.append((k + "replace-pd", put("PinnedDrop") + pd_impl(p), "contradictory arguments"))
        if d.unpin_arg == "not":
            bad.append((k + "not-unsafe", put("UnsafeUnpin"), "contradictory arguments"))
        elif d.unpin_arg.startswith("unsafe"):
            bad.append((k + "unsafe-not", put("!Unpin"), "contradictory arguments"))
        if d.args:
            seps = [put("", 0), put(",", len(d.args))]
            if len(d.args) > 1:
                seps += [USE + with_args(d, ["  ".join(d.args[:2])] + d.args[2:]) + tail, USE + with_args(d, ["; ".join(d.args[:2])] + d.args[2:]) + tail, put("", 1)]
            bad.append((k + "separator", rng.choice(seps), "malformed separators"))
        # markers
        fields = [f for v in d.variants if not v.dead for f in v.live]
        f = rng.choice(fields)
        sv = (f.pinned, f.pin_form, list(f.pre), f.pin_at)
        for m in rng.sample(FIELD_MARKS, 3) + ["#[pin] #[pin]"]:
            f.pinned, f.pin_form = True, m
            bad.append((k + "mark " + m, base(d), "the field marker takes no arguments and appears once"))
        f.pinned, f.pin_form, f.pre, f.pin_at = sv[0], sv[1], [p_ for p_ in sv[2] if "pin" not in p_] + ["#[doc = \"x\"]", rng.choice(["#[pin]", "#[r#pin]", "#[cfg_attr(all(), pin)]"])], 0
        if f.pinned:
            bad.append((k + "mark-apart", base(d), "the field marker appears once"))
        f.pinned, f.pin_form, f.pre, f.pin_at = sv
        at = list(d.attrs_after), list(d.attrs_before)
        d.attrs_after = at[0] + [rng.choice(["#[pin]", "#[pin()]", "#[cfg_attr(all(), pin)]", "#[r#pin]", "#[pin(__private())]"])]
        bad.append((k + "mark-item", base(d), "the field marker on an item"))
        d.attrs_after = at[0] + [rng.choice(["#[pin_project]", "#[::pin_project::pin_project]", "#[cfg_attr(all(), pin_project)]", "#[pin_project(project = Zz)]"])]
        bad.append((k + "twice", base(d), "annotated twice"))
        d.attrs_after = at[0]
        if p.enum:
            v = rng.choice([v for v in d.variants if not v.dead])
            pre = list(v.pre)
            v.pre = pre + [rng.choice(["#[pin]", "#[pin()]", "#[cfg_attr(all(), pin)]", "#[r#pin]", "#[pin = \"x\"]"])]
            bad.append((k + "mark-variant", base(d), "the field marker on a variant"))
            v.pre = pre
            nm, st = v.name, v.style
            d.attrs_before = [a for a in at[1] if "repr" not in a] + ["#[repr(u8)]"]
            d.attrs_after = [a for a in at[0] if "repr" not in a]
            if st == "unit":
                v.name = nm + " = 7"
                src = USE + flat(decl.decl_src(d))
                v.name = nm
                bad.append((k + "discriminant", src + (pd_impl(p) if d.pdrop else "") + uu_impl(d, p), "explicit discriminant"))
            d.attrs_after, d.attrs_before = at
    verdict.reject_batch(c, bad, per=50, head=HEAD)
    verdict.accept_batch(c, good)


def tys(d, f, kind, lt):
    t = {"p": "&%s mut (%s)", "r": "&%s (%s)"}[kind] % (lt, f.ty)
    return "Pin<%s>" % t if f.pinned else t


def c20(c, n):
    bad, good = [], []
    for rng, d in draw("C20", c.seed, n, ("project", "replace", None)):
        if any("Self" in f.ty for v in d.variants for f in v.fields):
            continue
        p = Parts(d)
        k = "rnd/%d/" % d.idx
        b = base(d) + " fn use_<T>(_: T) {} fn look<T: ?Sized>(_: &T) {} "
        lv = [v for v in decl.live_variants(d) if v.live]
        v = rng.choice(lv)
        i = rng.randrange(len(v.live))
        f = v.live[i]
        gi = p.gi
        g2 = "<'zz%s>" % (", " + gi[1:-1] if gi else "")
        g3 = "<'zz, 'yy%s>" % (", " + gi[1:-1] if gi else "")
        acc = decl.acc(f, i, v.style)

        def get(expr, tn, bind):
            if not p.enum:
                return "let mut %s = (%s).%s;" % (bind, expr, acc)
            pt = "%s::%s { %s: x, .. }" % (tn, v.name, acc)
            return "let mut %s = match %s { %s => x, _ => loop {} };" % (bind, expr, pt)

        def fn(sig, body, gg=g2):
            return "fn u%s%s%s { %s }" % (gg, sig, p.w, body)
        for m, kd, tn, rx, sref in (("project", "p", d.pname, "Pin<&'zz mut %s>" % p.full, "as_mut"), ("project_ref", "r", d.rname, "Pin<&'zz %s>" % p.full, "as_ref")):
            if not (p.p if kd == "p" else p.r):
                continue
            named = d.proj if kd == "p" else d.pref
            t = tys(d, f, kd, "'zz")
            good.append((k + m + " full", b + fn("(s: %s) -> %s" % (rx, t), get("s.%s()" % m, tn, "x") + " x")))
            # reborrow twice through an argument of an unrelated lifetime
            good.append((k + m + " again", b + fn("(mut s: Pin<&'zz mut %s>)" % p.full, "{ %s look(&x); } { %s look(&x); } s.as_mut(); use_(s);" % ((get("s.%s().%s()" % (sref, m), tn, "x"),) * 2))))
            good.append((k + m + " moved", b + fn("(mut s: Pin<&'zz mut %s>)" % p.full, "%s let y = x; look(&y); let z = s.as_ref(); look(&*z);" % get("s.%s().%s()" % (sref, m), tn, "x"))))
            bad.append((k + m + " longer", b + fn("(s: %s) -> %s" % (rx, tys(d, f, kd, "'yy")), get("s.%s()" % m, tn, "x") + " x", g3), "a reference that outlives its source"))
            bad.append((k + m + " reborrow", b + fn("(s: &mut Pin<&'zz mut %s>) -> %s" % (p.full, t), get("s.%s().%s()" % (sref, m), tn, "x") + " x"), "a reference that outlives its source"))
            bad.append((k + m + " conflict", b + fn("(mut s: Pin<&'zz mut %s>)" % p.full, "%s let y = s.as_mut(); look(&x);" % get("s.%s().%s()" % (sref, m), tn, "x")), "use of a borrowed value"))
            if named and p.ta == "":
                good.append((k + m + " named", b + fn("(s: %s) -> %s<'zz>" % (rx, tn), "s.%s()" % m)))
                bad.append((k + m + " named-longer", b + fn("(s: %s) -> %s<'yy>" % (rx, tn), "s.%s()" % m, g3), "a projection that outlives its source"))
                bad.append((k + m + " named-static", b + fn("(s: %s) -> %s<'static>" % (rx, tn), "s.%s()" % m), "a projection that outlives its source"))
            if kd == "p":
                bad.append((k + m + " double", b + fn("(mut s: Pin<&'zz mut %s>)" % p.full, "%s %s look(&x);" % (get("s.as_mut().project()", tn, "x"), get("s.as_mut().project()", tn, "y"))), "two mutable projections at once"))
                if len(v.live) > 1:
                    nm = ["w%d" % j for j in range(len(v.live))]
                    path = "%s::%s" % (tn, v.name) if p.enum else tn
                    pt = "%s { %s }" % (path, ", ".join("%s: %s" % (decl.acc(g, j, v.style), nm[j]) for j, g in enumerate(v.live)))
                    if p.enum or d.proj:
                        ts = ", ".join(tys(d, g, kd, "'zz") for g in v.live)
                        good.append((k + m + " disjoint", b + fn("(s: %s) -> (%s,)" % (rx, ts), "let %s = s.project() else { loop {} }; (%s,)" % (pt, ", ".join(nm)))))
            else:
                good.append((k + m + " shared", b + fn("(s: %s) -> (%s, %s)" % (rx, t, t), "%s %s let z = x; let _ = (y, x); (z, x)" % (get("s.project_ref()", tn, "x"), get("s.project_ref()", tn, "y")))))
                bad.append((k + m + " write", b + fn("(mut s: Pin<&'zz mut %s>)" % p.full, "%s drop(s.as_mut()); look(&x);" % get("s.as_ref().project_ref()", tn, "x")), "mutable use of a shared value"))
        if p.o:
            tn = d.oname
            rt = "" if d.replace == "unnamed" else " -> %s%s" % (tn, p.ta)
            bd = "let o = s.as_mut().project_replace(n); look(&*s.as_mut()); " + ("o" if rt else "use_(o);")
            good.append((k + "replace owned", b + fn("(mut s: Pin<&'zz mut %s>, n: %s)%s" % (p.full, p.full, rt), bd)))
            bad.append((k + "replace moved", b + fn("(mut s: Pin<&'zz mut %s>, n: %s)" % (p.full, p.full), "let o = s.as_mut().project_replace(n); use_(n);"), "use of a moved replacement"))
            bad.append((k + "replace self", b + fn("(s: Pin<&'zz mut %s>, n: %s)" % (p.full, p.full), "let o = s.project_replace(n); use_(s);"), "use of a consumed reference"))
    verdict.reject_batch(c, bad, per=40, head=HEAD)
    verdict.accept_batch(c, good)


TRAITS = ["Clone", "Copy", "::core::fmt::Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "::core::hash::Hash", "Default", "::core::ops::Deref", "::core::ops::Drop", "::core::fmt::Display", "::core::iter::Iterator"]
METHODS = ["project", "project_ref", "project_replace", "project_mut", "projected", "as_project", "pin", "replace", "drop", "unpin", "is_unpin", "new", "project_own", "get_pin_mut", "project_into_ref", "take"]


def c14(c, n):
    from . import suite
    bad, good, run = [], [], []
    for rng, d in draw("C14", c.seed, n):
        p = Parts(d)
        k = "rnd/%d/" % d.idx
        b = base(d)
        have = {m for m, x in (("project", p.p), ("project_ref", p.r), ("project_replace", p.o)) if x}
        free = [m for m in METHODS if m not in have]
        good.append((k + "methods", b + "impl%s %s%s { %s }" % (p.gi, p.full, p.w, " ".join("fn %s(self: Pin<&mut Self>) {}" % m for m in free))))
        for m in ("project", "project_ref", "project_replace"):
            if m not in have:
                rx = {"project": "mut "}.get(m, "mut " if m == "project_replace" else "")
                bad.append((k + "no " + m, b + "fn u%s(s: Pin<&%s%s>, n: %s)%s { let _ = s.%s(%s); }" % (p.gi, rx, p.full, p.full, p.w, m, "n" if m == "project_replace" else ""), "a projection that was not requested"))
        names = [x for x, y in ((d.pname, d.proj), (d.rname, d.pref), (d.oname, d.replace == "named")) if y]
        for nm in names:
            good.append((k + "named " + nm, b + "pub use self::user_%s::*; mod user_%s { #[allow(unused_imports)] use super::%s; }" % (nm, nm, nm)))
        hidden = ["Projection", "ProjectionRef", "ProjectionOwned", "%sProjection" % d.name, "%sProjectionRef" % d.name, "%sProjectionOwned" % d.name, "%sProj" % d.name, "__%sProjection" % d.name,
                  "__%sProjectionRef" % d.name, "__%sProjectionOwned" % d.name, "__%s" % d.name, "%sMustNotImplDrop" % d.name, "_pin_project", "__assert_not_repr_packed", "__drop_inner", "PinnedDrop"]
        hidden = [h for h in hidden if h not in names]
        for h in rng.sample(hidden, 4):
            bad.append((k + "hidden " + h, b + " mod user { use super::%s as _hidden; }" % h, "a name nobody declared"))
        mine = [h for h in hidden if not h.startswith("_") and h != "PinnedDrop"]
        good.append((k + "own items", b + " ".join("%s %s%s" % (rng.choice(["struct", "trait", "mod", "enum"]), h, " {}") for h in mine)))
        args = {"p": decl.inst_args(d), "r": decl.inst_args(d)}
        body = ""
        for nm in names:
            ia = decl.inst_args(d)
            if nm != d.oname:
                ia = "<'static%s>" % (", " + ia[1:-1] if ia else "")
            for t in TRAITS:
                body += "vrt::leq(\"%s: %s\", vrt::is!(%s%s: %s), false); " % (nm, t, nm, ia, t)
            if nm != d.oname:
                body += "vrt::leq(\"%s needs_drop\", ::core::mem::needs_drop::<%s%s>(), false); " % (nm, nm, ia)
        if body:
            run.append(suite.Case(k + "traits", b + " pub fn run() { %s }" % body, key=k + "traits"))
    verdict.reject_batch(c, bad, per=50, head=HEAD)
    verdict.accept_batch(c, good)
    suite.run_suite(c, run, per=24)


def c13(c, n):
    from .c13 import ALL, PATH, VIS, tree
    bad, good = [], []
    keys = list(VIS)
    for rng, d in draw("C13", c.seed, n, (None, "replace", "project")):
        d.vis = (rng.choice(keys) + " ").lstrip()
        for v in d.variants:
            for f in v.fields:
                if d.kind != "enum":
                    f.vis = (rng.choice(keys) + " ").lstrip()
        p = Parts(d)
        k = "rnd/%d/" % d.idx
        b = base(d).replace("use pin_project::{pin_project, pinned_drop}; use ::core::pin::Pin;", "use ::pin_project::pinned_drop;")
        sites = VIS[d.vis.strip()]
        lv = [v for v in decl.live_variants(d) if v.live]
        for m, ok, tn, named in (("project", p.p, d.pname, d.proj), ("project_ref", p.r, d.rname, d.pref), ("project_replace", p.o, d.oname, d.replace == "named")):
            if not ok:
                continue
            if named:
                for site in rng.sample(ALL, 3):
                    x = (k + "name/%s/%s" % (m, site), tree(b, site, "use %s::%s as Q;" % (PATH[site], tn)))
                    (good.append(x) if site in sites else bad.append(x + ("the projection type is named from a place that cannot name the type",)))
            v = rng.choice(lv)
            for i in rng.sample(range(len(v.live)), min(3, len(v.live))):
                f = v.live[i]
                fs = sites if p.enum else VIS[f.vis.strip()]
                for site in rng.sample(sites, min(3, len(sites))):
                    q = PATH[site]
                    full = q + "::" + p.full
                    rx = "Pin<&%s%s>" % ("" if m == "project_ref" else "mut ", full)
                    call = "s.%s(%s)" % (m, "n" if m == "project_replace" else "")
                    ac = decl.acc(f, i, v.style)
                    if p.enum:
                        use = "match %s { %s::%s::%s { %s: _y, .. } => {}, _ => {} }" % (call, q, tn, v.name, ac)
                    elif named and rng.random() < 0.4:
                        use = "let %s::%s { %s: _y, .. } = %s;" % (q, tn, ac, call)
                    else:
                        use = "let x = %s; let _y = &x.%s;" % (call, ac)
                    w = p.w.replace("Self", full)
                    src = tree(b, site, "use ::core::pin::Pin as PinQ; pub fn use_it%s(s: %s, n: %s)%s { %s }" % (p.gi, rx.replace("Pin<", "PinQ<", 1), full, w, use))
                    x = (k + "field/%s/%s/%d" % (m, site, i), src)
                    (good.append(x) if site in fs else bad.append(x + ("a field of the projection is reached from a place that cannot reach it on the type",)))
    verdict.reject_batch(c, [x for x in bad if "/name/" in x[0]], per=50, head=HEAD)
    verdict.reject_batch(c, [x for x in bad if "/name/" not in x[0]], per=40, head=HEAD)
    verdict.accept_batch(c, good)
    c.count("random_places_that_may", len(good))
    c.count("random_places_that_may_not", len(bad))
