"""C02: attack programs of the static half; the dynamic half is the runtime engine."""
from . import c15, grun, runeng, verdict
from .kinds import K, KINDS, PRE

NP = "pub struct F(u8, PhantomPinned);\nimpl F { fn n() -> F { F(0, PhantomPinned) } }\n"


def programs():
    out = []
    for kind in KINDS:
        for mode in ("", "!Unpin", "UnsafeUnpin", "PinnedDrop", "PinnedDrop, !Unpin"):
            # concrete non-movable pinned field, same type unpinned
            k = K(kind, mode, "", "", "F", "F")
            pd = ("#[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) {} }\n" if "PinnedDrop" in mode else "")
            base = PRE + NP + k.decl + "\n" + pd
            pm = k.split("x.project()", mut=True)
            pr = k.split("x.project_ref()", "SR")
            t = "%s/%s/" % (kind, mode or "default")
            for name, bad, good in [
                ("assign-mut-ref", "let r: &mut F = f;", "let r: &mut F = g;"),
                ("swap", "core::mem::swap(&mut *f, &mut o);", "core::mem::swap(&mut *g, &mut o);"),
                ("swap2", "core::mem::swap(f, g);", "core::mem::swap(g, &mut o);"),
                ("replace", "let v = core::mem::replace(f, o);", "let v = core::mem::replace(g, o);"),
                ("assign", "*f = o;", "*g = o;"),
                ("get_mut", "let r = f.get_mut();", "let r = f.as_mut();"),
                ("into_inner", "let r: &mut F = Pin::into_inner(f);", "let r: &mut F = g;"),
                ("pin-new", "let r = Pin::new(&mut *f);", "let r = f.as_mut();"),
                ("deref-mut", "let r: &mut F = core::ops::DerefMut::deref_mut(&mut f);", "let r: &F = core::ops::Deref::deref(&f);"),
                ("field-mut", "f.0 = 1;", "g.0 = 1;"),
                ("move-out", "let v: F = *f;", "let v: &F = &*f;"),
                ("as-mut-ref", "let r: &mut F = f.as_mut();", "let r: Pin<&mut F> = f.as_mut();"),
            ]:
                out += verdict.attack("mut/" + t + name, base + "fn t(x: Pin<&mut S>, mut o: F) { %s\n    %s //~\n    %s //=\n}\n" % (pm, bad, good),
                                      "mutable access to a pinned field")
            out += verdict.attack("ref/" + t + "interior", base + "fn t(x: Pin<&S>) { %s\n    let v: F = *f; //~\n    let v: &F = &*g; //=\n}\n" % pr, "move out of shared projection")
            out += verdict.attack("ref/" + t + "mutref", base + "fn t(x: Pin<&S>) { %s\n    let v: &mut F = &mut *f; //~\n    let v: Pin<&F> = f; //=\n}\n" % pr, "mutable from shared")
            for name, bad, good in [
                ("get_mut", "let r: &mut S = x.get_mut();", "let r: Pin<&mut S> = x.as_mut();"),
                ("into_inner", "let r: &mut S = Pin::into_inner(x);", "let r: &S = &*x;"),
                ("deref", "let r: &mut S = &mut *x;", "let r: &S = &*x;"),
                ("swap", "core::mem::swap(&mut *x, &mut *y);", "x.set(y);"),
                ("assign", "*x = y;", "x.set(y);"),
            ]:
                arg = "mut y: Box<S>" if name == "swap" else "y: S"
                if name == "swap":
                    good = "x.set(*y);"
                out += verdict.attack("whole/" + t + name, base + "fn t(mut x: Pin<&mut S>, %s) {\n    %s //~\n    %s //=\n}\n" % (arg, bad, good), "mutable access to the pinned value")
            out += verdict.attack("box/" + t + "into_inner", base + "fn t(mut x: Pin<Box<S>>) {\n    let b: Box<S> = Pin::into_inner(x); //~\n    let b: Pin<&mut S> = x.as_mut(); //=\n}\n", "unpinning a box")
            out += verdict.attack("pinnew/" + t, base + "fn t(x: &mut S) {\n    let p = Pin::new(x); //~\n    let p: &mut S = x; //=\n}\n", "pinning a movable place safely")
        # replacement results
        for gen, ft in (("", "F"), ("<T>", "T")):
            k = K(kind, "project_replace", gen, "", ft, ft)
            base = PRE + NP + k.decl + "\n"
            po = k.split("x.project_replace(y)", "SO")
            ta = gen
            out += verdict.attack("own/%s/%s" % (kind, ft), base + "fn t%s(x: Pin<&mut S%s>, y: S%s) { %s\n    let v: %s = f; //~\n    let v: %s = g; let w: PhantomData<%s> = f; //=\n}\n"
                                  % (gen, ta, ta, po, ft, ft, ft), "owned pinned field from a replacement")
            if kind in ("named", "tuple"):
                ku = K(kind, "", gen, "", ft, ft)
                d2 = ku.decl.replace("#[pin_project(project = SP, project_ref = SR)]", "#[pin_project(project_replace)]")
                acc = ("o.f", "o.g") if kind == "named" else ("o.0", "o.1")
                out += verdict.attack("own-unnamed/%s/%s" % (kind, ft), PRE + NP + d2 + "\nfn t%s(x: Pin<&mut S%s>, y: S%s) { let o = x.project_replace(y);\n    let v: %s = %s; //~\n    let v: %s = %s; //=\n}\n"
                                      % (gen, ta, ta, ft, acc[0], ft, acc[1]), "owned pinned field from a replacement")
        # generic field: movable only under a bound
        k = K(kind, "", "<T, U>", "", "T", "U")
        base = PRE + k.decl + "\n"
        pm = k.split("x.project()", mut=True)
        for name, bad, good in [
            ("ref", "let r: &mut T = f; f.get_mut()", "let r: &mut U = g; loop {}"),
            ("get_mut", "f.get_mut()", "loop {}"),
            ("into_inner", "Pin::into_inner(f)", "loop {}"),
        ]:
            out += verdict.attack("generic/%s/%s" % (kind, name), base + "fn t<'q, T, U>(x: Pin<&'q mut S<T, U>>) -> &'q mut T { %s\n    %s //~\n    %s //=\n}\n" % (pm, bad, good), "generic pinned field")
        out += verdict.accept("generic-unpin/%s" % kind, base + "fn t<'q, T: Unpin, U>(x: Pin<&'q mut S<T, U>>) -> &'q mut T { %s f.get_mut() }\n" % pm)
        out += verdict.accept("generic-unpin-whole/%s" % kind, base + "fn t<'q, T: Unpin, U>(x: Pin<&'q mut S<T, U>>) -> &'q mut S<T, U> { x.get_mut() }\n")
        out += verdict.attack("generic-whole/%s" % kind, base + "fn t<'q, T, U: Unpin>(x: Pin<&'q mut S<T, U>>) -> &'q mut S<T, U> {\n    x.get_mut() //~\n    loop {} //=\n}\n", "generic value unpinned")
        # inside the destructor body
        k = K(kind, "PinnedDrop", "", "", "F", "F")
        pm = k.split("self.project()", mut=True)
        out += verdict.attack("body/%s/field" % kind, PRE + NP + k.decl + "\n#[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) { %s\n    let r: &mut F = f; //~\n    let r: &mut F = g; //=\n} }\n" % pm, "destructor body")
        out += verdict.attack("body/%s/whole" % kind, PRE + NP + k.decl + "\n#[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) {\n    let r: &mut S = self.get_mut(); //~\n    let r: &S = self.into_ref().get_ref(); //=\n} }\n", "destructor body")
        out += verdict.attack("body/%s/move" % kind, PRE + NP + k.decl + "\n#[pinned_drop] impl PinnedDrop for S { fn drop(mut self: Pin<&mut Self>) {\n    let r: &mut S = &mut *self; //~\n    let r: &S = &*self; //=\n} }\n", "destructor body")
    # moving out of a value with a pinned destructor, field by field (as with any Drop type)
    for kind in KINDS[:2]:
        k = K(kind, "PinnedDrop", "", "", "String", "String")
        out += verdict.attack("partial-move/" + kind, PRE + k.decl + "\n#[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) {} }\nfn t(x: S) {\n    let v = x.%s; //~\n    let v = &x.%s; //=\n}\n"
                              % (("g", "g") if kind == "named" else ("1", "1")), "move out of a type with a destructor")
    return out


def c02(c):
    ps = programs()
    verdict.decide(c, ps)
    c.cov["attack_programs"] = len(ps)
    runeng.campaign(c, {"C02"}, ["replace", "pdrop", "replace", None], c.pick(30, 240), 22, c.pick(25, 80), 14)
    c15.typed(c, c.pick(2500, 25000))
    grun.campaign(c, c.pick(600, 6000), "replace")
    c.rule += runeng.GRULE + "; plus the stated types of every field of every projection of random generic declarations; plus attack programs (each with an accepted twin) that try to obtain mutable or owned access to a pinned field"
