"""Kind-agnostic access code for hand-written client programs."""
KINDS = ("named", "tuple", "evn", "evt")


class K:
    """A two-field declaration: pinned `f: F`, unpinned `g: G` (by kind)."""

    def __init__(self, kind, args="", gen="", where="", F="F", G="G", extra_pinned="", vis="", attrs=""):
        self.kind, self.gen, self.F, self.G = kind, gen, F, G
        a = [x for x in args.split(",") if x.strip()]
        names = ["project = SP", "project_ref = SR"]
        rep = any("project_replace" in x for x in a)
        if rep:
            a = [x for x in a if "project_replace" not in x] + ["project_replace = SO"]
        self.args = ", ".join(names + [x.strip() for x in a])
        w = (" where " + where) if where else ""
        at = attrs + "\n" if attrs else ""
        pre = "%s#[pin_project(%s)]\n%s" % (at, self.args, vis)
        if kind == "named":
            self.decl = "%sstruct S%s%s { #[pin] f: %s, g: %s }" % (pre, gen, w, F, G)
        elif kind == "tuple":
            self.decl = "%sstruct S%s(#[pin] %s, %s)%s;" % (pre, gen, F, G, w)
        elif kind == "evn":
            self.decl = "%senum S%s%s { Z, A { #[pin] f: %s, g: %s } }" % (pre, gen, w, F, G)
        else:
            self.decl = "%senum S%s%s { A(#[pin] %s, %s), Z }" % (pre, gen, w, F, G)

    def make(self, f, g):
        return {"named": "S { f: %s, g: %s }", "tuple": "S(%s, %s)", "evn": "S::A { f: %s, g: %s }", "evt": "S::A(%s, %s)"}[self.kind] % (f, g)

    def split(self, expr, ty="SP", f="f", g="g", mut=False):
        """`let (f, g) = ...` from a projection expression."""
        m = "mut " if mut else ""
        p = {"named": "%s { f, g }" % ty, "tuple": "%s(f, g)" % ty, "evn": "%s::A { f, g }" % ty, "evt": "%s::A(f, g)" % ty}[self.kind]
        z = " _ => loop {}," if self.kind.startswith("ev") else ""
        return "let (%s%s, %s%s) = match %s { %s => (f, g),%s };" % (m, f, m, g, expr, p, z)


PRE = """#![allow(warnings)]
use pin_project::{pin_project, pinned_drop, UnsafeUnpin};
use core::pin::Pin;
use core::marker::{PhantomPinned, PhantomData};
"""
