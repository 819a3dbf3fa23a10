"""Random declarations for the runtime engine.

A declaration is drawn from everything the documentation allows: kinds, field
counts, pin masks, generics, lifetimes, const parameters, where clauses,
argument lists in any order, attributes, cfg'd fields, visibilities, raw names,
nesting, macro_rules! delivery.  Each one carries a hand-free `Subject` impl
(direct field access) so that the monitor can compare projections with it.
"""

import random

from . import frag

UNPIN_LEAF = ["vrt::Tok", "vrt::Tok", "vrt::Tok", "vrt::ATok", "vrt::ZTok", "u8", "u16", "u32", "u64", "u128", "bool",
              "::std::string::String", "()", "::std::boxed::Box<vrt::PTok>", "::std::boxed::Box<vrt::Tok>",
              "::core::option::Option<vrt::Tok>", "[vrt::Tok; 2]", "(vrt::Tok, u8)",
              "::core::pin::Pin<::std::boxed::Box<vrt::PTok>>", "::std::vec::Vec<vrt::Tok>", "fn(u8) -> u8",
              "for<'x> fn(&'x u8) -> &'x u8", "for<'pin> fn(&'pin u8) -> &'pin u8",
              "*const vrt::PTok", "*mut u8", "(vrt::Tok,)", "(u8, vrt::Tok, vrt::ZTok)", "::core::result::Result<vrt::Tok, u8>",
              "&'static str", "&'static [u8]", "&'static (dyn Send + Sync)", "char", "fn() -> !", "unsafe extern \"C\" fn() -> u8", "::core::cell::Cell<u8>",
              "::std::boxed::Box<dyn vrt::Fld>", "::std::boxed::Box<[vrt::PTok]>", "*const Self", "fn(&Self)", "[[vrt::Tok; 2]; 1]", "[u8; 0]",
              "::core::option::Option<fn(u8) -> u8>", "::core::option::Option<(vrt::Tok, ::core::option::Option<vrt::Tok>)>"]
PIN_LEAF = ["vrt::PTok", "vrt::PTok", "vrt::PTok", "vrt::PATok", "vrt::PZTok", "::core::marker::PhantomPinned",
            "::core::option::Option<vrt::PTok>", "[vrt::PTok; 3]", "(vrt::Tok, vrt::PTok)",
            "(vrt::PTok, vrt::ZTok)", "::core::marker::PhantomData<vrt::PTok>", "::std::vec::Vec<vrt::PTok>",
            "(vrt::PTok,)", "(u8, vrt::PTok, vrt::Tok)", "[[vrt::PTok; 1]; 2]", "::core::result::Result<vrt::PTok, u8>", "::core::result::Result<u8, vrt::PZTok>",
            "::core::option::Option<[vrt::PTok; 1]>", "[vrt::PTok; 0]"]
UNPIN_INST = ["vrt::Tok", "vrt::ATok", "u64", "::std::boxed::Box<vrt::PTok>", "::core::option::Option<vrt::Tok>", "vrt::ZTok"]
PIN_INST = ["vrt::PTok", "vrt::PATok", "[vrt::PTok; 2]", "::core::option::Option<vrt::PTok>", "vrt::PZTok"]
NAMES = ["a", "b", "c", "x", "y", "val", "inner", "fut", "r#type", "r#fn", "r#match", "_x", "this", "pin", "project",
         "state", "drop", "result", "_0", "_1", "field1", "ptr", "r#loop", "guard", "value", "get", "self_", "longer_field_name",
         "ünïcode", "t", "tt", "project_ref", "new", "set", "r#mut", "r#ref", "as_mut", "len"]
VNAMES = ["A", "B", "C", "D", "Some", "None", "Ok", "Err", "Pin", "Unit", "First", "Drop", "Unpin", "X1", "r#Type", "Self_"]


SPELL = ("PhantomPinned PhantomData ManuallyDrop MaybeUninit Box Rc Arc Pin Option Vec String str u8 i32 usize bool char Cell RefCell UnsafeCell "
         "Unpin Drop Copy Sized Future Mutex Wrapper AlwaysUnpin Result NonNull Never Ref RefMut Cow Ptr T U Tok PTok Projection Instant").split()
FATTR = ["/// documented", "#[allow(dead_code)]", "#[cfg(all())]", "#[doc = \"x\"]", "#[cfg(not(any()))]", "#[cfg_attr(any(), pin)]",
         "#[cfg_attr(all(), allow(unused))]", "#[doc(hidden)]", "#[deprecated]", "#[rustfmt::skip]", "/** block */", "#[doc(alias = \"p in\")]",
         "#[cfg_attr(all(), doc(hidden))]", "#[allow(clippy::all)]", "#[cfg_attr(all(), cfg(all()))]", "#[warn(unused)]", "#[doc = \"#[pin]\"]", "//"]
IATTR = ["/// Documented.", "#[allow(dead_code)]", "#[must_use]", "#[doc(hidden)]", "#[deprecated]", "#[non_exhaustive]", "#[cfg(all())]",
         "#[cfg_attr(all(), allow(unused))]", "#[rustfmt::skip]", "#[cfg_attr(any(), repr(packed))]", "/** block */", "#[doc(alias = \"P i\")]"]


def respell(rng, ty):
    """The same type under another spelling."""
    r = rng.randrange(9)
    if r == 0:
        return "(%s)" % ty
    if r == 1:
        return "<%s as vrt::Same>::T" % ty
    if r == 2:
        return "vrt::ty!(%s)" % ty
    if r == 3:
        return "vrt::Id<%s>" % ty
    if r == 4:
        return "vrt::tyf![%s]" % ty
    if r == 5:
        return "((%s))" % ty
    if r == 6:
        return "vrt::tyf! { %s }" % ty
    return "::" + ty if ty.startswith("vrt::") else ty


def spelled(rng):
    """A token type under a name that is not its own; (type, Unpin)."""
    n = rng.choice(SPELL)
    r = rng.randrange(5)
    if r < 2:
        return "vrt::pn::" + n, False
    if r < 4:
        return "vrt::un::" + n, True
    up = rng.random() < 0.5
    return "vrt::wr::%s<vrt::%s>" % (n, "Tok" if up else "PTok"), up


class Field:
    def __init__(self, name, ty, pinned, unpin):
        self.name, self.ty, self.pinned, self.unpin = name, ty, pinned, unpin
        self.vis = ""
        self.pre = []
        self.dead = False
        self.pin_form = "#[pin]"


class Variant:
    def __init__(self, name, style, fields):
        self.name, self.style, self.fields = name, style, fields
        self.dead = False
        self.pre = []

    @property
    def live(self):
        return [f for f in self.fields if not f.dead]


class Decl:
    pass


def gen(rng, idx, focus=None, nested=(), simple=False, big=None):
    """focus: None | 'replace' | 'pdrop' | 'project' ; nested: earlier Decls usable as field types."""
    d = Decl()
    d.idx = idx
    d.name = "D%d" % idx
    d.kind = rng.choices(["named", "tuple", "enum"], [4, 3, 4])[0]
    # ---- generics
    d.lts, d.tps, d.cps = [], [], []
    if rng.random() < 0.4:
        pool = rng.choice([["'a", "'b"], ["'pin", "'pin_"], ["'a"], ["'pin"], ["'pin__", "'pinned"], ["'x", "'y"]])
        d.lts = pool[:rng.choice([1, 1, 2])]
    if rng.random() < 0.6:
        for t in rng.choice([["T"], ["T", "U"], ["T", "U", "V"], ["Fut"], ["T", "Unpin_"], ["Pin_", "P"]]):
            pinny = rng.random() < 0.5
            d.tps.append([t, rng.choice(PIN_INST if pinny else UNPIN_INST), not pinny, []])
    if rng.random() < 0.2:
        d.cps = [["N", "2"]]
    d.assoc = None
    if d.tps and rng.random() < 0.2:
        i = rng.choice([("u8", True), ("u16", False)])
        d.tps.append(["H", i[0], True, ["vrt::HasA"]])
        d.assoc = ("<H as vrt::HasA>::A", i[1])
    for t in d.tps:
        if t[0] != "H" and rng.random() < 0.3:
            t[3].append(rng.choice(["vrt::Mark", "::core::marker::Sized", "'static", "vrt::Mark + ::core::marker::Sized"]))
    d.where_tps = rng.random() < 0.5
    d.default_tp = bool(d.tps) and rng.random() < 0.15
    # ---- fields
    used = {"n": 0}

    def draw(n, allow_nested=True):
        out = []
        names = rng.sample(NAMES, min(n, len(NAMES)))
        while len(names) < n:
            names.append("f%d" % len(names))
        for i in range(n):
            pinned = rng.random() < 0.5
            r = rng.random()
            if d.tps and r < 0.35:
                t = rng.choice(d.tps)
                if t[0] == "H":
                    ty, up = d.assoc
                elif rng.random() < 0.2:
                    ty, up = "(%s, u8)" % t[0], t[2]
                elif d.cps and rng.random() < 0.3:
                    ty, up = "[%s; N]" % t[0], t[2]
                else:
                    ty, up = t[0], t[2]
            elif d.cps and r < 0.42:
                ty, up = "[vrt::Tok; N]", True
            elif d.lts and r < 0.5:
                ty, up = ("&%s u64" if rng.random() < 0.5 else "&%s mut u64") % rng.choice(d.lts), True
            elif nested and allow_nested and r < 0.58:
                e = rng.choice(nested)
                ty, up = "super::%s::I" % e.mod, e.unpin
            elif r < 0.8:
                ty, up = rng.choice(UNPIN_LEAF), True
                if any(l in ("'pin", "'x") for l in d.lts) and ty.startswith("for<"):
                    ty = "for<'q> fn(&'q u8) -> &'q u8"
            else:
                ty, up = rng.choice(PIN_LEAF), False
            if rng.random() < 0.14:
                ty, up = spelled(rng)
            if rng.random() < 0.12:
                ty = respell(rng, ty)
            elif not pinned and rng.random() < 0.02:
                ty, up = "::core::marker::PhantomData<Self>", True
            f = Field(names[i], ty, pinned, up)
            out.append(f)
        return out

    def nfields():
        if big and rng.random() < big[1]:
            return big[0] + rng.randrange(9)
        return rng.choices([1, 2, 3, 4, 5, 7, 11, 13, 17, 27], [12, 16, 16, 10, 6, 4, 2, 2, 1, 1])[0]

    if d.kind == "enum":
        nv = rng.choices([1, 2, 3, 4, 6, 9, 14, 27], [4, 12, 12, 6, 4, 2, 1, 1])[0]
        if big:
            nv = 3 if big[1] == 1 else big[0] + rng.randrange(9)
        d.variants = []
        for vn in rng.sample(VNAMES, min(nv, 14)) + ["V%d" % i for i in range(14, nv)]:
            st = rng.choices(["named", "tuple", "unit"], [4, 4, 2])[0]
            d.variants.append(Variant(vn, st, [] if st == "unit" else draw(min(nfields(), 7 if nv < 5 else 3) if not big or big[1] < 1 else nfields())))
        if not any(v.fields for v in d.variants):
            d.variants[0] = Variant(d.variants[0].name, "tuple", draw(2))
        if rng.random() < 0.1:
            d.variants.append(Variant("Braces", "named", []))
        if rng.random() < 0.1:
            d.variants.append(Variant("Parens", "tuple", []))
    else:
        d.variants = [Variant("", d.kind, draw(nfields()))]
    if focus in ("replace", "pdrop", "project"):
        v = rng.choice([v for v in d.variants if v.fields])
        if not any(f.pinned for f in v.fields):
            f = rng.choice(v.fields)
            f.pinned = True
            if "Self" in f.ty:
                f.ty, f.unpin = "vrt::PTok", False
    # ---- every parameter must be used
    alltys = " ".join(f.ty for v in d.variants for f in v.fields)
    tgt = next(v for v in d.variants if v.fields)
    extra = []
    toks = set(alltys.replace("<", " ").replace(">", " ").replace("(", " ").replace(")", " ").replace(",", " ")
               .replace(";", " ").replace("[", " ").replace("]", " ").replace("&", " ").split())
    for t in d.tps:
        if t[0] not in toks or t[0] == "H":
            # Unpin-neutral use; PhantomData<T> in an unpinned field never matters
            extra.append(Field("ph_%s" % t[0].lower(), "::core::marker::PhantomData<%s>" % t[0], False, True))
    for i, l in enumerate(d.lts):
        if l not in toks:
            extra.append(Field("lt%d" % i, "::core::marker::PhantomData<&%s ()>" % l, rng.random() < 0.3, True))
    for f in extra:
        tgt.fields.insert(rng.randrange(len(tgt.fields) + 1), f)
    # ---- decorations
    vis_pool = ["", "", "pub ", "pub(crate) ", "pub(super) ", "pub(self) ", "pub(in crate) "]
    d.vis = rng.choice(vis_pool)
    for v in d.variants:
        for f in v.fields:
            if d.kind != "enum":
                f.vis = rng.choice(vis_pool)
            if rng.random() < 0.2:
                f.pre += rng.sample(FATTR, rng.choice([1, 1, 2, 3]))
            f.pin_at = rng.randrange(len(f.pre) + 1)
            if f.pinned and rng.random() < 0.12:
                f.pin_form = rng.choice(["#[cfg_attr(all(), pin)]", "#[cfg_attr(not(any()), pin)]", "#[ pin ]", "#[r#pin]",
                                         "#[cfg_attr(all(), allow(unused), pin)]"])
        if d.kind == "enum" and rng.random() < 0.15:
            v.pre = rng.sample([a for a in FATTR if "pin)" not in a], rng.choice([1, 1, 2]))
        if v.style != "unit" and rng.random() < 0.12:
            g = Field("gone", "Missing<'nowhere>", rng.random() < 0.5, True)
            g.dead = True
            g.pre = [rng.choice(["#[cfg(any())]", "#[cfg(not(all()))]"])]
            pos = rng.randrange(len(v.fields) + 1)
            v.fields.insert(pos, g)
    if d.kind == "enum" and rng.random() < 0.1:
        g = Variant("Gone", "tuple", [])
        f = Field("q", "Missing", True, True)
        g.fields = [f]
        g.dead = True
        d.variants.insert(rng.randrange(len(d.variants) + 1), g)
    # ---- arguments
    d.replace = None
    d.pdrop = False
    r = rng.random()
    if focus == "replace" or (focus != "pdrop" and r < 0.45):
        d.replace = "named" if d.kind == "enum" or rng.random() < 0.6 else "unnamed"
    elif focus == "pdrop" or r < 0.75:
        d.pdrop = True
    pn = 0.7 if d.kind == "enum" else 0.5
    d.proj = rng.random() < pn or focus in ("project",)
    d.pref = rng.random() < pn
    if d.kind == "enum" and not d.proj and not d.pref and not d.replace:
        d.proj = True
    d.unpin_arg = rng.choices(["default", "not", "unsafe", "unsafe_impl"], [6, 1, 1, 1])[0]
    names = rng.choice([("Proj%d", "Ref%d", "Own%d"), ("P%d", "PR%d", "PO%d"), ("D%dProjection", "D%dProjRef", "D%dOwned"),
                        ("Projection%d", "ProjectionRef%d", "ProjectionOwned%d")])
    d.pname, d.rname, d.oname = [n % idx for n in names]
    args = []
    if d.proj:
        args.append("project = " + d.pname)
    if d.pref:
        args.append("project_ref = " + d.rname)
    if d.replace == "named":
        args.append("project_replace = " + d.oname)
    if d.replace == "unnamed":
        args.append("project_replace")
    if d.pdrop:
        args.append("PinnedDrop")
    if d.unpin_arg == "not":
        args.append("!Unpin")
    if d.unpin_arg.startswith("unsafe"):
        args.append("UnsafeUnpin")
    rng.shuffle(args)
    d.args = args
    pinned_unpin = all(f.unpin for v in d.variants if not v.dead for f in v.live if f.pinned)
    if d.unpin_arg == "unsafe_impl" and not pinned_unpin:
        d.unpin_arg = "unsafe"
    d.unpin = {"default": pinned_unpin, "not": False, "unsafe": False, "unsafe_impl": True}[d.unpin_arg]
    d.attrs_before, d.attrs_after = [], []
    if rng.random() < 0.4:
        for a in rng.sample(IATTR, rng.choice([1, 1, 2, 3])):
            (d.attrs_before if rng.random() < 0.5 else d.attrs_after).append(a)
    if rng.random() < 0.12:
        if d.kind == "enum":
            live = [v for v in d.variants if not v.dead]
            rp = rng.choice(["#[repr(C)]", "#[repr(u8)]", "#[repr(C, i16)]"])
        else:
            rp = rng.choice(["#[repr(C)]", "#[repr(align(16))]", "#[repr(C, align(128))]"])
        (d.attrs_before if rng.random() < 0.5 else d.attrs_after).append(rp)
    d.path = rng.choice(["pin_project", "pin_project", "::pin_project::pin_project", "pin_project::pin_project"])
    d.pd_path = rng.choice(["pinned_drop", "::pin_project::pinned_drop"])
    d.via_macro = rng.random() < 0.12
    d.frag = rng.random() if rng.random() < 0.2 else None
    d.access = rng.choice(["whole", "destructure", "single"])
    d.trail = rng.random() < 0.15
    d.bodyform = rng.randrange(4)
    d.mod = "m%d" % idx
    return d


def generics_decl(d):
    ps = []
    for i, l in enumerate(d.lts):
        ps.append(l if i == 0 else "%s: %s" % (l, d.lts[0]))
    for j, t in enumerate(d.tps):
        s = t[0]
        b = [x for x in t[3]]
        if b and not d.where_tps:
            s += ": " + " + ".join(b)
        if d.default_tp and not any(False for _ in ()):
            s += " = " + t[1]
        ps.append(s)
    for c in d.cps:
        ps.append("const %s: usize%s" % (c[0], " = 2" if d.default_tp else ""))
    return "<%s>" % ", ".join(ps) if ps else ""


def generics_impl(d):
    ps = []
    for i, l in enumerate(d.lts):
        ps.append(l if i == 0 else "%s: %s" % (l, d.lts[0]))
    for t in d.tps:
        ps.append(t[0] + (": " + " + ".join(t[3]) if t[3] and not d.where_tps else ""))
    for c in d.cps:
        ps.append("const %s: usize" % c[0])
    return "<%s>" % ", ".join(ps) if ps else ""


def where(d):
    ws = ["%s: %s" % (t[0], " + ".join(t[3])) for t in d.tps if t[3] and d.where_tps]
    return (" where " + ", ".join(ws) + ",") if ws else ""


def ty_args(d):
    ps = list(d.lts) + [t[0] for t in d.tps] + [c[0] for c in d.cps]
    return "<%s>" % ", ".join(ps) if ps else ""


def inst_args(d):
    ps = ["'static" for _ in d.lts] + [t[1] for t in d.tps] + [c[1] for c in d.cps]
    return "<%s>" % ", ".join(ps) if ps else ""


def field_src(f, style, ind):
    pre = list(f.pre)
    if f.pinned:
        pre.insert(min(getattr(f, "pin_at", 0), len(pre)), f.pin_form)
    s = "".join("%s%s\n" % (ind, p) for p in pre)
    M = frag.mark
    # `vis` must stay where it is: an empty fragment before a type is still accepted
    if style == "named":
        return s + "%s%s%s: %s,\n" % (ind, M("vis", f.vis), M("ident", f.name), M("ty", f.ty))
    return s + "%s%s%s,\n" % (ind, M("vis", f.vis), M("ty", f.ty))


def body_src(v, ind="    "):
    return "".join(field_src(f, v.style, ind) for f in v.fields)


def decl_src(d):
    """The annotated declaration (and its UnsafeUnpin / PinnedDrop impls)."""
    s = marked_src(d)
    if d.frag is None:
        return frag.strip(s)
    return frag.deliver(random.Random(d.frag), s, "deliver_%s" % d.mod)


def marked_src(d):
    a = ", ".join(d.args)
    if d.args and d.trail:
        a += ","
    attr = "#[%s%s]" % (d.path, "(%s)" % a if d.args else ("()" if d.trail else ""))
    out = "\n".join(d.attrs_before + [attr] + d.attrs_after) + "\n"
    g, w = generics_decl(d), where(d)
    if d.kind == "named":
        out += "%sstruct %s%s%s {\n%s}\n" % (frag.mark("vis", d.vis), d.name, g, w, body_src(d.variants[0]))
    elif d.kind == "tuple":
        out += "%sstruct %s%s(\n%s)%s;\n" % (frag.mark("vis", d.vis), d.name, g, body_src(d.variants[0]), w)
    else:
        out += "%senum %s%s%s {\n" % (frag.mark("vis", d.vis), d.name, g, w)
        for v in d.variants:
            if v.dead:
                out += "    #[cfg(any())]\n"
            out += "".join("    %s\n" % a for a in v.pre)
            if v.style == "unit":
                out += "    %s,\n" % frag.mark("ident", v.name)
            elif v.style == "named":
                out += "    %s {\n%s    },\n" % (frag.mark("ident", v.name), body_src(v, "        "))
            else:
                out += "    %s(\n%s    ),\n" % (frag.mark("ident", v.name), body_src(v, "        "))
        out += "}\n"
    return out


def pat(d, v, path, prefix="f", mut=False, skip=()):
    m = "mut " if mut else ""
    ff = v.live
    if v.style == "unit":
        return path
    if v.style == "named":
        return "%s { %s }" % (path, ", ".join("%s: %s%s%d" % (f.name, m, prefix, i) for i, f in enumerate(ff)))
    return "%s(%s)" % (path, ", ".join("%s%s%d" % (m, prefix, i) for i, f in enumerate(ff)))


def acc(f, i, style):
    return f.name if style == "named" else str(i)


def live_variants(d):
    return [v for v in d.variants if not v.dead]


def impls_src(d):
    out = ""
    gi, ta, w = generics_impl(d), ty_args(d), where(d)
    if d.unpin_arg == "unsafe_impl":
        out += "unsafe impl%s ::pin_project::UnsafeUnpin for %s%s%s {}\n" % (gi, d.name, ta, w)
    if d.pdrop:
        lv = live_variants(d)
        if d.kind != "enum":
            v = lv[0]
            addrs = ", ".join("vrt::addr_of(&*p.%s)" % acc(f, i, v.style) for i, f in enumerate(v.live))
            if d.bodyform == 0:
                body = "let a = vrt::addr_of(&*self); let p = self.project(); vrt::on_body(a, vec![%s]);" % addrs
                recv = "self: Pin<&mut Self>"
            elif d.bodyform == 1:
                body = "let a = vrt::addr_of(&*self); let v = { let p = self.as_mut().project(); vec![%s] }; let _ = self.as_ref(); vrt::on_body(a, v);" % addrs
                recv = "mut self: Pin<&mut Self>"
            elif d.bodyform == 2:
                body = "let a = vrt::addr_of(&*self); let v = { let p = self.as_ref().project_ref(); vec![%s] }; vrt::on_body(a, v);" % addrs
                recv = "self: ::core::pin::Pin<&mut Self>"
            else:
                body = "let this = self; let a = vrt::addr_of(&*this); let p = this.project(); vrt::on_body(a, vec![%s]);" % addrs
                recv = "self: ::std::pin::Pin<&mut Self>"
        else:
            if d.proj and d.bodyform != 3:
                arms = " ".join("%s => vec![%s]," % (pat(d, v, "%s::%s" % (d.pname, v.name)),
                                                     ", ".join("vrt::addr_of(&*f%d)" % i for i, _ in enumerate(v.live)))
                                for v in lv)
                body = "let a = vrt::addr_of(&*self); let v = match self.as_mut().project() { %s }; vrt::on_body(a, v);" % arms
                recv = "mut self: Pin<&mut Self>"
            elif d.pref and d.bodyform != 3:
                arms = " ".join("%s => vec![%s]," % (pat(d, v, "%s::%s" % (d.rname, v.name)),
                                                     ", ".join("vrt::addr_of(&*f%d)" % i for i, _ in enumerate(v.live)))
                                for v in lv)
                body = "let a = vrt::addr_of(&*self); let v = match self.as_ref().project_ref() { %s }; vrt::on_body(a, v);" % arms
                recv = "self: Pin<&mut Self>"
            else:
                arms = " ".join("%s => vec![%s]," % (pat(d, v, "%s::%s" % (d.bodyform % 2 and "Self" or d.name, v.name)),
                                                     ", ".join("vrt::addr_of(f%d)" % i for i, _ in enumerate(v.live)))
                                for v in lv)
                body = "let a = vrt::addr_of(&*self); let v = match &*self { %s }; vrt::on_body(a, v);" % arms
                recv = "self: Pin<&mut Self>"
        out += "#[%s]\nimpl%s PinnedDrop for %s%s%s {\n    fn drop(%s) { %s }\n}\n" % (d.pd_path, gi, d.name, ta, w, recv, body)
    return out


def subject_src(d):
    lv = live_variants(d)
    is_enum = d.kind == "enum"
    has_p = d.proj or not is_enum
    has_r = d.pref or not is_enum
    has_o = d.replace is not None
    s = "pub type I = %s%s;\n" % (d.name, inst_args(d))
    s += "impl vrt::Subject for I {\n"
    s += "    const NAME: &'static str = \"%s\";\n" % d.mod
    s += "    const CAPS: vrt::Caps = vrt::Caps { project: %s, project_ref: %s, replace: %s, pdrop: %s };\n" % tuple(
        str(x).lower() for x in (has_p, has_r, has_o, d.pdrop))
    s += "    const VARIANTS: usize = %d;\n" % len(lv)
    # make
    s += "    fn make(v: usize, r: &mut vrt::Rng) -> Self { match v {\n"
    for i, v in enumerate(lv):
        path = d.name + ("::" + v.name if is_enum else "")
        if v.style == "unit":
            e = path
        elif v.style == "named":
            e = "%s { %s }" % (path, ", ".join("%s: vrt::Fld::mk(r)" % f.name for f in v.live))
        else:
            e = "%s(%s)" % (path, ", ".join("vrt::Fld::mk(r)" for _ in v.live))
        s += "        %s => %s,\n" % (i if i < len(lv) - 1 else "_", e)
    s += "    } }\n"
    # truth
    s += "    fn truth(&self) -> (usize, Vec<vrt::Truth>) { match self {\n"
    for i, v in enumerate(lv):
        path = d.name + ("::" + v.name if is_enum else "")
        s += "        %s => (%d, vec![%s]),\n" % (
            pat(d, v, path), i,
            ", ".join("vrt::truth(%s, %s, f%d)" % ('"%s"' % (f.name if v.style == "named" else str(j)), str(f.pinned).lower(), j)
                      for j, f in enumerate(v.live)))
    s += "    } }\n"

    def observe(v, by_mut):
        n = len(v.live)
        o = "let mut o = vec![%s]; " % ", ".join("vrt::see(&f%d)" % j for j in range(n))
        if by_mut:
            o += " ".join("vrt::touch(&mut f%d, &mut o[%d]);" % (j, j) for j in range(n))
        return o

    def proj_fn(name, recv, method, tname, named, by_mut):
        s = "    fn %s(this: %s) -> vrt::Res {\n" % (name, recv)
        if is_enum:
            s += "        match this.%s() {\n" % method
            for i, v in enumerate(lv):
                s += "            %s => { %s (%d, o) }\n" % (pat(d, v, "%s::%s" % (tname, v.name), mut=True), observe(v, by_mut), i)
            s += "        }\n"
        else:
            v = lv[0]
            n = len(v.live)
            if d.access == "destructure" and named:
                s += "        let %s = this.%s(); %s (0, o)\n" % (pat(d, v, tname, mut=True), method, observe(v, by_mut))
            elif d.access == "single":
                if by_mut:
                    s += "        let mut this = this; let mut o = vec![];\n"
                    # observe every field untouched first, then write through fresh projections
                    for j, f in enumerate(v.live):
                        s += "        o.push(vrt::see(&this.as_mut().project().%s));\n" % acc(f, j, v.style)
                    for j, f in enumerate(v.live):
                        s += "        vrt::touch(&mut this.as_mut().project().%s, &mut o[%d]);\n" % (acc(f, j, v.style), j)
                else:
                    s += "        let mut o = vec![];\n"
                    for j, f in enumerate(v.live):
                        s += "        o.push(vrt::see(&this.project_ref().%s));\n" % acc(f, j, v.style)
                s += "        (0, o)\n"
            else:
                s += "        let mut p = this.%s();\n" % method
                s += "        let mut o = vec![%s];\n" % ", ".join("vrt::see(&p.%s)" % acc(f, j, v.style) for j, f in enumerate(v.live))
                if by_mut:
                    for j, f in enumerate(v.live):
                        s += "        vrt::touch(&mut p.%s, &mut o[%d]);\n" % (acc(f, j, v.style), j)
                s += "        (0, o)\n"
        return s + "    }\n"

    if has_p:
        s += proj_fn("proj", "Pin<&mut Self>", "project", d.pname, d.proj, True)
    if has_r:
        s += proj_fn("proj_ref", "Pin<&Self>", "project_ref", d.rname, d.pref, False)
    if has_o:
        s += "    fn replace(mut this: Pin<&mut Self>, new: Self, mid: &mut dyn FnMut(vrt::Res, Pin<&mut Self>)) {\n"
        s += "        let own = this.as_mut().project_replace(new);\n"
        if is_enum:
            s += "        let r = match &own {\n"
            for i, v in enumerate(lv):
                s += "            %s => (%d, vec![%s]),\n" % (pat(d, v, "%s::%s" % (d.oname, v.name)), i,
                                                          ", ".join("vrt::own(f%d)" % j for j in range(len(v.live))))
            s += "        };\n"
        else:
            v = lv[0]
            s += "        let r = (0, vec![%s]);\n" % ", ".join("vrt::own(&own.%s)" % acc(f, j, v.style) for j, f in enumerate(v.live))
        s += "        mid(r, this.as_mut());\n        drop(own);\n    }\n"
    if d.unpin:
        s += "    fn as_unpin(this: Pin<&mut Self>) -> Option<&mut Self> { Some(Pin::into_inner(this)) }\n"
    s += "}\nvrt::nest!(I);\npub fn run(seed: u64, h: usize, st: usize) { vrt::drive::<I>(seed, h, st).print(); }\n"
    return s


PRELUDE = "#![allow(warnings, unused, dead_code, non_snake_case, non_camel_case_types, uncommon_codepoints, mixed_script_confusables)]\n"


def module_src(d):
    body = decl_src(d)
    impls = impls_src(d)
    if d.via_macro:
        inner = "vpass! {\n%s}\n" % body
    else:
        inner = body
    return ("pub mod %s {\n#![allow(unused)]\nuse ::std::{vec, vec::Vec, option::Option::{self, Some as Some_}, pin::Pin};\n"
            "use pin_project::{pin_project, pinned_drop};\n%s%s\n%s}\n") % (
        d.mod, inner, impls, subject_src(d).replace("Option<&mut Self> { Some(", "Option<&mut Self> { ::core::option::Option::Some("))


def program(decls, seed, histories, steps):
    s = PRELUDE
    s += "macro_rules! vpass { ($($t:tt)*) => { $($t)* } }\n"
    for d in decls:
        s += module_src(d)
    s += "fn main() {\n    let h: usize = std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(%d);\n" % histories
    for i, d in enumerate(decls):
        s += "    %s::run(%d, h, %d);\n" % (d.mod, (seed * 1000003 + d.idx * 7919 + 1) & 0x7fffffff, steps)
    s += "    println!(\"END\");\n}\n"
    return s


def shape(d):
    """Signature used to count distinct declarations."""
    return "%s|%s|%s|%s|%s|%s" % (
        d.kind, ",".join(sorted(a.split(" =")[0] for a in d.args)), len(d.lts), len(d.tps), len(d.cps),
        "/".join(v.style + ":" + "".join("P" if f.pinned else "u" for f in v.live) for v in live_variants(d)))
