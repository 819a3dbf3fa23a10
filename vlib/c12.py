"""C12: argument lists, field markers and item kinds against an independent reference parser."""
import itertools
import random
import re
from . import rnd, suite, verdict

PRE = """use pin_project::{pin_project, pinned_drop, UnsafeUnpin}; use ::core::pin::Pin; use ::core::marker::{PhantomPinned, PhantomData};
"""

# (text, meaning); meaning None = not a documented argument
ITEMS = [
    ("PinnedDrop", ("pd",)), ("UnsafeUnpin", ("uu",)), ("!Unpin", ("nu",)), ("! Unpin", ("nu",)),
    ("project = PA", ("p", "PA")), ("project = PB", ("p", "PB")), ("project=PA", ("p", "PA")),
    ("project_ref = PA", ("r", "PA")), ("project_ref = RA", ("r", "RA")), ("project_ref = RB", ("r", "RB")),
    ("project_replace", ("o", None)), ("project_replace = OA", ("o", "OA")), ("project_replace = PA", ("o", "PA")), ("project_replace = RA", ("o", "RA")),
    ("project = S", ("p", "S")), ("project_ref = S", ("r", "S")), ("project_replace = S", ("o", "S")),
    ("project = lower", ("p", "lower")), ("project_ref = r#type", ("r", "r#type")),
]
BAD = ["Unpin", "!PinnedDrop", "!UnsafeUnpin", "!Send", "!", "Replace", "project", "project_ref", "project =", "project_ref =", "project_replace =",
       "project = !", "project = \"PA\"", "project = 'a'", "project = 1", "project = self", "project = PA::B", "project(PA)", "project: PA",
       "project == PA", "project_mut = PA", "Project = PA", "projec = PA", "project_own = PA", "project_ref(RA)", "project_replace(OA)", "project_replace = \"OA\"", "PinnedDrop = true",
       "PinnedDrop()", "pinned_drop", "Pinneddrop", "UnsafeUnpin = true", "UnsafeUnpin()", "unsafe_unpin", "unsafe Unpin", "!UnPin", "!Unpin()", "?Unpin", "&Unpin", "-Unpin", "dyn", "fn", "crate", "self", "_",
       "()", "(PinnedDrop)", "[project = PA]", "{}", "\"PinnedDrop\"", "1", "'a", "PinnedDrop PinnedDrop", "PinnedDrop; UnsafeUnpin",
       "project = PA project_ref = RA", "!Unpin project = PA", "!!Unpin", "..", "=", "= PA", "project = PA = PB", "project = PA<T>", "UnsafeUnpin |", "Drop", "Sized",
       "project_replace PA", "project_replace, = OA", "__private", "__private()", "pin", "unsafe", "!Unpin + Send", "#[pin]", "::PinnedDrop", "$", "project = $x"]

KINDS = {
    "named": ("struct S<T> { #[pin] f: T, g: u8 }", "S { f: %s, g: 7 }"),
    "tuple": ("struct S<T>(#[pin] T, u8);", "S(%s, 7)"),
    "enum": ("enum S<T> { A { #[pin] f: T, g: u8 }, B(#[pin] T), C }", "S::A { f: %s, g: 7 }"),
}


def reference(metas, enum):
    """Independent statement of the documented argument grammar."""
    seen = {}
    for m in metas:
        if m is None:
            return None
        if m[0] in seen:
            return None
        seen[m[0]] = m[1] if len(m) > 1 else True
    if "uu" in seen and "nu" in seen:
        return None
    if "pd" in seen and "o" in seen:
        return None
    names = [seen[k] for k in ("p", "r", "o") if isinstance(seen.get(k), str)]
    if len(set(names)) != len(names) or "S" in names:
        return None
    if enum and "o" in seen and seen["o"] is None:
        return None
    return seen


DROP = "#[pinned_drop] impl<T> PinnedDrop for S<T> { fn drop(self: Pin<&mut Self>) { vrt::say(\"drop\"); } }\n"


def support(text):
    return DROP if "PinnedDrop" in text else ""


def effects(kind, attr, sem):
    """Module that observes what the arguments did."""
    decl, make = KINDS[kind]
    enum = kind == "enum"
    s = PRE + "%s %s\n" % (attr, decl)
    if "pd" in sem:
        s += DROP
    if "uu" in sem:
        s += "pub trait Ok1 {} impl Ok1 for u16 {} impl Ok1 for PhantomPinned {}\nunsafe impl<T: Ok1> UnsafeUnpin for S<T> {}\n"
    tn = {"p": "Pin<&'x mut u8>", "r": "Pin<&'x u8>", "o": "PhantomData<u8>"}
    gn = {"p": "&'x mut u8", "r": "&'x u8", "o": "u8"}
    lt = {"p": "<'x, u8>", "r": "<'x, u8>", "o": "<u8>"}
    for k in ("p", "r", "o"):
        n = sem.get(k)
        if isinstance(n, str):
            # the named type exists, has the right fields and is what the method returns
            pat = {"named": "%s { f, g }" % n, "tuple": "%s(f, g)" % n, "enum": "%s::A { f, g }" % n}[kind]
            el = "" if kind != "enum" else " else { return None }"
            s += "fn use_%s<'x>(v: %s%s) -> Option<(%s, %s)> { let %s = v%s; Some((f, g)) }\n" % (k, n, lt[k], tn[k], gn[k], pat, el)
    b = ""
    b += "    let mut v = Box::pin(%s);\n" % (make % "5u8")
    if not enum:
        b += "    let p = v.as_mut().project(); vrt::leq(\"g\", *p.%s, 7u8); *p.%s = 8;\n" % (("g",) * 2 if kind == "named" else ("1",) * 2)
        b += "    let p = v.as_ref().project_ref(); vrt::leq(\"g\", *p.%s, 8u8);\n" % ("g" if kind == "named" else "1")
        if "o" in sem:
            b += "    let o = v.as_mut().project_replace(%s); vrt::leq(\"g\", o.%s, 8u8);\n" % (make % "6u8", "g" if kind == "named" else "1")
    if isinstance(sem.get("p"), str):
        b += "    let (f, g) = use_p(v.as_mut().project()).unwrap(); let _: u8 = *f; vrt::ck(*g >= 7, || \"g\".to_string());\n"
    if isinstance(sem.get("r"), str):
        b += "    let (f, g) = use_r(v.as_ref().project_ref()).unwrap(); let _: u8 = *f; vrt::ck(*g >= 7, || \"g\".to_string());\n"
    if isinstance(sem.get("o"), str):
        b += "    let (f, g) = use_o(v.as_mut().project_replace(%s)).unwrap(); let _ = f; vrt::ck(g >= 7, || \"g\".to_string());\n" % (make % "9u8")
    if "o" in sem:
        b += "    vrt::leq(\"replaced\", matches!(&*v, %s), true);\n" % {"named": "S { g: 7, .. }", "tuple": "S(_, 7)", "enum": "S::A { g: 7, .. }"}[kind]
    b += "    let _ = vrt::said(); drop(v); vrt::leq(\"pinned drop ran\", vrt::said().len(), %dusize);\n" % (1 if "pd" in sem else 0)
    un = {"u8": "true", "u16": "true", "PhantomPinned": "false"}
    if "nu" in sem:
        un = {k: "false" for k in un}
    if "uu" in sem:
        un = {"u8": "false", "u16": "true", "PhantomPinned": "true"}
    for t, e in un.items():
        b += "    vrt::leq(\"S<%s>: Unpin\", vrt::is!(S<%s>: Unpin), %s);\n" % (t, t, e)
    return s + "pub fn run() {\n" + b + "}\n"


def sequences(c):
    rng = random.Random("C12/%s" % c.seed)
    pool = ITEMS + [(b, None) for b in BAD]
    yield ()
    for x in pool:
        yield (x,)
    for x in itertools.product(ITEMS, ITEMS):
        yield x
    bad2 = [(b, None) for b in BAD]
    for x in bad2:
        for y in (ITEMS if c.thorough else rng.sample(ITEMS, 4)):
            yield (x, y)
            yield (y, x)
    for _ in range(c.pick(500, 8000)):
        n = rng.choice([3, 3, 4, 4, 5])
        s = tuple(rng.choice(ITEMS) for _ in range(n))
        if rng.random() < 0.3:
            i = rng.randrange(n)
            s = s[:i] + (rng.choice(bad2),) + s[i + 1:]
        yield s
    # all valid sets, in random orders
    ps, rs, os_, us = [None] + ITEMS[4:7], [None, ITEMS[8], ITEMS[9]], [None, ITEMS[10], ITEMS[11]], [None, ITEMS[1], ITEMS[2]]
    for combo in itertools.product([None, ITEMS[0]], us, ps, rs, os_):
        x = [i for i in combo if i]
        for _ in range(c.pick(1, 4)):
            rng.shuffle(x)
            yield tuple(x)


def arg_cases(c):
    rng = random.Random("C12b/%s" % c.seed)
    acc, rej, seen = [], [], set()
    for s in sequences(c):
        body = ", ".join(i[0] for i in s)
        for kind in KINDS:
            if kind == "tuple" and rng.random() < 0.7:
                continue
            r = rng.random()
            text = body
            if s and r < 0.25:
                text += ","
            if text.endswith(",") and s[-1][1] is None and s[-1][0] in ("project_replace, = OA",):
                pass
            d = rng.random()
            attr = "#[pin_project(%s)]" % text
            if d < 0.08:
                attr = "#[pin_project[%s]]" % text
            elif d < 0.16:
                attr = "#[pin_project{%s}]" % text
            elif not s and d < 0.6:
                attr = "#[pin_project]"
            key = (attr, kind)
            if key in seen:
                continue
            seen.add(key)
            sem = reference([i[1] for i in s], kind == "enum")
            name = "%s %s" % (attr, kind)
            if sem is not None:
                acc.append(suite.Case(name, effects(kind, attr, sem), key=name))
            else:
                rej.append((name, PRE + "%s %s %s" % (attr, KINDS[kind][0], support(text)), "argument list outside the documented grammar"))
    # malformed separators
    for t in (",", ",,", "PinnedDrop,,", ",PinnedDrop", "project = PA,,project_ref = RA", "project = PA;", "!Unpin,,", "project = PA, ,", "project_replace = OA,,", "project = ,", "project = PA project = PB", "UnsafeUnpin PinnedDrop"):
        for kind in KINDS:
            rej.append(("sep %s %s" % (t, kind), PRE + "#[pin_project(%s)] %s %s" % (t, KINDS[kind][0], support(t)), "malformed separators"))
    for a in ("#[pin_project = \"x\"]", "#[pin_project = PinnedDrop]", "#[pin_project::x]"):
        rej.append(("form " + a, PRE + "%s struct S(#[pin] u8);" % a, "not an attribute call form"))
    # names that collide only after raw-identifier spelling
    return acc, rej


MARKS = [
    # (name, bad, good)
    ("pin on struct", "#[pin_project] #[pin] struct S { #[pin] f: u8 }", "#[pin_project] struct S { #[pin] f: u8 }"),
    ("pin on struct before", "#[pin] #[pin_project] struct S { #[pin] f: u8 }", "#[pin_project] struct S { #[pin] f: u8 }"),
    ("pin() on struct", "#[pin_project] #[pin()] struct S { #[pin] f: u8 }", "#[pin_project] struct S { #[pin] f: u8 }"),
    ("pin on tuple struct", "#[pin_project] #[pin] struct S(#[pin] u8);", "#[pin_project] struct S(#[pin] u8);"),
    ("pin on enum", "#[pin_project(project = P)] #[pin] enum S { A(#[pin] u8) }", "#[pin_project(project = P)] enum S { A(#[pin] u8) }"),
    ("cfg pin on struct", "#[pin_project] #[cfg_attr(all(), pin)] struct S { #[pin] f: u8 }", "#[pin_project] #[cfg_attr(any(), pin)] struct S { #[pin] f: u8 }"),
    ("cfg pin on enum", "#[pin_project(project = P)] #[cfg_attr(all(), pin)] enum S { A(#[pin] u8) }", "#[pin_project(project = P)] #[cfg_attr(any(), pin)] enum S { A(#[pin] u8) }"),
    ("pin on tuple variant", "#[pin_project(project = P)] enum S { #[pin] A(#[pin] u8), B }", "#[pin_project(project = P)] enum S { A(#[pin] u8), B }"),
    ("pin on named variant", "#[pin_project(project = P)] enum S { #[pin] A { f: u8 }, B }", "#[pin_project(project = P)] enum S { A { #[pin] f: u8 }, B }"),
    ("pin on unit variant", "#[pin_project(project = P)] enum S { A(#[pin] u8), #[pin] B }", "#[pin_project(project = P)] enum S { A(#[pin] u8), B }"),
    ("pin on last unit variant", "#[pin_project(project_ref = P)] enum S { A(#[pin] u8), B, C, #[pin] D }", "#[pin_project(project_ref = P)] enum S { A(#[pin] u8), B, C, D }"),
    ("pin(x) on variant", "#[pin_project(project = P)] enum S { #[pin(x)] A(#[pin] u8) }", "#[pin_project(project = P)] enum S { A(#[pin] u8) }"),
    ("cfg pin on variant", "#[pin_project(project = P)] enum S { #[cfg_attr(all(), pin)] A(u8), B }", "#[pin_project(project = P)] enum S { #[cfg_attr(any(), pin)] A(u8), B }"),
    ("pin on variant, no project", "#[pin_project] enum S { #[pin] A(u8), B }", "#[pin_project] enum S { A(u8), B }"),
    ("raw pin on struct", "#[pin_project] #[r#pin] struct S { #[pin] f: u8 }", "#[pin_project] struct S { #[r#pin] f: u8 }"),
    ("raw pin on variant", "#[pin_project(project = P)] enum S { #[r#pin] A(#[pin] u8), B }", "#[pin_project(project = P)] enum S { A(#[r#pin] u8), B }"),
    ("duplicate attribute", "#[pin_project] #[pin_project] struct S(#[pin] u8);", "#[pin_project] struct S(#[pin] u8);"),
    ("duplicate attribute with args", "#[pin_project(project = P)] #[pin_project(project_ref = R)] struct S(#[pin] u8);", "#[pin_project(project = P, project_ref = R)] struct S(#[pin] u8);"),
    ("duplicate attribute later", "#[pin_project] #[derive(Clone)] #[pin_project] struct S(#[pin] u8);", "#[pin_project] #[derive(Clone)] struct S(#[pin] u8);"),
    ("duplicate attribute cfg", "#[pin_project] #[cfg_attr(all(), pin_project)] struct S(#[pin] u8);", "#[pin_project] #[cfg_attr(any(), pin_project)] struct S(#[pin] u8);"),
    ("duplicate attribute cfg first", "#[cfg_attr(all(), pin_project)] #[pin_project] struct S(#[pin] u8);", "#[cfg_attr(all(), pin_project)] struct S(#[pin] u8);"),
    ("duplicate attribute path", "#[pin_project] #[::pin_project::pin_project] struct S(#[pin] u8);", "#[::pin_project::pin_project] struct S(#[pin] u8);"),
    ("duplicate attribute enum", "#[pin_project(project = P)] #[pin_project] enum S { A(#[pin] u8) }", "#[pin_project(project = P)] enum S { A(#[pin] u8) }"),
]
FIELD_MARKS = ["#[pin] #[pin]", "#[pin()]", "#[pin(foo)]", "#[pin[]]", "#[pin{}]", "#[pin = \"x\"]", "#[pin = 1]", "#[pin] #[doc = \"x\"] #[pin]", "#[pin(__private())]", "#[pin(__private(project = Q))]",
               "#[pin] #[cfg_attr(all(), pin)]", "#[cfg_attr(all(), pin, pin)]", "#[cfg_attr(all(), pin(x))]", "#[cfg_attr(all(), pin)] #[cfg_attr(all(), pin)]", "#[pin] #[pin(x)]", "#[pin(true)]",
               "#[pin(mut)]", "#[pin] #[pin] #[pin]", "#[pin()] #[pin]", "#[r#pin] #[pin]", "#[pin] #[r#pin]", "#[r#pin()]", "#[r#pin(x)]", "#[r#pin = 1]"]
SHAPES = ["#[pin_project] struct S { @ f: u8 }", "#[pin_project] struct S { a: u8, #[pin] b: u8, @ f: u8, #[pin] d: u8 }", "#[pin_project] struct S(@ u8);", "#[pin_project] struct S(u8, u16, #[pin] u8, @ u8);",
          "#[pin_project(project = P)] enum S { A, B(@ u8) }", "#[pin_project(project_ref = P)] enum S { B { #[pin] x: u8, @ f: u8 }, C(u8) }", "#[pin_project] enum S { B { x: u8, @ f: u8 }, C(u8) }",
          "#[pin_project(project_replace = P)] enum S { A(#[pin] u8), B, C(u8, @ u16) }", "#[pin_project(!Unpin)] struct S { @ f: u8 }", "#[pin_project(UnsafeUnpin)] struct S<T>(@ T);",
          "#[pin_project(project_replace)] struct S<T> { @ f: T, g: u8 }"]

ITEMSBAD = [
    ("unit struct", "struct S;"), ("empty named", "struct S {}"), ("empty tuple", "struct S();"), ("empty generic", "struct S<const N: usize> {}"),
    ("empty enum", "enum S {}"), ("unit enum", "enum S { A, B }"), ("unit enum one", "enum S { A }"), ("empty-field enum", "enum S { A {}, B() }"), ("mixed empty enum", "enum S { A, B {}, C() }"),
    ("discriminant", "#[repr(u8)] enum S { A(u8) = 2 }"), ("discriminant on unit", "#[repr(u8)] enum S { A(u8), B = 2 }"), ("discriminant unit-only", "enum S { A = 1, B = 2 }"),
    ("discriminant last", "#[repr(u16)] enum S { A(#[pin] u8), B { x: u8 }, C = 9 }"), ("discriminant cfg", "#[repr(u16)] enum S { #[cfg(all())] C = 9, A(#[pin] u8), B { x: u8 } }"),
    ("union", "union S { f: u8 }"), ("fn", "fn s() {}"), ("trait", "trait S {}"), ("impl", "struct S1; impl S1 {}"), ("mod", "mod s {}"), ("use", "use ::core::fmt as s;"), ("const", "const S: u8 = 1;"),
    ("static", "static S: u8 = 1;"), ("type", "type S = u8;"), ("extern crate", "extern crate core as s;"), ("macro_rules", "macro_rules! s { () => {} }"), ("trait impl", "@impl Clone for S1 { fn clone(&self) -> Self { S1 } }"),
    ("inherent impl", "@impl S1 { fn f(&self) {} }"), ("extern block", "extern \"C\" {}"), ("unsafe fn", "unsafe fn s() {}"), ("async fn", "async fn s() {}"), ("pub fn", "pub fn s() {}"), ("const fn", "const fn s() {}"),
    ("unsafe trait", "unsafe trait S {}"), ("pub union", "pub(crate) union S { f: u8 }"), ("trait alias-like", "trait S: Clone {}"), ("extern fn", "extern \"C\" fn s() {}"), ("static mut", "static mut S: u8 = 1;"), ("unsafe mod", "pub mod s {}"),
    ("all fields removed", "struct S { #[cfg(any())] f: u8 }"), ("all tuple fields removed", "struct S(#[cfg(any())] u8, #[cfg(any())] u16);"), ("all variants removed", "enum S { #[cfg(any())] A(u8) }"),
    ("all enum fields removed", "enum S { A { #[cfg(any())] f: u8 }, B }"), ("only unit variant left", "enum S { #[cfg(any())] A(u8), B }"),
    ("all enum tuple fields removed", "enum S { A(#[cfg(any())] u8), B {} }"),
]


def marks():
    bad, good = [], []
    for n, b, g in MARKS:
        bad.append(("mark/" + n, PRE + b, "misplaced or repeated marker"))
        good.append(("mark-good/" + n, PRE + g))
    for i, sh in enumerate(SHAPES):
        good.append(("shape/%d" % i, PRE + sh.replace("@", "#[pin]")))
        for j, m in enumerate(FIELD_MARKS):
            bad.append(("field-mark/%d/%s" % (i, m), PRE + sh.replace("@", m), "the field marker takes no arguments and appears once"))
    for n, it in ITEMSBAD:
        pre = PRE
        if it.startswith("@"):
            pre, it = pre + "struct S1; ", it[1:]
        elif it.startswith("struct S1; "):
            pre, it = pre + "struct S1; ", it[len("struct S1; "):]
        argl = ["", "(project = P)", "(!Unpin)", "(UnsafeUnpin)", "(project_ref = R, project_replace = O)"]
        for a in argl:
            bad.append(("item/%s%s" % (n, a), pre + "#[pin_project%s] %s" % (a, it), "unsupported item"))
        good.append(("item-good/" + n, pre + it.replace("#[pin] ", "")))
    # twins: the nearest supported items
    for n, g in [("one field", "struct S { f: u8 }"), ("one tuple field", "struct S(u8);"), ("enum one field", "enum S { A, B(u8), C {}, D() }"), ("repr enum", "#[repr(u8)] enum S { A(u8), B }"),
                 ("field kept", "struct S { #[cfg(all())] f: u8, #[cfg(any())] g: u8 }"), ("variant kept", "enum S { #[cfg(all())] A(u8), #[cfg(any())] C = 4, B }")]:
        if "#[cfg(any())] C = 4" in g:
            continue
        for a in ["", "(!Unpin)", "(UnsafeUnpin)", "(project = P)", "(project_ref = R, project_replace = O)"]:
            good.append(("item-near/%s%s" % (n, a), PRE + "#[pin_project%s] %s" % (a, g)))
    for it in ("fn f() { #[pin_project] let x = 1; }", "fn f(#[pin] x: u8) {}", "#[pin] struct S(u8);", "struct S { #[pin] f: u8 }", "enum S { A(#[pin] u8) }", "#[pin_project] struct S { f: u8 } fn g(s: &S) { match s { S { #[pin] f } => {} } }"):
        bad.append(("loose/" + it, PRE + it, "marker outside an annotated declaration"))
    return bad, good


PDBASE = [
    ("generic", "#[pin_project(PinnedDrop)] pub struct S<T> { #[pin] f: T, g: u8 }", "<T>", "S<T>"),
    ("tuple", "#[pin_project(PinnedDrop, project_ref = R)] pub struct S<'a>(#[pin] &'a u8, u8);", "<'a>", "S<'a>"),
    ("enum", "#[pin_project(PinnedDrop, project = P)] pub enum S { A(#[pin] u8), B { f: u8 } }", "", "S"),
    ("not unpin", "#[pin_project(!Unpin, PinnedDrop)] pub struct S<const N: usize> where [u8; N]: Sized { #[pin] f: [u8; N] }", "<const N: usize>", "S<N>"),
    ("module path", "pub mod m { #[::pin_project::pin_project(PinnedDrop)] pub struct S<T: ?Sized>(u8, #[pin] T); } use m::S;", "<T: ?Sized>", "m::S<T>"),
]


def destructor_forms():
    """Every deviation from the documented form of a pinned destructor, for several types."""
    from . import c09
    ok = "fn drop(self: Pin<&mut Self>) {}"
    bad, good = [], []
    for n, d, g, t in PDBASE:
        pre = PRE + "pub trait Other {} macro_rules! m { () => { fn drop(self: Pin<&mut Self>) {} } } " + d + " "
        good.append(("destructor/%s" % n, pre + "#[pinned_drop] impl%s PinnedDrop for %s { %s }" % (g, t, ok)))
        for s in c09.SIGS:
            bad.append(("destructor/%s/%s" % (n, s), pre + "#[pinned_drop] impl%s PinnedDrop for %s { %s }" % (g, t, re.sub(r"\bS\b", t, s)), "not the documented form of a pinned destructor"))
        for h in c09.HEADS:
            h = re.sub(r"\bS\b", t, h)
            if "impl<" not in h:
                h = re.sub(r"\bimpl\b", "impl" + g, h)
            bad.append(("destructor/%s/%s" % (n, h), pre + "%s { %s }" % (h, ok), "not the documented form of a pinned destructor"))
    return bad, good


def c12(c):
    acc, rej = arg_cases(c)
    c.count("argument_lists_accepted", len(acc))
    c.count("argument_lists_rejected", len(rej))
    suite.run_suite(c, acc, per=16)
    verdict.reject_batch(c, rej)
    bad, good = marks()
    b, g = destructor_forms()
    bad += b
    good += g
    verdict.reject_batch(c, bad)
    verdict.accept_batch(c, good)
    rnd.c12(c, c.pick(600, 6000))
    c.rule = "argument lists (all of length <= 2 over the item pool, sampled longer ones, all valid sets) x struct/tuple/enum against a reference parser with observed effects, all marker misplacements x shapes, all item kinds, one disturbance each of random declarations; distinct by (attribute text, item)"
