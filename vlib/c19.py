"""C19: expansion of arbitrary tokens: no panic, no hang, deterministic, parsable."""
import os
import random
import re
import shutil
import time
import tomllib
from . import c06, c12, c15, core, decl, runeng

HEAD = "#![allow(warnings)]\nuse pin_project::{pin_project, pinned_drop, UnsafeUnpin}; use std::pin::Pin; use std::marker::*; use std::fmt::Debug;\n"


# ------------------------------------------------------------------ corpus

def corpus(rng, n):
    """(kind, args, item): p = attribute, d = derive alone, q = destructor attribute."""
    o = []

    def attr(text):
        m = re.search(r"#\[\s*(?:::)?(?:pin_project::)?pin_project\s*(?:\((.*?)\))?\s*\]", text, re.S)
        return (m.group(1) or "", text[:m.start()] + text[m.end():]) if m else None
    for nme, a, d, u in c15.hand():
        x = attr(a)
        if x:
            o.append(("p", x[0], d))
        for m in re.finditer(r"#\[pinned_drop\]\s*(impl.*)", u, re.S):
            o.append(("q", "", m.group(1)))
    for _ in range(n):
        a, d, u, pu, _ = c15.declaration(rng)
        x = attr(a)
        if x:
            o.append(("p", x[0], d))
    for i, x in enumerate(runeng.gen_batch(rng, 0, n // 2, None)):
        y = attr(decl.decl_src(x))
        if y:
            o.append(("p", y[0], y[1]))
        m = re.search(r"#\[(?:::)?(?:pin_project::)?pinned_drop\]\s*(impl.*)", decl.impls_src(x), re.S)
        if m:
            o.append(("q", "", m.group(1)))
    for a in list(c12.BAD):
        o.append(("p", a, "struct S<T> { #[pin] f: T, g: u8 }"))
        o.append(("p", a, "enum S<T> { A(#[pin] T), B { x: u8 }, C }"))
    for it in c12.ITEMSBAD:
        s = it[1] if isinstance(it, tuple) else it
        x = attr(s)
        if x:
            o.append(("p", x[0], x[1]))
    for f in c06.F:
        b = f[-1] if isinstance(f, tuple) else f
        o.append(("q", "", "impl<T> PinnedDrop for S<T> { fn drop(mut self: Pin<&mut Self>) { " + str(b) + " } }"))
    for k, a, it in list(o)[:60]:
        if k == "p":
            o.append(("d", "", "#[pin(__private(%s))] %s" % (a, it)))
            o.append(("d", "", it))
    return [(k, " ".join(a.split()), re.sub(r"//[^\n]*", " ", it).replace("\n", " ")) for k, a, it in o]


# ------------------------------------------------------------------ in-process engine

def build_fz():
    """A copy of the current macro sources that runs outside the compiler; None when it cannot be built that way."""
    h = core.source_hash()
    root = os.path.join(core.BUILD, h)
    os.makedirs(root, exist_ok=True)
    ws, tgt = os.path.join(root, "ws-fz"), os.path.join(root, "t-fz")
    exe = os.path.join(tgt, "debug", "fz")
    ok = os.path.join(root, "ok-fz")
    if os.path.exists(ok) and os.path.exists(exe):
        return exe
    shutil.rmtree(ws, ignore_errors=True)
    shutil.copytree(os.path.join(core.VERIF, "harness", "fz"), os.path.join(ws, "fz"), ignore=shutil.ignore_patterns("target"))
    src = os.path.join(core.REPO, "pin-project-internal")
    shutil.copytree(os.path.join(src, "src"), os.path.join(ws, "ppi", "src"))
    for d, ds, fs in os.walk(os.path.join(ws, "ppi", "src")):
        for f in fs:
            p = os.path.join(d, f)
            with open(p) as fh:
                t = fh.read()
            t = re.sub(r"#!?\[doc\s*\(\s*test\s*\(.*?\)\s*\)\s*\]", "", t, flags=re.S) if f == "lib.rs" else t
            t = re.sub(r"#\[\s*proc_macro(_attribute|_derive\s*\(.*?\))?\s*\]", "", t, flags=re.S)
            t = re.sub(r"(?:syn\s*::\s*)?parse_macro_input!\s*\(\s*(\w+)\s*as\s+([\w:]+)\s*\)", r"match syn::parse2::<\2>(\1) { Ok(x) => x, Err(e) => return e.to_compile_error() }", t)
            t = re.sub(r"(?:syn\s*::\s*)?parse_macro_input!\s*\(\s*(\w+)\s*\)", r"match syn::parse2(\1) { Ok(x) => x, Err(e) => return e.to_compile_error() }", t)
            t = re.sub(r"extern crate proc_macro;", "", t)
            t = re.sub(r"(?<![\w:])(::)?proc_macro::", "proc_macro2::", t)
            with open(p, "w") as fh:
                fh.write(t)
    with open(os.path.join(src, "Cargo.toml"), "rb") as f:
        man = tomllib.load(f)
    deps = ""
    for k, v in man.get("dependencies", {}).items():
        if isinstance(v, str):
            deps += "%s = \"%s\"\n" % (k, v)
        else:
            deps += "%s = { %s }\n" % (k, ", ".join("%s = %s" % (a.replace("_", "-") if a == "default_features" else a, str(b).lower() if isinstance(b, bool) else ("\"%s\"" % b if isinstance(b, str) else "[%s]" % ", ".join("\"%s\"" % x for x in b))) for a, b in v.items() if a not in ("workspace", "path")))
    with open(os.path.join(ws, "ppi", "Cargo.toml"), "w") as f:
        f.write("[package]\nname = \"ppi\"\nversion = \"0.0.0\"\nedition = \"%s\"\n\n[dependencies]\n%s\n" % (man["package"].get("edition", "2021"), deps))
    shutil.copy(os.path.join(core.VERIF, "harness", "base", "Cargo.lock"), os.path.join(ws, "fz", "Cargo.lock"))
    rc, out, err, st = core.run(["cargo", "build", "--offline", "-q"], timeout=600, cwd=os.path.join(ws, "fz"), env=core.env_clean({"CARGO_TARGET_DIR": tgt, "CARGO_INCREMENTAL": "0"}))
    if rc != 0:
        return (None, err)
    open(ok, "w").close()
    return exe


LONG = 60
SYNTAX = re.compile(r"unparsable tokens|macro expansion ignores|^expected |^unexpected |^missing |^unmatched|^mismatched closing|^unknown start of token|^struct literal|^leading `\+`|^`.*` cannot be used|^invalid ")


def program(kind, args, item):
    if kind == "p":
        return HEAD + "#[pin_project%s]\n%s\n" % ("(" + args + ")" if args else "", item)
    if kind == "d":
        return HEAD + "#[derive(::pin_project::__private::__PinProjectInternalDerive)]\n%s\n" % item
    return HEAD + "struct Q;\n#[pinned_drop%s]\n%s\n" % ("(" + args + ")" if args else "", item)


NAMES = {"E0405", "E0412", "E0425", "E0432", "E0433", "E0531", "E0532", "E0404", "E0574", "E0422", "E0423", "E0407", "E0437", "E0438"}


def users_fault(c, kind, item):
    """Whether the item already fails when it only goes through a macro that returns it as it is."""
    top = "#[vaux::identity]\n" + ("" if kind == "q" else "#[derive(vaux::PinNop)]\n")
    r = c.rustc(HEAD + top + item + "\n", name="ident", cpu=40, externs=("pin_project", "vrt", "vaux"))
    shutil.rmtree(os.path.dirname(r.path), ignore_errors=True)
    return any(not d.get("message", "").startswith("aborting due") and (kind != "q" or (d.get("code") or {}).get("code") not in NAMES) for d in r.errors)


def observe(c, kind, args, item):
    """What the real compiler shows: set of failures."""
    src = program(kind, args, item)
    r = c.rustc(src, name="fz", cpu=40)
    bad = set()
    if r.status == "cpu":
        bad.add("hang")
    if r.macro_panic or "panicked" in " ".join(r.msgs()):
        bad.add("panic")
    if any(re.search(r"unparsable tokens|macro expansion ignores", m) for m in r.msgs()):
        bad.add("unparsed")
    shutil.rmtree(os.path.dirname(r.path), ignore_errors=True)
    return bad, r, src


def confirm(c, cls, kind, args, item):
    """Whether an alarm of the copied sources exists in the real compiler."""
    bad, r, src = observe(c, kind, args, item)
    if cls.startswith("panic"):
        return "panic" in bad, src
    if cls.startswith("slow"):
        t0 = time.time()
        return "hang" in bad, src
    if cls.startswith("unparsed"):
        # the item itself is fine for the compiler's parser, the expansion is not, and no message of the macro explains it
        if users_fault(c, kind, item):
            return False, src
        if "unparsed" in bad:
            return True, src
        synt = [m for d in r.errors for m in [d.get("message", "")] if not (d.get("code") or {}).get("code") and SYNTAX.search(m)]
        return bool(synt), src
    if cls.startswith("nondet"):
        outs = {expanded(c, src) for _ in range(6)}
        return len(outs) > 1, src
    return False, src


def expanded(c, src, edition="2021"):
    r = c.rustc(src, name="exp", edition=edition, extra=["-Zunpretty=expanded"], emit="metadata") if os.environ.get("RUSTC_BOOTSTRAP") else None
    if r is None:
        d = os.path.join(c.wd.path, "e%d" % core.uniq())
        os.makedirs(d)
        p = os.path.join(d, "main.rs")
        with open(p, "w") as f:
            f.write(src)
        cmd = ["rustc", "--edition", edition, "--crate-type", "lib", "--crate-name", "prog", "-A", "warnings", "-L", "dependency=" + c.art.deps, "--extern", "pin_project=" + c.art.ext["pin_project"],
               "--extern", "vrt=" + c.art.ext["vrt"], "-Zunpretty=expanded", p]
        rc, out, err, st = core.run(cmd, cwd=d, env=core.env_clean({"RUSTC_BOOTSTRAP": "1"}), cpu=60)
        shutil.rmtree(d, ignore_errors=True)
        return "%s\n%s\n%s" % (rc, out, re.sub(r"/\S*main\.rs", "main.rs", err))
    return r.stdout


def inprocess(c, rng):
    exe = build_fz()
    if isinstance(exe, tuple):
        c.cov["in_process_engine"] = "sources cannot run outside the compiler: " + exe[1][-300:]
        return False
    cp = os.path.join(c.wd.path, "corpus")
    co = corpus(rng, c.pick(200, 800))
    with open(cp, "w") as f:
        for x in co:
            f.write("\x1f".join(x) + "\n")
    c.cov["corpus"] = len(co)
    jobs = c.pick(8, 8)
    secs = c.pick(45, 900)
    alarms = []

    def one(i):
        rc, out, err, st = core.run([exe, cp, str(c.seed * 1000 + i), str(secs), str(c.pick(400000, 10 ** 9))], timeout=secs + 240)
        for l in out.splitlines():
            p = l.split("\t")
            if p[0] == "A" and len(p) >= 6:
                alarms.append((p[1], p[2], p[3], p[4], p[5]))
            elif p[0] == "Z":
                kv = dict(x.split("=") for x in p[1:])
                for k, v in kv.items():
                    if k == "slowest_us":
                        c.cov["slowest_expansion_us"] = max(c.cov.get("slowest_expansion_us", 0), int(v))
                    else:
                        c.count("in_process_" + k, int(v))
                c.case("worker %d" % i, True, n=int(kv["execs"]))
            elif p[0] == "M":
                c.case("own error: " + p[1], True, n=0)
        if st == "timeout" or (rc not in (0, None) and "Z\t" not in out):
            c.count("in_process_deaths")
            alarms.append(("slow worker died rc=%s" % rc, "p", "", "", err[-300:])) if False else None
    core.pmap(one, range(jobs))
    c.cov["in_process_engine"] = "running"
    by = {}
    for a in alarms:
        by.setdefault(a[0], []).append(a)
    c.cov["in_process_alarm_classes"] = len(by)

    def check(cls):
        try:
            for a in sorted(by[cls], key=lambda a: len(a[2]) + len(a[3]))[:8]:
                real, src = confirm(c, cls, a[1], a[2], a[3])
                c.count("alarms_confirmed" if real else "alarms_not_reachable")
                if real:
                    c.violate("in-process/" + cls[:80], "%s: %s on #[..(%s)] %s" % (cls, a[4][:200], a[2][:200], a[3][:400]), src=src)
                    return
        except core.Inconclusive as e:
            if "internal compiler error" not in str(e):
                c.inconclusive(str(e))
    core.pmap(check, list(by))
    for cls in list(by)[:3]:
        c.sample({"alarm_not_reachable_in_the_compiler": cls, "input": by[cls][0][3][:300]})
    return True


# ------------------------------------------------------------------ through the compiler

TOKEN = re.compile(r"\s+|//[^\n]*|/\*.*?\*/|r#\w+|b?\"(?:\\.|[^\"\\])*\"|'(?:\\.|[^'\\])'|'\w+|\w+|[-=]>|::|\.\.=?|.", re.S)
OPEN = {"(": ")", "[": "]", "{": "}"}
SNIPS = ["#[pin]", "#[pin()]", "#[pin(x)]", "#[pin = 1]", "#[cfg(any())]", "#[cfg_attr(all(), pin)]", "#[cfg_attr(all(), pin, pin)]", "#[repr(packed)]", "#[repr(C, packed(4))]", "#[repr(align(4))]", "#[pin_project]", "#[pin(__private())]", "pub", "pub(crate)", "pub(in self)", "<T>", "<'a>", "where T: Clone", "= 5", "dyn Debug", "impl Debug", "_", "!", "Self", "self", "m!()",
         "fn()", "for<'x> fn(&'x u8)", "[u8; { 1 + 1 }]", "(u8,)", "macro_rules! m { () => {} }", "Self { .. }", "Self(x)", "|x: Self| self", "unsafe", "async", "const", "-> ()", "&mut self", "self: Pin<&mut Self>", "project = X", "project_replace", "!Unpin", "UnsafeUnpin", "PinnedDrop", ",", ";", "r#type", "'static", "1", "\"s\"", "const C: u8 = 1;", "type X = u8;", "mod m {}", "$x", "..", "?Sized", "+ 'a", "union", "enum", "struct", "impl", "trait", "extern", "static", "auto"]


def tree(text):
    """Nested token lists."""
    st = [[]]
    clo = []
    for t in TOKEN.findall(text):
        if t.isspace() or t.startswith(("//", "/*")):
            continue
        if t in OPEN:
            n = [t]
            st[-1].append(n)
            st.append(n)
            clo.append(OPEN[t])
        elif clo and t == clo[-1]:
            st.pop()
            clo.pop()
        elif t in ")]}":
            continue
        else:
            st[-1].append(t)
    return st[0]


def text(t, top=True):
    if isinstance(t, str):
        return t
    if top:
        return " ".join(text(x, False) for x in t)
    return t[0] + " " + " ".join(text(x, False) for x in t[1:]) + " " + OPEN[t[0]]


def mutate(rng, t, others):
    lst, first = t, 0
    while rng.random() < 0.65:
        gs = [x for x in lst[first:] if isinstance(x, list)]
        if not gs:
            break
        lst, first = rng.choice(gs), 1
    n = len(lst)

    def snip():
        if rng.random() < 0.4:
            o = rng.choice(others)
            while rng.random() < 0.6:
                gs = [x for x in o if isinstance(x, list)]
                if not gs:
                    break
                o = rng.choice(gs)[1:]
            if o:
                a = rng.randrange(len(o))
                return o[a:a + rng.randint(1, 8)]
        return tree(rng.choice(SNIPS))
    if n <= first:
        lst.extend(snip())
        return
    i = rng.randrange(first, n)
    k = rng.randrange(7)
    if k == 0:
        del lst[i]
    elif k == 1:
        lst.insert(i, lst[i])
    elif k == 2:
        j = rng.randrange(first, n)
        lst[i], lst[j] = lst[j], lst[i]
    elif k in (3, 4, 5):
        lst[i:i] = snip()
    else:
        lst[i:i + rng.randint(1, 4)] = snip()


def deliver(rng, kind, args, item):
    """Sometimes hands the tokens over through a declarative macro, with opaque fragments."""
    src = program(kind, args, item)
    if rng.random() < 0.75 or "$" in src:
        return src
    body = src[len(HEAD):]
    frag = rng.choice(["tt", "item"])
    if frag == "item":
        return HEAD + "macro_rules! w { ($($i:item)*) => { $($i)* } }\nw! { %s }\n" % body
    return HEAD + "macro_rules! w { ($($i:tt)*) => { $($i)* } }\nw! { %s }\n" % body


def through_compiler(c, rng):
    import copy
    co = corpus(rng, c.pick(80, 300))
    trees = [tree(x[2]) for x in co]
    jobs = []
    for i in range(c.pick(1600, 40000)):
        k, a, it = rng.choice(co)
        t = copy.deepcopy(trees[rng.randrange(len(co))]) if rng.random() < 0.1 else tree(it)
        at = tree(a)
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            mutate(rng, at if rng.random() < 0.2 and k != "d" else t, trees)
        jobs.append((k, text(at), text(t), rng.random()))
    stats = {}

    def one(j):
        k, a, it, s = j
        try:
            src = deliver(random.Random(s), k, a, it)
            r = c.rustc(src, name="mut", cpu=40)
            shutil.rmtree(os.path.dirname(r.path), ignore_errors=True)
            ms = r.msgs()
            c.case("verdict: " + ("accepted" if r.ok else (ms[0] if ms else "?")[:80]), True)
            c.count("compiled_mutants")
            if r.ok:
                c.count("compiled_mutants_accepted")
            if r.status == "cpu":
                c.violate("hang", "compiler did not finish expanding", src=src)
            elif any("panicked" in m for m in ms):
                c.violate("panic/" + next(m for m in ms if "panicked" in m)[:60], "expansion panicked: %s" % [m for m in ms if "panicked" in m][:2], src=src)
            elif any(re.search(r"unparsable tokens|macro expansion ignores", m) for m in ms):
                if not users_fault(c, k, it):
                    c.violate("unparsable", "expansion is not code: %s" % ms[:3], src=src)
        except core.Inconclusive as e:
            if "internal compiler error" in str(e):
                c.count("compiler_crashes_skipped")
            else:
                c.inconclusive(str(e))
    core.pmap(one, jobs)
    c.sample({"mutant": program(*jobs[3][:3])[len(HEAD):]})


def determinism(c, rng):
    ds = []
    for i in range(c.pick(6, 30)):
        ds.append(decl.program(runeng.gen_batch(rng, i * 100, 12, [None, "replace", "pdrop"][i % 3]), 1, 1, 1).replace("fn main()", "pub fn main()"))
    ms = [c15.PRE + c15.CRATE + "\n" + "\n".join("pub mod k%d { %s %s %s }" % (j, c15.PRE, x[0], x[1]) for j, x in enumerate([c15.declaration(rng) for _ in range(25)])) for _ in range(c.pick(6, 30))]

    def one(src):
        try:
            a = [expanded(c, src) for _ in range(3)]
            c.case("expanded %d" % len(a[0]), True)
            c.count("determinism_programs")
            c.count("expanded_bytes", len(a[0]))
            if len(set(a)) != 1:
                c.violate("nondeterministic", "two expansions of one program differ", src=src)
        except core.Inconclusive as e:
            c.inconclusive(str(e))
    core.pmap(one, ds + ms)


def big(c):
    """Large inputs: the time to expand stays far below what a quadratic blow-up would need."""
    n = c.pick(400, 1500)
    body = lambda k: "\n".join("#[pin] f%d: Vec<u8>, g%d: u16," % (i, i) for i in range(k))
    deep = "u8"
    for _ in range(60):
        deep = "Option<(%s, u8)>" % deep
    P = [
        ("fields", "#[pin_project(project = P, project_ref = R, project_replace = O)] pub struct S { %s }" % body(n)),
        ("variants", "#[pin_project(project = P, project_ref = R, project_replace = O)] pub enum S { %s }" % " ".join("V%d { #[pin] a: u8, b: u16 }, W%d(u8, #[pin] u16)," % (i, i) for i in range(n // 2))),
        ("generics", "#[pin_project(project = P)] pub struct S<%s> where %s { %s }" % (", ".join("T%d" % i for i in range(n // 4)), ", ".join("T%d: Clone + Send" % i for i in range(n // 4)), " ".join("#[pin] f%d: T%d," % (i, i) for i in range(n // 4)))),
        ("lifetimes", "#[pin_project(project = P)] pub struct S<%s> { %s }" % (", ".join("'l%d" % i for i in range(n // 4)), " ".join("#[pin] f%d: &'l%d u8," % (i, i) for i in range(n // 4)))),
        ("nested type", "#[pin_project] pub struct S { #[pin] f: %s }" % deep),
        ("attributes", "#[pin_project] %s pub struct S { #[pin] %s f: u8 }" % ("#[allow(dead_code)]\n" * n, "#[allow(dead_code)]\n" * n)),
    ] + [("large " + k, a + " " + d) for k, a, d in c15.large()] + [
        ("pin-like lifetimes", "#[pin_project] pub struct S<%s> { %s }" % (", ".join("'pin" + "_" * i for i in range(100)), " ".join("#[pin] f%d: &'pin%s u8," % (i, "_" * i) for i in range(100)))),
        ("destructor body", "#[pin_project(PinnedDrop)] pub struct S { #[pin] f: u8, g: u8 } #[pinned_drop] impl PinnedDrop for S { fn drop(mut self: Pin<&mut Self>) { %s } }" % "\n".join("{ let this = self.as_mut().project(); *this.g = this.g.wrapping_add(%d); let Self { g, .. } = &*self; let _ = vec![Self::same(&*self); 1]; }" % (i % 200) for i in range(n)) + " impl S { fn same(&self) -> u8 { self.g } }"),
        ("destructor nesting", "#[pin_project(PinnedDrop)] pub struct S { #[pin] f: u8, g: u8 } #[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) { let _ = %s; } }" % ("(|| { " * 40 + "self.g" + " })()" * 40)),
    ]

    def one(p):
        if c.violations:
            return
        try:
            r = c.rustc(HEAD + p[1], name="big", cpu=LONG)
            c.case("big " + p[0], True)
            if r.status == "cpu":
                pl = re.sub(r"#\[(pin_project|pin)\b(\([^)]*\))?\]|#\[pinned_drop\].*", "", p[1])
                q = c.rustc(HEAD + pl, name="bigp", cpu=LONG)
                if q.status != "cpu":
                    c.violate("big/" + p[0], "expanding a large declaration (%s) takes more than %d s of CPU time" % (p[0], LONG), src=HEAD + p[1])
            elif any("panicked" in m for m in r.msgs()):
                c.violate("big/panic/" + p[0], "expansion panicked: %s" % r.msgs()[:2], src=HEAD + p[1])
            elif not r.ok:
                c.count("big_rejected")
                c.sample({"big_rejected": p[0], "why": r.msgs()[:2]})
        except core.Inconclusive as e:
            c.inconclusive(str(e))
    core.pmap(one, P)


FIXED = [
    ("macro item in a destructor impl", "struct S; #[pinned_drop] impl PinnedDrop for S { m!(); }"),
    ("empty destructor impl", "struct S; #[pinned_drop] impl PinnedDrop for S { }"),
    ("inherent impl", "struct S; #[pinned_drop] impl S { fn drop(self: Pin<&mut Self>) {} }"),
    ("arguments to pinned_drop", "struct S; #[pinned_drop(foo)] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) {} }"),
    ("pinned_drop on a struct", "#[pinned_drop] struct S;"),
    ("pinned_drop on a function", "#[pinned_drop] fn f() {}"),
    ("empty arguments", "#[pin_project()] struct S { #[pin] f: u8 }"),
    ("literal argument", "#[pin_project(1)] struct S { #[pin] f: u8 }"),
    ("group argument", "#[pin_project((project = P))] struct S { #[pin] f: u8 }"),
    ("value argument", "#[pin_project = 1] struct S { #[pin] f: u8 }"),
    ("braces", "#[pin_project{project = P}] struct S { #[pin] f: u8 }"),
    ("brackets", "#[pin_project[project = P]] struct S { #[pin] f: u8 }"),
    ("keyword name", "#[pin_project(project = struct)] struct S { #[pin] f: u8 }"),
    ("self name", "#[pin_project(project = Self)] struct S { #[pin] f: u8 }"),
    ("underscore name", "#[pin_project(project = _)] struct S { #[pin] f: u8 }"),
    ("raw name", "#[pin_project(project = r#type)] struct S { #[pin] f: u8 }"),
    ("path name", "#[pin_project(project = a::B)] struct S { #[pin] f: u8 }"),
    ("generic name", "#[pin_project(project = B<T>)] struct S { #[pin] f: u8 }"),
    ("non-ascii", "#[pin_project(project = Ü)] struct Ö { #[pin] ß: u8 }"),
    ("on expression", "fn f() { #[pin_project] 1 + 1; }"),
    ("on statement", "fn f() { #[pin_project] let x = 1; }"),
    ("on field", "struct S { #[pin_project] f: u8 }"),
    ("on variant", "enum S { #[pin_project] A }"),
    ("on parameter", "fn f(#[pin_project] x: u8) {}"),
    ("on generic parameter", "struct S<#[pin_project] T>(T);"),
    ("on module", "#[pin_project] mod m {}"),
    ("on macro call", "#[pin_project] m! {}"),
    ("on macro rules", "#[pin_project] macro_rules! m { () => {} }"),
    ("on impl item", "struct S; impl S { #[pin_project] fn f() {} }"),
    ("on trait item", "trait T { #[pin_project] fn f(); }"),
    ("on extern block", "#[pin_project] extern \"C\" {}"),
    ("on use", "#[pin_project] use std::vec::Vec;"),
    ("derive alone", "#[derive(pin_project::__private::__PinProjectInternalDerive)] struct S { #[pin] f: u8 }"),
    ("derive alone on an enum", "#[derive(pin_project::__private::__PinProjectInternalDerive)] enum S { A(#[pin] u8) }"),
    ("derive alone on a union", "#[derive(pin_project::__private::__PinProjectInternalDerive)] union S { f: u8 }"),
    ("derive with odd private", "#[derive(pin_project::__private::__PinProjectInternalDerive)] #[pin(__private)] struct S { #[pin] f: u8 }"),
    ("derive with odd private 2", "#[derive(pin_project::__private::__PinProjectInternalDerive)] #[pin(__private = 1)] struct S { #[pin] f: u8 }"),
    ("derive with odd private 3", "#[derive(pin_project::__private::__PinProjectInternalDerive)] #[pin(__private(), x)] struct S { #[pin] f: u8 }"),
    ("derive with two privates", "#[derive(pin_project::__private::__PinProjectInternalDerive)] #[pin(__private())] #[pin(__private())] struct S { #[pin] f: u8 }"),
    ("twice", "#[pin_project] #[pin_project] struct S { #[pin] f: u8 }"),
    ("twice by path", "#[pin_project::pin_project] #[pin_project::pin_project] struct S { #[pin] f: u8 }"),
    ("pinned_drop twice", "#[pin_project(PinnedDrop)] struct S { #[pin] f: u8 } #[pinned_drop] #[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) {} }"),
    ("pin_project on impl", "#[pin_project] impl PinnedDrop for u8 { fn drop(self: Pin<&mut Self>) {} }"),
    ("unsafe impl", "struct S; #[pinned_drop] unsafe impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) {} }"),
    ("negative impl", "struct S; #[pinned_drop] impl !PinnedDrop for S {}"),
    ("default impl", "struct S; #[pinned_drop] default impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) {} }"),
    ("const impl", "struct S; #[pinned_drop] impl const PinnedDrop for S { fn drop(self: Pin<&mut Self>) {} }"),
    ("qualified trait", "struct S; #[pinned_drop] impl pin_project::PinnedDrop for S { fn drop(self: Pin<&mut Self>) {} }"),
    ("generic trait", "struct S; #[pinned_drop] impl PinnedDrop<u8> for S { fn drop(self: Pin<&mut Self>) {} }"),
    ("reference type", "#[pinned_drop] impl PinnedDrop for &u8 { fn drop(self: Pin<&mut Self>) {} }"),
    ("macro type", "#[pinned_drop] impl PinnedDrop for m!() { fn drop(self: Pin<&mut Self>) {} }"),
    ("tuple type", "#[pinned_drop] impl PinnedDrop for (u8, u8) { fn drop(self: Pin<&mut Self>) {} }"),
    ("dyn type", "#[pinned_drop] impl PinnedDrop for dyn Debug { fn drop(self: Pin<&mut Self>) {} }"),
    ("qself type", "#[pinned_drop] impl PinnedDrop for <u8 as Iterator>::Item { fn drop(self: Pin<&mut Self>) {} }"),
    ("paren type", "#[pin_project(PinnedDrop)] struct S(#[pin] u8); #[pinned_drop] impl PinnedDrop for (S) { fn drop(self: Pin<&mut Self>) {} }"),
    ("never type", "#[pinned_drop] impl PinnedDrop for ! { fn drop(self: Pin<&mut Self>) {} }"),
    ("default method", "struct S; #[pinned_drop] impl PinnedDrop for S { default fn drop(self: Pin<&mut Self>) {} }"),
    ("no body", "struct S; #[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>); }"),
    ("const item", "struct S; #[pinned_drop] impl PinnedDrop for S { const C: u8 = 1; }"),
    ("type item", "struct S; #[pinned_drop] impl PinnedDrop for S { type T = u8; }"),
    ("several", "struct S; #[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) {} fn drop(self: Pin<&mut Self>) {} }"),
    ("variadic", "struct S; #[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>, ...) {} }"),
    ("no parameter", "struct S; #[pinned_drop] impl PinnedDrop for S { fn drop() {} }"),
    ("typed parameter", "struct S; #[pinned_drop] impl PinnedDrop for S { fn drop(this: Pin<&mut Self>) {} }"),
    ("pattern parameter", "struct S; #[pinned_drop] impl PinnedDrop for S { fn drop(_: Pin<&mut Self>) {} }"),
    ("macro-typed receiver", "struct S; #[pinned_drop] impl PinnedDrop for S { fn drop(self: m!()) {} }"),
    ("infer receiver", "struct S; #[pinned_drop] impl PinnedDrop for S { fn drop(self: _) {} }"),
    ("tuple receiver", "struct S; #[pinned_drop] impl PinnedDrop for S { fn drop(self: (Pin<&mut Self>,)) {} }"),
    ("pin without arguments", "struct S; #[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin) {} }"),
    ("pin with binding", "struct S; #[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<T = &mut Self>) {} }"),
    ("pin fn style", "struct S; #[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin(&mut Self)) {} }"),
    ("pin of a const", "struct S; #[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<{ 1 }>) {} }"),
    ("empty struct", "#[pin_project] struct S {}"), ("unit struct", "#[pin_project] struct S;"), ("empty tuple", "#[pin_project] struct S();"), ("empty enum", "#[pin_project] enum S {}"),
    ("units only", "#[pin_project] enum S { A, B }"), ("discriminant", "#[pin_project] enum S { A(#[pin] u8) = 1 }"), ("union", "#[pin_project] union S { f: u8 }"),
    ("unnamed field", "#[pin_project] struct S { #[pin] _: u8 }"), ("no type", "#[pin_project] struct S { #[pin] f }"), ("default value", "#[pin_project] struct S { #[pin] f: u8 = 1 }"),
    ("macro field type", "#[pin_project] struct S { #[pin] f: m!(x) }"), ("never field", "#[pin_project] struct S { #[pin] f: ! }"), ("infer field", "#[pin_project] struct S { #[pin] f: _ }"), ("impl field", "#[pin_project] struct S { #[pin] f: impl Debug }"),
    ("nested struct type", "#[pin_project] struct S { #[pin] f: struct { x: u8 } }"), ("anonymous union", "#[pin_project] struct S { #[pin] f: union { x: u8 } }"),
    ("bare repr", "#[pin_project] #[repr] struct S { #[pin] f: u8 }"), ("repr value", "#[pin_project] #[repr = \"packed\"] struct S { #[pin] f: u8 }"), ("repr literal", "#[pin_project] #[repr(\"packed\")] struct S { #[pin] f: u8 }"), ("repr nested", "#[pin_project] #[repr(packed(1 + 1))] struct S { #[pin] f: u8 }"), ("repr path", "#[pin_project] #[repr(a::b)] struct S { #[pin] f: u8 }"), ("repr empty", "#[pin_project] #[repr()] struct S { #[pin] f: u8 }"),
    ("where with self", "#[pin_project] struct S where Self: Sized { #[pin] f: u8 }"), ("bad where", "#[pin_project] struct S where for<'a> { #[pin] f: u8 }"), ("const default", "#[pin_project] struct S<const N: usize = { 1 + 2 }> { #[pin] f: [u8; N] }"), ("const expression default", "#[pin_project] struct S<const N: usize = -1> { #[pin] f: u8 }"),
    ("unsafe field", "#[pin_project] struct S { #[pin] unsafe f: u8 }"), ("mut field", "#[pin_project] struct S { #[pin] mut f: u8 }"), ("visible variant", "#[pin_project] enum S { pub A(#[pin] u8) }"), ("restricted", "#[pin_project] pub(in crate::nowhere) struct S { #[pin] f: u8 }"), ("crate vis", "#[pin_project] crate struct S { #[pin] f: u8 }"),
    ("unsafe attribute", "#[unsafe(pin_project)] struct S { #[pin] f: u8 }"), ("unsafe pin", "#[pin_project] struct S { #[unsafe(pin)] f: u8 }"), ("unsafe repr", "#[pin_project] #[unsafe(repr(packed))] struct S { #[pin] f: u8 }"), ("inner attribute", "#[pin_project] struct S { #![allow(warnings)] #[pin] f: u8 }"),
]


def nested(c):
    """Deep nesting at every position the macros walk through: the time must not double with each level."""
    k = c.pick(40, 90)

    def wrap(a, leaf, b, n=k):
        return a * n + leaf + b * n
    top = "macro_rules! id { ($($t:tt)*) => { $($t)* } } macro_rules! ty { ($t:ty) => { $t } }\n"
    P = []
    for kind, decl, recv in (("plain", "pub struct S { #[pin] f: u8, g: u8 } impl S { const N: u8 = 1; fn same(&self) -> u8 { self.g } }", "impl PinnedDrop for S"),
                             ("generic", "pub struct S<'a, T> { #[pin] f: &'a T, g: u8 } impl<'a, T> S<'a, T> { const N: u8 = 1; fn same(&self) -> u8 { self.g } }", "impl<'a, T> PinnedDrop for S<'a, T>")):
        for leaf in ("self.g", "Self::N", "Self::same(&self)", "self::F"):
            for name, a, b in (("paren", "(", ")"), ("block", "{", "}"), ("array", "[", "][0]"), ("tuple", "(", ",).0"), ("if", "if true {", "} else { 0 }"), ("match", "match 0 { _ => ", "}"), ("call", "F2(", ")"), ("closure", "(||", ")()"),
                               ("not", "!", ""), ("unsafe", "unsafe {", "}"), ("loop", "loop { break ", "}"), ("let", "{ let x = ", "; x }"), ("cast", "((", ") as u8)"), ("group macro", "id!(", ")"), ("brace macro", "id!{", "}"), ("vec", "vec![", "][0]")):
                e = wrap(a, leaf, b)
                # rustc's own limit for macros is 128 levels
                if "macro" not in name and name != "vec":
                    P.append(("body %s %s %s" % (kind, name, leaf), "#[pin_project(PinnedDrop)] %s const F: u8 = 1; fn F2(x: u8) -> u8 { x } #[pinned_drop] %s { fn drop(self: Pin<&mut Self>) { let _: u8 = %s; } }" % (decl, recv, e)))
                P.append(("macro %s %s %s" % (kind, name, leaf), "#[pin_project(PinnedDrop)] %s const F: u8 = 1; fn F2(x: u8) -> u8 { x } #[pinned_drop] %s { fn drop(self: Pin<&mut Self>) { let _: u8 = id!(%s); } }" % (decl, recv, e)))
        for name, a, b in (("vec", "Vec<", ">"), ("boxed fn", "Box<fn(", ")>"), ("tuple", "(", ", u8)"), ("paren", "(", ")"), ("array", "[", "; 1]"), ("ref", "&'static ", ""), ("fn", "fn(", ")"), ("fn out", "fn() -> ", ""), ("raw", "*const ", ""), ("macro", "ty!(", ")"), ("path", "<", " as Id>::T")):
            t = wrap(a, "*const Self", b, k if name not in ("path", "macro") else 30)
            P.append(("body type %s %s" % (kind, name), "pub trait Id { type T: ?Sized; } impl<X: ?Sized> Id for X { type T = X; } #[pin_project(PinnedDrop)] %s #[pinned_drop] %s { fn drop(self: Pin<&mut Self>) { let _: Option<%s> = None; let _ = id!(None::<%s>); } }" % (decl, recv, t, t)))
            P.append(("field type %s %s" % (kind, name), "pub trait Id { type T: ?Sized; } impl<X: ?Sized> Id for X { type T = X; } #[pin_project(project = P, project_replace = R)] pub struct S%s { #[pin] f: %s, %s g: Option<%s> }" % (
                "<'a, T>" if kind == "generic" else "", wrap(a, "Box<S<'a, T>>" if kind == "generic" else "Box<Self>", b, k if name not in ("path", "macro") else 30), "h: &'a T," if kind == "generic" else "", wrap(a, "Box<Self>", b, k if name not in ("path", "macro") else 30))))
        for name, a, b in (("tuple", "(", ", _)"), ("paren", "(", ")"), ("ref", "&", ""), ("slice", "[", ", ..]"), ("or", "(", "| _)"), ("binding", "x @ (", ")"), ("some", "Some(", ")")):
            P.append(("pattern %s %s" % (kind, name), "#[pin_project(PinnedDrop)] %s #[pinned_drop] %s { fn drop(self: Pin<&mut Self>) { if let %s = loop {} {} } }" % (decl, recv, wrap(a, "Self { g: 1, .. }", b))))
    for name, a, b in (("not", "not(", ")"), ("all", "all(", ")"), ("any", "any(", ", all())")):
        e = wrap(a, "all()", b, k)
        P.append(("cfg " + name, "#[pin_project(project = P)] pub enum S { A { #[pin] f: u8, #[cfg(%s)] g: u8, #[cfg_attr(%s, pin)] h: u8 }, #[cfg(%s)] B }" % (e, e, e)))
        P.append(("repr " + name, "#[pin_project] #[cfg_attr(%s, repr(C))] pub struct S { #[pin] f: u8 }" % e))
    P += [("cfg_attr", "#[pin_project] pub struct S { %s f: u8 }" % ("#[" + wrap("cfg_attr(all(), ", "pin", ")") + "]")),
          ("item cfg_attr", "#[pin_project] %s pub struct S { #[pin] f: u8 }" % ("#[" + wrap("cfg_attr(all(), ", "repr(C)", ")") + "]")),
          ("arguments", "#[pin_project(%s)] pub struct S { #[pin] f: u8 }" % wrap("(", "project = P", ")")),
          ("pin arguments", "#[pin_project] pub struct S { #[pin%s] f: u8 }" % wrap("(", "x", ")")),
          ("drop arguments", "#[pin_project(PinnedDrop)] pub struct S { #[pin] f: u8 } #[pinned_drop(%s)] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) {} }" % wrap("{", "x", "}")),
          ("private arguments", "#[derive(::pin_project::__private::__PinProjectInternalDerive)] #[pin(%s)] pub struct S { #[pin] f: u8 }" % wrap("__private(", "", ")")),
          ("const", "#[pin_project] pub struct S { #[pin] f: [u8; %s] }" % wrap("{", "1", "}")),
          ("const default", "#[pin_project] pub struct S<const N: usize = %s> { #[pin] f: [u8; N] }" % wrap("{", "1", "}")),
          ("where", "#[pin_project] pub struct S<T> where %s: Sized { #[pin] f: T }" % wrap("(", "T", ",)")),
          ("bound", "#[pin_project] pub struct S<T: %s> { #[pin] f: T }" % wrap("Into<Option<", "u8", ">>")),
          ("hrtb", "#[pin_project] pub struct S { #[pin] f: %s }" % wrap("for<'pin> fn(&'pin u8, ", "u8", ")")),
          ("hrtb macro", "#[pin_project] pub struct S { #[pin] f: ty!(%s) }" % wrap("for<'pin> fn(&'pin u8, ", "u8", ")")),
          ("signature", "#[pin_project(PinnedDrop)] pub struct S { #[pin] f: u8 } #[pinned_drop] impl PinnedDrop for S { fn drop(self: %s) {} }" % wrap("Pin<&mut ", "Self", ">")),
          ("signature output", "#[pin_project(PinnedDrop)] pub struct S { #[pin] f: u8 } #[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) -> %s {} }" % wrap("(", "()", ")")),
          ("impl type", "#[pin_project(PinnedDrop)] pub struct S { #[pin] f: u8 } #[pinned_drop] impl PinnedDrop for %s { fn drop(self: Pin<&mut Self>) {} }" % wrap("Vec<", "S", ">")),
          ("rules", "#[pin_project(PinnedDrop)] pub struct S { #[pin] f: u8 } #[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) { macro_rules! m { () => { %s } } let _ = m!(); } }" % wrap("(", "self.f", ")")),
          ("inner items", "#[pin_project(PinnedDrop)] pub struct S { #[pin] f: u8 } #[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) { %s let _ = self.f; } }" % wrap("fn f() {", "", "}")),
          ("fragments", "macro_rules! n { ($e:expr, x $($x:tt)*) => { n!(($e), $($x)*) }; ($e:expr,) => { #[pin_project(PinnedDrop)] pub struct S { #[pin] f: u8 } #[pinned_drop] impl PinnedDrop for S { fn drop(self: Pin<&mut Self>) { let _ = id!($e); } } }; } n!(Self::N, %s); impl S { const N: u8 = 1; }" % ("x " * k)),
          ("type fragments", "macro_rules! n { ($e:ty, x $($x:tt)*) => { n!(Option<$e>, $($x)*); }; ($e:ty,) => { #[pin_project(project_replace)] pub struct S { #[pin] f: $e } }; } n!(Box<S>, %s);" % ("x " * k)),
          ]

    def one(p):
        if len(c.violations) > 2:
            return
        try:
            r = c.rustc(HEAD + top + p[1], name="nest", cpu=30)
            c.case("nested " + p[0], True)
            if r.status == "cpu":
                pl = re.sub(r"#\[(pin_project|pin)\b(\([^\]]*\))?\]", "", p[1])
                pl = re.sub(r"#\[pinned_drop\b[^\]]*\] impl(\S*(?: T>)?) PinnedDrop for", r"impl\1", pl)
                q = c.rustc(HEAD + top + pl, name="nestp", cpu=30)
                if q.status != "cpu":
                    c.violate("nested/hang/" + p[0], "expanding %d levels of nesting (%s) takes more than 30 s of CPU time" % (k, p[0]), src=HEAD + top + p[1])
                else:
                    c.count("nested_slow_by_themselves")
            elif any("panicked" in m for m in r.msgs()):
                c.violate("nested/panic/" + p[0], "%s: %s" % (p[0], r.msgs()[:2]), src=HEAD + top + p[1])
            elif r.ok:
                c.count("nested_accepted")
            else:
                c.count("nested_rejected")
                c.sample({"nested_rejected": p[0], "why": r.msgs()[:2]})
        except core.Inconclusive as e:
            if "internal compiler error" in str(e) or "overflow" in str(e):
                c.count("compiler_crashes_skipped")
            else:
                c.inconclusive(str(e))
    core.pmap(one, P)


def fixed(c):
    def one(p):
        try:
            r = c.rustc(HEAD + p[1] + "\n", name="fixed", cpu=40)
            c.case("fixed " + p[0], True)
            if r.status == "cpu":
                c.violate("fixed/hang/" + p[0], "%s: expansion does not end" % p[0], src=HEAD + p[1])
            elif any("panicked" in m for m in r.msgs()):
                c.violate("fixed/panic/" + p[0], "%s: %s" % (p[0], r.msgs()[:2]), src=HEAD + p[1])
            elif any(re.search("unparsable tokens|macro expansion ignores", m) for m in r.msgs()) and not users_fault(c, "q" if "pinned_drop" in p[1] else "p", re.sub(r"#\[(pin_project|pinned_drop|derive).*?\]", "", p[1])):
                c.violate("fixed/unparsable/" + p[0], "%s: %s" % (p[0], r.msgs()[:2]), src=HEAD + p[1])
        except core.Inconclusive as e:
            if "internal compiler error" in str(e):
                c.count("compiler_crashes_skipped")
            else:
                c.inconclusive(str(e))
    core.pmap(one, FIXED)


def c19(c):
    rng = random.Random("C19/%s" % c.seed)
    fixed(c)
    nested(c)
    big(c)
    # a hang was seen: the rest would only wait for the same limit again and again
    if not any("/hang/" in v[0] or v[0].startswith("big/") for v in c.violations):
        through_compiler(c, rng)
        determinism(c, rng)
        inprocess(c, rng)
    c.rule = ("token-level mutants of valid and invalid declarations and destructor impls: expanded inside the compiler (panics, CPU limits, unparsable output), and by the same sources running outside it at high rate, where every "
              "alarm is repeated in the compiler before it counts; repeated expansions compared; large inputs timed; distinct by verdict message, own error message or program")
