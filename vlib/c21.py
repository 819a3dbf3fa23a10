"""C21: crate configurations: lints, editions, preludes, shadowed names."""
import os
import random
import re
import shutil
from . import c15, c17, core, suite, verdict

SKIP_LINTS = {"unstable_features", "unused_crate_dependencies", "warnings"}


def lint_names(c):
    rc, so, se, st = core.run(["rustc", "-W", "help"])
    out = []
    for line in so.splitlines():
        m = re.match(r"\s+([a-z0-9-]+)\s+(allow|warn)\s", line)
        if m:
            n = m.group(1).replace("-", "_")
            if n not in SKIP_LINTS:
                out.append(n)
    r = c.rustc("#![warn(%s)]\npub fn f() {}\n" % ", ".join(out), name="lintlist", cap_warn=False, externs=())
    unk = set()
    for d in r.diags:
        m = re.search(r"(?:lint|attribute).*`([a-z0-9_]+)`", d.get("message", ""))
        if m:
            unk.add(m.group(1))
    out = [n for n in out if n not in unk]
    if len(out) < 50:
        raise core.Inconclusive("cannot list the compiler's lints")
    return sorted(set(out))


def per_line(r, n0, n):
    out = [set() for _ in range(n)]
    loose = set()
    for d in r.diags:
        if d.get("level") not in ("warning", "error") or not d.get("spans"):
            continue
        code = (d.get("code") or {}).get("code") or ""
        ls = set()
        for sp in d["spans"]:
            if not sp.get("is_primary"):
                continue
            while sp:
                if sp.get("file_name", "").endswith("main.rs"):
                    ls.update(range(sp["line_start"], sp["line_end"] + 1))
                e = sp.get("expansion")
                sp = e and e.get("span")
        hit = [l - n0 - 1 for l in ls if 0 <= l - n0 - 1 < n]
        for h in hit:
            out[h].add((d["level"], code, d["message"]))
        if not hit:
            loose.add((d["level"], code, d["message"]))
    return out, loose


def diag_twins(c, items, head, tag, edition="2021", per=40, driver=None, toolchain_extra=()):
    """items: (name, plain, annotated): the annotated text may not raise diagnostics the plain one does not."""
    groups = [items[i:i + per] for i in range(0, len(items), per)]
    hl = head.rstrip("\n")
    n0 = len(hl.split("\n"))

    def prog(g, w):
        return hl + "\n" + "".join("/** m */ pub mod k%d { %s }\n" % (i, " ".join(x[w].split("\n"))) for i, x in enumerate(g))

    def comp(g, w):
        r = c.rustc(prog(g, w), name=tag, edition=edition, cap_warn=False, externs=("pin_project", "vrt", "vaux"), extra=list(toolchain_extra))
        shutil.rmtree(os.path.dirname(r.path), ignore_errors=True)
        return r

    def solo(x):
        p, a = comp([x], 1), comp([x], 2)
        if not p.ok and p.codes() and not any("lint" in (m or "") for m in p.codes()):
            return None
        pd = per_line(p, n0, 1)
        ad = per_line(a, n0, 1)
        return sorted((ad[0][0] | ad[1]) - (pd[0][0] | pd[1])), p, a

    def one(g):
        try:
            for _ in range(5):
                r = comp(g, 1)
                errs = [d for d in r.errors if (d.get("code") or {}).get("code", "").startswith("E") or not d.get("code")]
                errs = [d for d in errs if d.get("spans")]
                if not errs:
                    break
                bad = verdict.error_lines(r)
                keep = [x for i, x in enumerate(g) if n0 + i + 1 not in bad]
                c.count("plain_invalid", len(g) - len(keep))
                if len(keep) == len(g) or not keep:
                    return
                g = keep
            else:
                return
            pl, ploose = per_line(r, n0, len(g))
            ra = comp(g, 2)
            al, aloose = per_line(ra, n0, len(g))
            for i, x in enumerate(g):
                c.case("%s/%s" % (tag, x[0]), True)
                c.count("diagnostics_of_plain_twins", len(pl[i]))
            c.count("diag_twins", len(g))
            sus = [x for i, x in enumerate(g) if al[i] - pl[i]]
            if (aloose - ploose) and not sus:
                sus = g
            found = 0
            for x in sus:
                s = solo(x)
                if s and s[0]:
                    found += 1
                    c.violate("diagnostics/%s/%s" % (tag, x[0]) if tag != "item-allow" else "item-allow/" + x[0], "%s: annotation adds diagnostics: %s" % (x[0][:300], s[0][:4]), src=prog([x], 2), plain=prog([x], 1))
            if sus and not found:
                c.count("batch_only_differences")
        except core.Inconclusive as e:
            c.inconclusive(str(e))
    core.pmap(one, groups)
    for x in items[:1]:
        c.sample({"diag_twin": x[0], "annotated": x[2][-700:]})


# item-level allowances: the declaration is clean because the user says so on the item
ITEM = [
    ("allow on type: deprecated field type", "#[deprecated] pub struct Old; #[allow(deprecated)] @P pub struct S { @p pub f: Old, pub g: Old }"),
    ("allow inside: deprecated field type", "#[deprecated] pub struct Old; @P #[allow(deprecated)] pub struct S { @p pub f: Old, pub g: Old }"),
    ("allow on type: deprecated enum", "#[deprecated] pub struct Old; #[allow(deprecated)] @E pub enum S { A(@p Old, Old), B { @p x: Old } }"),
    ("allow on type: deprecated replace", "#[deprecated] pub struct Old; #[allow(deprecated)] @R pub enum S { A(@p Old, Old), B { @p x: Old } }"),
    ("deprecated bound", "#[deprecated] pub trait OldT {} #[allow(deprecated)] @P pub struct S<T: OldT> { @p pub f: T }"),
    ("deprecated where", "#[deprecated] pub trait OldT {} #[allow(deprecated)] @P pub struct S<T> where T: OldT { @p pub f: T, pub g: u8 }"),
    ("deprecated itself", "@P #[deprecated] pub struct S { @p pub f: u8 }"),
    ("deprecated itself enum", "@E #[deprecated] pub enum S { A(@p u8) }"),
    ("deprecated fields", "@P pub struct S { #[deprecated] @p pub f: u8, #[deprecated] pub g: u8 }"),
    ("deprecated variants", "@R pub enum S { #[deprecated] A(@p u8, u8), #[deprecated] B { x: u8 } }"),
    ("single_use_lifetimes", "#[allow(single_use_lifetimes)] @P pub struct S<'a> { @p pub f: &'a u8 }"),
    ("explicit_outlives", "#[allow(explicit_outlives_requirements)] @P pub struct S<'a, T: 'a> { @p pub f: &'a T, pub g: &'a mut T }"),
    ("unreachable_pub", "mod inner { #[allow(unreachable_pub)] @P pub struct S { @p pub f: u8, pub g: u8 } } "),
    ("unreachable_pub fields", "mod inner { @P pub(crate) struct S { @p pub f: u8, pub g: u8 } } "),
    ("unreachable_pub tuple", "mod inner { @N pub(super) struct S(@p pub u8, pub(crate) u8); } "),
    ("variant size differences", "#[allow(variant_size_differences)] @R pub enum S { A(@p u8), B([u8; 4000]) }"),
    ("private bounds", "trait Pr {} #[allow(private_bounds)] @P pub struct S<T: Pr> { @p pub f: T }"),
    ("private interfaces", "struct Pr; #[allow(private_interfaces)] @P pub struct S { @p pub f: Pr, pub g: u8 }"),
    ("trivial_bounds", "#[allow(trivial_bounds)] @P pub struct S where u8: Copy { @p pub f: u8 }"),
    ("unused_qualifications", "#[allow(unused_qualifications)] @P pub struct S { @p pub f: ::core::marker::PhantomData<u8> }"),
    ("uncommon codepoints", "#[allow(uncommon_codepoints, non_ascii_idents)] @P pub struct S { @p pub ĳ: u8 }"),
    ("dead private", "@R enum S { A(@p u8, u8), B { x: u8 } } pub fn u() { let _ = S::A(1, 2); let _ = S::B { x: 1 }; }"),
    ("dead private struct", "@N struct S { @p f: u8, g: u8 } pub fn u() { let _ = S { f: 1, g: 2 }; }"),
    ("unused projections", "@N pub struct S { @p f: u8, g: u8 }"),
    ("unused replace", "@R pub enum S { A(@p u8, String), B }"),
    ("let_underscore_drop", "@R pub enum S { A(@p String, String), B }"),
    ("nothing pinned", "@N pub struct S { f: String, g: u8 }"),
    ("all pinned", "@N pub struct S { @p f: String, @p g: u8 }"),
    ("not unpin", "@U pub struct S { @p f: String, g: u8 }"),
    ("not unpin generic", "@U pub struct S<'a, T: ?Sized> { g: &'a u8, @p f: T }"),
    ("unsafe unpin", "@X pub struct S<T> { @p f: T, g: u8 }"),
    ("packed-like attributes", "@P #[repr(C, align(8))] pub struct S { @p f: String, g: u8 }"),
    ("must_use", "@R #[must_use] pub enum S { A(@p u8) } pub fn u(s: ::core::pin::Pin<&mut S>) { let _ = s; }"),
    ("must_use field", "#[must_use] pub struct M; @P pub struct S { @p f: M, g: M }"),
    ("missing debug documented", "/** d */ #[allow(missing_debug_implementations, missing_copy_implementations)] @R pub enum S { /** a */ A(@p u8), /** b */ B { /** x */ x: u8 } }"),
    ("allow missing docs", "#[allow(missing_docs)] @P pub struct S { @p pub f: u8 }"),
    ("raw names", "#[allow(keyword_idents)] @P pub struct S { @p pub r#async: u8, pub r#gen: u8 }"),
    ("fn item in function", "pub fn outer() { @N struct S { @p f: u8, g: u8 } let _ = S { f: 1, g: 2 }; }"),
    ("pin in name", "@P pub struct S<'pin, T: 'pin> { @p pub f: &'pin T }"),
    ("phantom", "@R pub enum S<'a, T: ?Sized> { A(::core::marker::PhantomData<&'a T>, @p u8) }"),
    ("mut mut", "@P pub struct S<'a> { @p pub f: &'a mut &'a mut u8, pub g: &'a mut u8 }"),
    ("option ref", "@P pub struct S<'a> { @p pub f: Option<&'a u8>, pub g: &'a Option<&'a u8> }"),
]
# Lint attributes on the item itself do not reach the generated types: recorded as known findings.
PROBES = [
    ("redundant-lifetimes", "#[allow(redundant_lifetimes)] @P pub struct S<'a, 'b: 'a> where 'a: 'b { @p pub f: &'a u8, pub g: &'b u8 }"),
    ("non-snake-case-field", "#[allow(non_snake_case)] @P pub struct S { @p pub BadField: u8, pub OtherBad: u8 }"),
    ("non-snake-case-inside", "@P #[allow(non_snake_case)] pub struct S { @p pub BadField: u8, pub OtherBad: u8 }"),
    ("non-snake-case-on-field", "@P pub struct S { #[allow(non_snake_case)] @p pub BadField: u8 }"),
    ("non-snake-case-variant", "#[allow(non_snake_case)] @R pub enum S { A { @p BadField: u8, OtherBad: u8 } }"),
    ("non-camel-case-types", "#[allow(non_camel_case_types)] @P pub struct bad_name { @p pub f: u8 }"),
    ("non-camel-case-types-enum", "#[allow(non_camel_case_types)] @E pub enum S { bad_variant(@p u8), other_variant { x: u8 } }"),
    ("non-camel-case-types-parameter", "#[allow(non_camel_case_types)] @P pub struct S<bad> { @p pub f: bad }"),
    ("non-upper-case-globals-const-parameter", "#[allow(non_upper_case_globals)] @P pub struct S<const lower: usize> { @p pub f: [u8; lower] }"),
    ("unused-parens", "#[allow(unused_parens)] @P pub struct S { @p pub f: (u8) }"),
    ("unused-braces", "#[allow(unused_braces)] @P pub struct S<const N: usize> { @p pub f: [u8; { N }] }"),
]
PD = [
    ("pinned drop", "#[pin_project(PinnedDrop)] pub struct S<T> { #[pin] f: T, g: u8 } #[pinned_drop] impl<T> PinnedDrop for S<T> { fn drop(self: ::core::pin::Pin<&mut Self>) { let _ = self; } }"),
    ("pinned drop mut", "#[pin_project(PinnedDrop)] pub struct S<T> { #[pin] f: T, g: u8 } #[pinned_drop] impl<T> PinnedDrop for S<T> { fn drop(mut self: ::core::pin::Pin<&mut Self>) { let this = self.as_mut().project(); *this.g += 1; } }"),
    ("pinned drop enum", "#[pin_project(PinnedDrop, project = SP)] pub enum S<'a> { A(#[pin] &'a u8), B { x: u8 } } #[pinned_drop] impl PinnedDrop for S<'_> { fn drop(self: ::core::pin::Pin<&mut Self>) { match self.project() { SP::A(_) => {} SP::B { x } => { *x = 0; } } } }"),
    ("pinned drop lifetimes", "#[pin_project(PinnedDrop)] pub struct S<'a, T: 'a> where T: Clone { #[pin] f: &'a T } #[pinned_drop] impl<'a, T: 'a> PinnedDrop for S<'a, T> where T: Clone { fn drop(self: ::core::pin::Pin<&mut Self>) { let Self { f } = &*self; let _ = f; } }"),
    ("pinned drop documented", "#[pin_project(PinnedDrop)] pub struct S { #[pin] f: u8 } /** docs */ #[pinned_drop] impl PinnedDrop for S { /** more */ #[inline] fn drop(self: ::core::pin::Pin<&mut Self>) { } }"),
    ("pinned drop unused inside", "#[pin_project(PinnedDrop)] pub struct S { #[pin] f: u8 } #[pinned_drop] impl PinnedDrop for S { fn drop(self: ::core::pin::Pin<&mut Self>) { fn helper(x: u8) -> u8 { x } let _ = helper(self.f); } }"),
    ("pinned drop unsafe body", "#[pin_project(PinnedDrop)] pub struct S { #[pin] f: u8 } #[pinned_drop] impl PinnedDrop for S { #[allow(unsafe_code)] fn drop(self: ::core::pin::Pin<&mut Self>) { let _ = unsafe { ::core::ptr::read(&self.f) }; } }"),
]


def ann(src, on):
    m = {"@P": "#[pin_project(project = SP, project_ref = SR)]", "@E": "#[pin_project(project = SP, project_ref = SR)]", "@R": "#[pin_project(project = SP, project_ref = SR, project_replace = SO)]", "@N": "#[pin_project]",
         "@U": "#[pin_project(!Unpin)]", "@X": "#[pin_project(UnsafeUnpin)]", "@p": "#[pin]"}
    for k, v in m.items():
        src = src.replace(k, v if on else "")
    return src


USE = "#[allow(unused_imports)] use pin_project::{pin_project, pinned_drop}; "


def lints(c, rng):
    names = lint_names(c)
    c.cov["lints_enabled"] = len(names)
    items = []
    for n, s in ITEM:
        items.append(("item/" + n, USE + ann(s, False).replace("mod inner {", "mod inner { " + USE), USE + ann(s, True).replace("mod inner {", "mod inner { " + USE)))
    ARGS = ["project = SP, project_ref = SR, project_replace = SO", "project = SP", "project_ref = SR", "project_replace = SO", "project_replace", ""]
    for n, s in ITEM:       # every item with every choice of named and unnamed projections
        k = re.search("@[PERN]", s)
        if not k:
            continue
        for a in ARGS:
            if "replace" in a and ("?Sized" in s or a == "project_replace" and "enum S" in s) or ann(k.group(), True) == "#[pin_project(%s)]" % a:
                continue
            t = s.replace(k.group(), "#[pin_project(%s)]" % a if a else "#[pin_project]")
            items.append(("item/%s (%s)" % (n, a), USE + ann(s, False).replace("mod inner {", "mod inner { " + USE), USE + ann(t, True).replace("mod inner {", "mod inner { " + USE)))
    nitem = len(items)
    for n, s in c17.LINTED:
        if n == "naming":
            continue
        items.append(("decl/" + n, USE + c17.render(s, False).replace("mod m {", "mod m { " + USE), USE + c17.render(s, True).replace("mod m {", "mod m { " + USE)))
    for n, a, d, u in c15.hand():
        if "pinned_drop" in u or "PinnedDrop" in a or "UnsafeUnpin" in a:
            continue
        if re.search(r"(struct|enum) (r#|[a-z])", d):
            continue        # lower-case type names are linted in the plain twin too, under other names
        items.append(("hand/" + n, c15.PRE + c15.strip(d), c15.PRE + a + " " + d))
    for i in range(c.pick(700, 8000)):
        a, d, u, pu, _ = c15.declaration(rng)
        if "PinnedDrop" in a:
            continue
        d = re.sub(r"#\[allow\([a-z_]*\)\] ?", "", d)
        items.append(("random/%s %s" % (a, d), c15.PRE + c15.strip(d) + " " + pu, c15.PRE + a + " " + d + " " + pu))
    head = "//! docs\n#![warn(%s)]\n#![allow(unused_imports, unused_macros, unused_macro_rules, dead_code)]\n%s\n" % (", ".join(names), c15.CRATE)
    for ed in ("2018", "2021", "2024"):
        diag_twins(c, items if ed == "2021" else items[:nitem + len(c17.LINTED) + 60 + (0 if not c.thorough else 2000)], head, "lints-" + ed, edition=ed)
    # dead code as well
    head2 = "//! docs\n#![warn(%s)]\n%s\n" % (", ".join(names), c15.CRATE)
    diag_twins(c, [x for x in items if x[0].startswith(("item/", "decl/"))], head2, "lints-all", per=20)
    diag_twins(c, [(n, USE + ann(x, False), USE + ann(x, True)) for n, x in PROBES], head, "item-allow", per=4)
    # everything denied, unsafe code forbidden: clean code stays clean
    deny = [n for n in names if n not in ("missing_debug_implementations", "missing_copy_implementations", "missing_docs", "unnameable_types", "unused_qualifications", "impl_trait_redundant_captures", "single_use_lifetimes", "explicit_outlives_requirements", "variant_size_differences", "dead_code_pub_in_binary", "unused", "mixed_script_confusables")]
    clean = ["@N pub struct S<T> { @p f: T, g: u8 }", "@P pub struct S<'pin, T: ?Sized>(pub &'pin u8, @p pub T);", "@R pub enum S<T, U> { A { @p f: T, g: U }, B(@p U), C }", "@U pub struct S<T> { @p f: T }", "@R pub struct S<const N: usize>(@p [u8; N], pub(crate) u8);",
             "@N pub struct S { a: u8, b: Vec<u8> }", "@E pub enum S<'a> { A(&'a u8, @p u8) }"]
    hd = "#![forbid(unsafe_code)]\n#![allow(dead_code, missing_docs)]\n"
    fl = ["-D", "warnings"] + [x for n in deny if n not in ("unsafe_code", "dead_code", "missing_docs") for x in ("-D", n)]
    progs = []
    for i, d in enumerate(clean):
        for ed in ("2018", "2021", "2024"):
            progs += verdict.accept("denied/%d/%s" % (i, ed), hd + "use pin_project::pin_project;\n" + ann(d, True) + "\n", cap_warn=False, extra=fl, edition=ed, externs=("pin_project",))
    for n, s in PD:
        for ed in ("2018", "2021", "2024"):
            h = hd if "unsafe" not in s else hd.replace("#![forbid(unsafe_code)]", "")
            progs += verdict.accept("denied/%s/%s" % (n, ed), h + "use pin_project::{pin_project, pinned_drop};\n" + s + "\n", cap_warn=False, extra=fl, edition=ed, externs=("pin_project",))
    verdict.decide(c, progs)


# ------------------------------------------------------------------ shadowed names and missing preludes

SHADOW_TYPES = ["Pin", "PhantomData", "PhantomPinned", "Option", "Some", "None", "Result", "Ok", "Err", "Box", "Vec", "String", "bool", "u8", "usize", "str", "isize", "char", "u32", "ManuallyDrop", "MaybeUninit", "Wrapper", "AlwaysUnpin",
                "PinnedFieldsOf", "UnsafeDropInPlaceGuard", "UnsafeOverwriteGuard", "Projection", "ProjectionRef", "SProjection", "SProjectionRef", "Target", "This", "Rc", "Arc", "NonNull", "Infallible", "Deref"]
SHADOW_TRAITS = ["Unpin", "Drop", "Sized", "Send", "Sync", "Copy", "Clone", "Fn", "FnOnce", "FnMut", "From", "Into", "AsRef", "Default", "Iterator", "PinnedDrop", "UnsafeUnpin", "MustNotImplDrop", "Any", "Debug"]
SHADOW_MODS = ["core", "std", "alloc", "pin", "marker", "mem", "ptr", "ops", "option", "pin_project", "pin_project_internal", "private", "r#unsafe", "drop_in_place", "cell"]
SHADOW_MACROS = ["compile_error", "unreachable", "panic", "matches", "assert", "vec", "pin", "concat", "stringify", "debug_assert", "format", "cfg", "addr_of", "offset_of", "todo"]
SHADOW_FNS = ["drop", "new", "replace", "swap", "read", "write", "forget", "transmute", "project", "project_ref", "project_replace", "get_unchecked_mut", "needs_drop", "drop_in_place", "pinned", "take", "main"]

HOSTILE_TRAIT = ("pub trait Hostile { fn get_unchecked_mut(&self) -> ::core::primitive::u8 { 1 } fn get_ref(&self) -> ::core::primitive::u8 { 1 } fn as_mut(&self) -> ::core::primitive::u8 { 2 } fn as_ref(&self) -> ::core::primitive::u8 { 2 } fn get_mut(&self) {} fn map_unchecked_mut(&self) {} "
                 "fn deref(&self) {} fn deref_mut(&self) {} fn drop(&self) {} fn new(&self) {} fn set(&self) {} fn into_ref(&self) {} fn get_unchecked(&self) {} fn clone(&self) {} fn read(&self) {} fn write(&self) {} fn forget(&self) {} } impl<T: ?::core::marker::Sized> Hostile for T {} ")

# Declarations and a driver that mention nothing from the prelude.
CLIENT = [
    ("struct", "#[::pin_project::pin_project(project = SP, project_ref = SR, project_replace = SO)] pub struct S<T> { #[pin] pub f: T, pub g: ::std::string::String }",
     "let mut v = ::std::boxed::Box::pin(S { f: 7 as ::core::primitive::i64, g: ::core::convert::From::from(\"x\") });"
     " { let p = ::core::pin::Pin::as_mut(&mut v).project(); let mut f: ::core::pin::Pin<&mut ::core::primitive::i64> = p.f; let g: &mut ::std::string::String = p.g; g.push('y'); ::core::pin::Pin::set(&mut f, 9); }"
     " { let p = ::core::pin::Pin::as_ref(&v).project_ref(); out(::std::format!(\"{} {}\", *p.f, p.g)); }"
     " { let SO { f: _, g } = ::core::pin::Pin::as_mut(&mut v).project_replace(S { f: 1, g: ::std::string::String::new() }); out(g); } out(::std::format!(\"{} {}\", v.f, v.g.len()));"),
    ("tuple", "#[::pin_project::pin_project(project_replace)] pub struct S<'pin, T>(#[pin] pub T, pub &'pin ::core::primitive::i64);",
     "let mut v = ::std::boxed::Box::pin(S(3 as ::core::primitive::i64, &4)); { let p = ::core::pin::Pin::as_mut(&mut v).project(); out(::std::format!(\"{} {}\", *p.0, **p.1)); } { let p = ::core::pin::Pin::as_ref(&v).project_ref(); out(::std::format!(\"{} {}\", *p.0, **p.1)); } { let o = ::core::pin::Pin::as_mut(&mut v).project_replace(S(5, &6)); out(::std::format!(\"{}\", o.1)); }"),
    ("enum", "#[::pin_project::pin_project(project = SP, project_ref = SR, project_replace = SO)] pub enum S<T> { A { #[pin] f: T, g: ::core::primitive::i64 }, B(#[pin] T), C }",
     "let mut v = ::std::boxed::Box::pin(S::A { f: 1 as ::core::primitive::i64, g: 2 }); match ::core::pin::Pin::as_mut(&mut v).project() { SP::A { f, g } => { *g += 1; out(::std::format!(\"{} {}\", *f, g)) } SP::B(_) => {} SP::C => {} } match ::core::pin::Pin::as_ref(&v).project_ref() { SR::A { f, g } => out(::std::format!(\"{} {}\", *f, g)), _ => {} }"
     " match ::core::pin::Pin::as_mut(&mut v).project_replace(S::B(8)) { SO::A { g, .. } => out(::std::format!(\"{}\", g)), _ => {} } match ::core::pin::Pin::as_ref(&v).project_ref() { SR::B(f) => out(::std::format!(\"{}\", *f)), _ => {} }"),
    ("pinned drop", "#[::pin_project::pin_project(PinnedDrop, project = SP)] pub enum S<T: ::core::fmt::Display> { A(#[pin] T, ::core::primitive::i64) } #[::pin_project::pinned_drop] impl<T: ::core::fmt::Display> PinnedDrop for S<T> { fn drop(self: ::core::pin::Pin<&mut Self>) { match self.project() { SP::A(f, g) => out(::std::format!(\"drop {} {}\", *f, g)) } } }",
     "{ let mut v = ::std::boxed::Box::pin(S::A(1 as ::core::primitive::i64, 2)); match ::core::pin::Pin::as_mut(&mut v).project() { SP::A(_, g) => *g += 5 } } ::core::mem::forget(S::A(3 as ::core::primitive::i64, 4));"),
    ("pinned drop struct", "#[::pin_project::pin_project(PinnedDrop)] pub struct S { #[pin] f: ::core::primitive::i64 } #[::pin_project::pinned_drop] impl PinnedDrop for S { fn drop(mut self: ::core::pin::Pin<&mut Self>) { let mut p = ::core::pin::Pin::as_mut(&mut self).project().f; ::core::pin::Pin::set(&mut p, 3); out(::std::format!(\"drop {}\", self.f)) } }",
     "let v = S { f: 1 }; ::core::mem::drop(v);"),
    ("not unpin", "#[::pin_project::pin_project(!Unpin)] pub struct S<T> { #[pin] f: T } ", "let mut v = ::std::boxed::Box::pin(S { f: 1 as ::core::primitive::i64 }); let mut f = ::core::pin::Pin::as_mut(&mut v).project().f; ::core::pin::Pin::set(&mut f, 3); out(::std::format!(\"{} {}\", v.f, ::vrt::is!(S<::core::primitive::i64>: ::core::marker::Unpin)));"),
    ("unsafe unpin", "#[::pin_project::pin_project(UnsafeUnpin)] pub struct S<T> { #[pin] f: T, g: T } unsafe impl<T: ::core::marker::Unpin> ::pin_project::UnsafeUnpin for S<T> {}", "let mut v = S { f: 1 as ::core::primitive::i64, g: 2 }; *::core::pin::Pin::new(&mut v).project().g += 1; out(::std::format!(\"{} {} {}\", v.g, ::vrt::is!(S<::core::primitive::i64>: ::core::marker::Unpin), ::vrt::is!(S<::core::marker::PhantomPinned>: ::core::marker::Unpin)));"),
    ("default unpin", "#[::pin_project::pin_project] pub struct S<T, U>(#[pin] T, U);", "out(::std::format!(\"{} {}\", ::vrt::is!(S<::core::primitive::i64, ::core::marker::PhantomPinned>: ::core::marker::Unpin), ::vrt::is!(S<::core::marker::PhantomPinned, ()>: ::core::marker::Unpin)));"),
    ("unsized", "#[::pin_project::pin_project] pub struct S<T: ?::core::marker::Sized>(pub ::core::primitive::i64, #[pin] pub T);", "let mut v: ::core::pin::Pin<::std::boxed::Box<S<[::core::primitive::i64]>>> = ::std::boxed::Box::pin(S(1, [1, 2, 3])); *::core::pin::Pin::as_mut(&mut v).project().0 += 1; out(::std::format!(\"{} {:?}\", v.0, &::core::pin::Pin::as_ref(&v).project_ref().1.get_ref()));"),
]


def shadows(rng):
    """Environments: (name, crate attributes, items before the client, editions)."""
    o = [("plain", "", ""), ("no_implicit_prelude", "#![no_implicit_prelude]\n", "")]
    for t in SHADOW_TYPES:
        o.append(("type " + t, "", "#[allow(non_camel_case_types)] pub struct %s; " % t))
    for t in SHADOW_TRAITS:
        o.append(("trait " + t, "", "pub trait %s {} " % t))
    for t in SHADOW_MODS:
        o.append(("mod " + t, "", "pub mod %s {} " % t))
    for t in SHADOW_MACROS:
        o.append(("macro " + t, "", "macro_rules! %s { ($($t:tt)*) => { ::core::compile_error!(\"shadowed macro used\"); }; } " % t))
    for t in SHADOW_FNS:
        o.append(("fn " + t, "", "pub fn %s() {} " % t))
    o.append(("hostile trait", "", HOSTILE_TRAIT))
    ty = [t for t in SHADOW_TYPES]
    allt = "".join("#[allow(non_camel_case_types)] pub struct %s; " % t for t in ty) + "".join("pub trait %s {} " % t for t in SHADOW_TRAITS) + "".join("pub mod %s {} " % t for t in SHADOW_MODS if t not in ty) + "".join("pub fn %s() {} " % t for t in SHADOW_FNS if t not in ty)
    o.append(("everything", "", allt + HOSTILE_TRAIT))
    o.append(("everything, no prelude", "#![no_implicit_prelude]\n", allt))
    return o


def run_shadows(c, rng):
    """Every client behaves as in the plain environment."""
    want = {}
    envs = shadows(rng)
    LOG = "#[allow(unused)] fn out<T: ::core::fmt::Display>(x: T) { ::vrt::say(x) } "

    def prog(env, edition):
        n, attrs, items = env
        s = "#![allow(warnings)]\n" + attrs
        if edition == "2015":
            s += "extern crate pin_project; extern crate vrt; extern crate core;\n"
        idx = 0
        for name, d, u in CLIENT:
            d1, u1 = d, u
            if "macro " in n and ("format!" in u or "format!" in d):
                u1, d1 = u.replace("::std::format!", "::std::format!"), d
            it = items
            if n == "trait Debug" or n == "everything" or n.startswith("everything"):
                pass
            s += "pub mod k%d { %s %s %s pub fn go() { %s } }\n" % (idx, it, LOG, d1, u1)
            idx += 1
        s += "fn main() { ::vrt::quiet(); "
        for i in range(len(CLIENT)):
            s += "::vrt::said(); k%d::go(); for x in ::vrt::said() { ::std::println!(\"R\\t%d\\t{}\", x); } " % (i, i)
        return s + "::std::println!(\"END\"); }\n"

    def one(job):
        env, ed = job
        name = "%s/%s" % (env[0], ed)
        try:
            r = c.rustc(prog(env, ed), name="shadow", edition=ed, emit="link", crate_type="bin", extra=["-C", "debuginfo=0"])
            c.case("environment/" + name, True)
            if not r.ok:
                c.violate("environment/" + name, "clients rejected in the environment %s: %s" % (name, r.brief()), src=prog(env, ed))
                return None
            rc, out, err, st = core.run([r.out], timeout=60, cpu=20)
            shutil.rmtree(os.path.dirname(r.path), ignore_errors=True)
            if not out.rstrip().endswith("END"):
                c.violate("environment/" + name, "clients died in the environment %s: %s" % (name, err[-300:]), src=prog(env, ed))
                return None
            c.count("environment_observations", out.count("R\t"))
            return out
        except core.Inconclusive as e:
            c.inconclusive(str(e))
            return None
    jobs = []
    for env in envs:
        eds = ["2021"] if not env[0] in ("plain", "no_implicit_prelude", "everything", "everything, no prelude", "hostile trait") and not c.thorough else ["2015", "2018", "2021", "2024"]
        for ed in eds:
            if ed == "2015" and (env[0] in ("mod core", "mod std")):
                pass
            jobs.append((env, ed))
    outs = core.pmap(one, jobs)
    base = outs[jobs.index((envs[0], "2021"))]
    EXPECT = ["9 xy", "xy", "1 0", "3 4", "3 4", "4", "1 3", "1 3", "3", "8", "drop 1 7", "drop 3", "3 false", "3 true false", "true false", "2 [1, 2, 3]"]
    if base is not None:
        got = [l.split("\t")[2] for l in base.splitlines() if l.startswith("R\t")]
        if got != EXPECT:
            c.violate("environment/values", "client observations %s, expected %s" % (got, EXPECT), src=prog(envs[0], "2021"))
        for j, o in zip(jobs, outs):
            if o is not None and o != base:
                c.violate("environment/behaviour/%s/%s" % (j[0][0], j[1]), "clients behave differently in the environment %s" % (j,), src=prog(*j))
    c.sample({"environment": envs[-1][0], "source": prog(envs[5], "2021")[:1200]})


NOSTD = """#![no_std]
#![forbid(unsafe_code)]
#![deny(warnings)]
#![allow(dead_code)]
%s
use pin_project::{pin_project, pinned_drop};
use core::pin::Pin;
#[pin_project(project = AP, project_ref = AR, project_replace = AO)] pub struct A<T, U> { #[pin] f: T, g: U }
#[pin_project(project = BP, project_ref = BR, project_replace = BO)] pub enum B<T, U> { X(#[pin] T, U), Y { #[pin] f: T }, Z }
#[pin_project(PinnedDrop)] pub struct C<'a>(#[pin] &'a u8);
#[pinned_drop] impl PinnedDrop for C<'_> { fn drop(self: Pin<&mut Self>) { let _ = self.project().0; } }
#[pin_project(!Unpin)] pub struct D<T>(#[pin] T);
#[pin_project(UnsafeUnpin)] pub struct E<T>(#[pin] T);
impl<T, U> A<T, U> { pub fn u(self: Pin<&mut Self>) -> (Pin<&mut T>, &mut U) { let p = self.project(); (p.f, p.g) } }
"""


def nostd(c):
    progs = []
    for ed in ("2015", "2018", "2021", "2024"):
        x = "extern crate pin_project;" if ed == "2015" else ""
        progs += verdict.accept("no_std/" + ed, NOSTD % x, cap_warn=False, edition=ed, externs=("pin_project",))
        progs += verdict.accept("renamed import/" + ed, "#![allow(warnings)]\n%s use pin_project::pin_project as pp; use pin_project as other; #[pp(project = SP)] pub struct S { #[pin] f: u8 } #[other::pin_project] pub struct S2 { #[pin] f: u8 } #[pp(PinnedDrop)] pub struct S3(#[pin] u8); #[other::pinned_drop] impl PinnedDrop for S3 { fn drop(self: ::core::pin::Pin<&mut Self>) {} }\n" % ("extern crate pin_project; extern crate core;" if ed == "2015" else ""), edition=ed)
    for ed in ("2018", "2021", "2024"):
        progs += verdict.accept("extern crate at root/" + ed, "#![allow(warnings)]\nextern crate pin_project; mod m { #[::pin_project::pin_project] pub struct S(#[pin] u8); }", edition=ed)
        progs += verdict.accept("macro_use/" + ed, "#![allow(warnings)]\n#[macro_use] extern crate pin_project; mod m { #[pin_project] pub struct S(#[pin] u8); #[pin_project(PinnedDrop)] pub struct T(#[pin] u8); #[pinned_drop] impl PinnedDrop for T { fn drop(self: ::core::pin::Pin<&mut Self>) {} } }", edition=ed)
        progs += verdict.accept("bin/" + ed, "#![forbid(unsafe_code)]\n#![deny(warnings)]\n#[pin_project::pin_project] struct S { #[pin] f: u8, g: u8 } fn main() { let mut s = Box::pin(S { f: 1, g: 2 }); let p = s.as_mut().project(); *p.g += *p.f; }", edition=ed, cap_warn=False, crate_type="bin", externs=("pin_project",))
        # nothing of the expansion needs the user to import anything
        progs += verdict.accept("no imports/" + ed, "#![allow(warnings)]\n#[pin_project::pin_project(project = P, project_ref = R, project_replace = O)] pub enum S { A(#[pin] u8, u8) } #[pin_project::pin_project(PinnedDrop)] pub struct T { #[pin] f: u8 } #[pin_project::pinned_drop] impl PinnedDrop for T { fn drop(self: core::pin::Pin<&mut Self>) {} }", edition=ed)
    verdict.decide(c, progs)


def c21(c):
    rng = random.Random("C21/%s" % c.seed)
    lints(c, rng)
    run_shadows(c, rng)
    nostd(c)
    c.rule = "declarations compiled with every non-default lint of the compiler, annotated against plain; self-contained clients run in environments that shadow one or all names the expansion could mention or remove the prelude, with observations compared; editions, no_std, renamed imports, denied warnings and forbidden unsafe code; distinct by (configuration, program)"
