#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from vlib import registry  # noqa: E402

D = "pin-project-internal/src/pin_project/derive.rs"
A = "pin-project-internal/src/pin_project/args.rs"
T = "pin-project-internal/src/pin_project/attribute.rs"
P = "pin-project-internal/src/pinned_drop.rs"
U = "pin-project-internal/src/utils.rs"
L = "src/lib.rs"


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    }


PROPS = [
    prop("C01", "Projections reach exactly the declared fields, with the declared pinning",
         "For every accepted declaration and every value, projecting a pinned mutable or shared reference yields one reference per active field of the "
         "current variant, under the same name or index, pointing at that very field of that very value and typed with the field's declared type. "
         "Fields marked as pinned come out as pinned references (mutable or shared as requested), all others as plain references, in every position of "
         "every struct and enum variant. Writes through a projection are seen by direct access, and projecting neither changes the value nor runs a destructor.",
         ["programs", "histories", "inputs"],
         "all struct/enum declarations (field counts, positions, pin masks, generics, argument lists, attributes, cfg) x all values/variants x all histories of projections",
         "The tests fix about twenty small declarations with one to four fields and mostly check types by assignment; field indexes above 3, mixed variants, "
         "non-trivial masks with generics and cfg, and field identity by address are never compared.",
         [D, L], [("projection types, patterns and bodies built field by field", D + ": visit_fields, visit_variants"),
                  ("project / project_ref methods", D + ": make_proj_impl")],
         observe=["field addresses, sizes, type names and contents through project()/project_ref() versus direct access"]),
    prop("C02", "A pinned field never moves and safe code never gets mutable access to it",
         "Once a value is pinned, the contents of each of its fields marked as pinned stay at one address until that field is destroyed there in place, whatever "
         "sequence of projections, in-place assignments and replacements is performed. Unless the field's type is freely movable, no safe program can obtain from "
         "the pinned value an owned or plain mutable access to a pinned field, through any of the projections or through the replacement result.",
         ["programs", "histories", "fault_sequences"],
         "all declarations, all histories of operations on a pinned place (with destructors that panic), all safe client programs that try to move or unpin a pinned field",
         "Unit tests never compare the address at which a pinned field is destroyed with the one at which it was pinned, and the compile-fail tests do not run here.",
         [D, L], [("pinned fields are wrapped in Pin / PhantomData", D + ": visit_fields"),
                  ("drop in place guard", L + ": __private::UnsafeDropInPlaceGuard"),
                  ("Drop glue pins self", D + ": make_drop_impl")],
         observe=["destructor addresses of non-movable tokens", "compiler verdicts on attack programs"]),
    prop("C03", "Replacing through projection conserves every field exactly once",
         "Replacing a pinned value through its replacing projection returns the previous values of exactly the unpinned fields of the previous variant, destroys each "
         "pinned field of it exactly once, in place and in declaration order, before returning, and leaves the replacement in the same place. Pinned fields appear in "
         "the result only as zero-sized type markers. No value is lost, duplicated or destroyed twice, for any pair of old and new variants and any later use or drop of the result.",
         ["programs", "histories", "inputs"],
         "all declarations with a replacing projection, all old/new variant pairs, all histories mixing replacement with other operations and drops",
         "Tests replace a handful of two-field values and check returned contents only; destruction order, count and place are sampled for one struct.",
         [D, L], [("move out, guard, overwrite", D + ": proj_own_body, make_proj_impl"),
                  ("guards", L + ": UnsafeDropInPlaceGuard, UnsafeOverwriteGuard")],
         observe=["token ledger and destructor event log around each replacement"]),
    prop("C04", "A panicking destructor cannot break a replacing projection",
         "If the destructor of any pinned field panics while a value is being replaced through its replacing projection, the panic reaches the caller, every other "
         "pinned field is still destroyed exactly once in place and in order, every unpinned field of the old value is destroyed exactly once, and the place holds the "
         "complete replacement. The value stays usable: later projections, replacements and its final drop behave as if nothing had happened.",
         ["crash_points", "fault_sequences", "programs"],
         "every pinned destructor of every variant of every declaration as the panicking one, followed by any continuation",
         "One test panics in one destructor of one two-field struct; position, variant, nesting and the continuation afterwards are not explored.",
         [D, L], [("order and scope of guards", D + ": proj_own_body, make_proj_impl"),
                  ("guards", L + ": UnsafeDropInPlaceGuard, UnsafeOverwriteGuard")],
         observe=["destructor event log with one armed destructor per run"]),
    prop("C05", "A pinned destructor runs exactly once, first, on every drop route",
         "For a type declared with a pinned destructor, every way in which a value's life ends (scope exit, boxes and shared owners, collections, overwriting, in-place "
         "drop, unwinding, as a field of another type, behind an unsized pointer) runs the user's destructor body exactly once, at the value's own address, while all "
         "fields are intact, and afterwards destroys every field exactly once in declaration order. Fields are destroyed even if the body panics; a forgotten value runs nothing. "
         "Types declared without it get no destructor of their own: their fields are destroyed exactly once in declaration order.",
         ["programs", "histories", "fault_sequences"],
         "all declarations with and without a pinned destructor, all drop routes, all positions of a panic among body and field destructors",
         "Tests drop three or four values by scope exit and count calls; they do not compare order, addresses, panics or other drop routes.",
         [D, P, L], [("Drop impl that calls the pinned destructor", D + ": make_drop_impl"),
                     ("expansion of the impl", P + ": expand_impl")],
         observe=["event log of destructor body and field destructors"]),
    prop("C06", "A pinned destructor body means what it would mean in an ordinary method",
         "A destructor body accepted by the attribute behaves exactly like the same statements in an ordinary inherent method with the same pinned receiver: receiver, type, "
         "constructor, pattern, associated item, constant and generic parameter references resolve identically in expressions, patterns, types, closures and macro arguments, "
         "and inner items keep their own meaning. All documented receiver spellings and common body forms are accepted.",
         ["programs", "inputs"],
         "all destructor bodies built from references to the receiver, the type and its associated items in every syntactic position, for structs/enums with any generics",
         "Tests contain a fixed list of bodies and only check that they compile; results of the rewritten expressions are not compared with an ordinary method's.",
         [P, U], [("receiver and type rewriting", U + ": ReplaceReceiver"), ("inner function", P + ": expand_impl")],
         observe=["value trace of the body versus the same body as an inherent method"]),
    prop("C07", "By default a type is Unpin exactly when all its pinned fields are",
         "Without an explicit request, an annotated type instantiated with any arguments is freely movable if and only if the declared type of every active field marked as pinned, "
         "over all variants, is freely movable; unpinned, cfg-removed and phantom uses of parameters have no influence. The answer is the same for concrete, generic, associated, "
         "lifetime-dependent and unsized field types, and can be relied on inside generic code under the corresponding bounds.",
         ["programs", "inputs"],
         "all declarations x all instantiations, with pinned field types drawn from movable and non-movable concrete, generic, associated, nested and unsized types",
         "Tests assert the trait for a few hand-picked instantiations; the condition is a bound solved per instantiation.",
         [D, L], [("conditional impl over a struct of the pinned field types", D + ": make_unpin_impl (Default)"),
                  ("bound carrier", L + ": PinnedFieldsOf, AlwaysUnpin")],
         observe=["trait probe per instantiation compared with the probe of each pinned field type"]),
    prop("C08", "Explicit Unpin requests decide as documented",
         "A type that asks never to be Unpin is not Unpin for any instantiation, even if every field is. A type that asks to decide through the unsafe marker trait is Unpin exactly "
         "for the instantiations for which the user implemented that trait, and for none if there is no such implementation. Neither request changes projections, destructors or layout.",
         ["programs", "inputs"],
         "all declarations carrying either request (alone or with any other arguments) x all instantiations x all user implementations with any bounds",
         "Tests assert two or three instantiations of each.",
         [D, L], [("negative and unsafe forms", D + ": make_unpin_impl"), ("Wrapper forwards UnsafeUnpin", L + ": Wrapper")],
         observe=["trait probe per instantiation"]),
    prop("C09", "Safe code cannot override the decision whether a type is Unpin",
         "No program without unsafe code can make an annotated type Unpin where the macro's rules say it is not: any additional implementation of Unpin for it that could ever apply (unconditional, bounded, overlapping "
         "or for specific instantiations) is rejected, in all three modes, whatever trait or lifetime tricks are used. A useless implementation of the unsafe marker trait (not requested) is rejected too, and "
         "implementing the marker trait needs the unsafe keyword.",
         ["programs"],
         "all safe programs adding trait implementations for an annotated type, in every mode, with any bounds, on all supported editions",
         "The compile-fail tests that sample this are not part of the runnable suite, and they fix one shape per mode.",
         [D, L], [("macro-generated impl conflicts with user impls", D + ": make_unpin_impl"),
                  ("foreign wrapper types in bounds", L + ": Wrapper, PinnedFieldsOf, AlwaysUnpin"), ("unsafe trait", L + ": UnsafeUnpin")],
         observe=["compiler verdicts on attack programs and on their harmless twins"]),
    prop("C10", "Safe code cannot replace, bypass or directly invoke pinned destructors",
         "An annotated type cannot have a hand-written ordinary destructor; a pinned destructor is accepted only if requested on the type, and a request without one is rejected. No program without unsafe code can "
         "run the destructor body other than by dropping the value, whether by calling the trait method, a path to it, or anything visible inside the body, and unsafe operations in the body still require an unsafe block. "
         "Destructor implementations must cover the type unconditionally and have the one documented signature and shape; everything else is rejected.",
         ["programs"],
         "all safe programs that declare or call destructors of annotated types, all malformed destructor implementations",
         "The compile-fail tests that sample this do not run in the available suite.",
         [D, P, L], [("must-not-implement-Drop trick and dummy impl", D + ": make_drop_impl"),
                     ("validation", P + ": validate_impl, validate_sig"), ("unsafe trait method, dummy inner fn", P + ": expand_impl; " + L + ": PinnedDrop")],
         observe=["compiler verdicts on attack programs and on their harmless twins"]),
    prop("C11", "Packed types are never projected",
         "No declaration whose layout is packed, in any spelling, order or combination of representation attributes, conditionally applied, or applied by another macro, can be annotated successfully unless packing "
         "is a no-op for its fields' alignment. All other representations (C, transparent, alignment, integer, Rust) are accepted and their projections hand out aligned references.",
         ["programs", "configurations"],
         "all representation attributes and combinations, positions relative to the annotation, delivery through cfg_attr and other macros, all field alignments",
         "The compile-fail tests that sample this do not run; accepted representations appear in one or two tests.",
         [D], [("attribute scan plus borrow-every-field function", D + ": ensure_not_packed")],
         observe=["compiler verdicts; alignment of projected references at run time"]),
    prop("C12", "Documented argument and marker forms are accepted, all others rejected",
         "Every combination of documented arguments in any order, with or without a trailing comma, is accepted and has the documented effect. Unknown, duplicated, contradictory, incomplete or misspelt arguments, "
         "colliding projection names, misplaced, duplicated or argument-carrying field markers, and unsupported items (field-less types, discriminants, unions, functions and so on) are rejected with an error, never silently ignored.",
         ["programs", "inputs"],
         "all argument lists up to length four over the documented arguments plus near misses, all placements of the field marker, all item kinds",
         "No runnable test feeds an invalid input; valid ones are a few fixed combinations in one order.",
         [A, T, D, U], [("argument parser", A + ": Args::parse"), ("attribute placement", T + ": Input::parse"),
                        ("item validation", D + ": validate_struct, validate_enum, parse_enum, Context::new"), ("field marker", U + ": position_exact")],
         observe=["compiler verdicts compared with an independent reference parser"]),
    prop("C13", "Projections are exactly as visible as documented",
         "Projection methods and named projection types have the visibility of the annotated type, reduced to the crate when the type is public, and every field of a projection has the declared visibility of the original "
         "field. Within the crate, a place that may name the type and a field may use the projection of it; any other place, and any other crate, may not.",
         ["programs"],
         "all combinations of type visibility, field visibility and using place (same module, parent, child, sibling, other crate) for all three projections",
         "Tests check one public struct from inside its crate; the cross-crate and negative cases do not run.",
         [U, D], [("visibility reduction", U + ": determine_visibility"), ("field visibilities copied", D + ": visit_fields")],
         observe=["compiler verdicts on accesses compared with the same accesses on the original type"]),
    prop("C14", "The generated API is exactly what was requested",
         "A struct always gets both reference projections and gets the replacing one only on request; an enum gets precisely the projections it names. Projection types are nameable if and only if named in the arguments, "
         "implement no traits beyond the automatic ones, and no other name becomes visible in the user's namespace or inherent API, so that user items and methods with any ordinary names coexist.",
         ["programs", "configurations"],
         "all argument combinations on all kinds of declaration x all names a program could probe",
         "Tests only use what is there; absence is checked by compile-fail tests that do not run.",
         [D], [("methods emitted", D + ": make_proj_impl"), ("exposed versus scoped types", D + ": GenerateTokens")],
         observe=["method and name probes per argument combination"]),
    prop("C15", "Any generics, field types and names the language allows are accepted",
         "A valid struct or enum stays valid when annotated, whatever its lifetimes, type and constant parameters, defaults, bounds, where clauses, higher-ranked and associated types, unsized last field, self-references through "
         "the self type, raw or unusual identifiers and parameter names, recursion, and delivery through declarative macros. Generated lifetimes, types and traits never clash with ordinary user names (those that do not begin with an underscore).",
         ["programs"],
         "all declarations the compiler accepts without the annotation (apart from the documented exclusions)",
         "Tests list some twenty hand-written shapes; combinations are unbounded.",
         [D, U], [("lifetime choice", U + ": determine_lifetime_name"), ("generics handling", U + ": insert_lifetime; " + D + ": Context::new"),
                  ("Self replacement", U + ": ReplaceReceiver"), ("unnamed const scope", D + ": into_tokens")],
         observe=["compiler verdict with the annotation versus without; projections used from generic code"]),
    prop("C16", "Conditional compilation of fields, variants and markers is respected",
         "Fields and variants removed by conditional compilation are absent from all projections and from the movability decision, present ones are treated as if unconditional, and a conditionally applied field marker counts "
         "exactly when its condition holds. The annotated declaration behaves identically to the same declaration with the conditions already evaluated, under every configuration.",
         ["configurations", "programs"],
         "all placements of conditions on fields, variants, markers, types and implementations x all truth assignments",
         "Tests use two fixed conditions, of which each platform sees one.",
         [T, D], [("derive runs after cfg evaluation", T + ": parse_attribute; " + D + ": parse_derive")],
         observe=["observable fingerprint of the type per configuration versus the pre-evaluated twin"]),
    prop("C17", "Annotating a type does not change the type itself",
         "The annotated type keeps its fields, constructors, size, alignment, field offsets, attributes, derives, documentation and automatic Send, Sync and unwind-safety; without a pinned destructor it needs destruction only if its fields do, "
         "can be destructured and moved out of, and keeps its variance and const-constructibility. Derives and other attribute macros before or after the annotation work as on the plain type.",
         ["programs", "inputs"],
         "all declarations x all instantiations, compared with the same declaration without the annotation",
         "Tests look at single aspects of a few types; nothing compares with the unannotated twin.",
         [T, D], [("item passed through unchanged plus derive", T + ": parse_attribute"), ("no Drop impl", D + ": make_drop_impl")],
         observe=["layout, trait, pattern and move probes on the type and its plain twin"]),
    prop("C18", "Safe use of the generated code never executes undefined behaviour",
         "No history of projections, replacements, moves permitted by the type, drops and panics, from one thread or from several threads working on disjoint projected fields or shared projections, exhibits undefined behaviour: no aliasing violation, "
         "use of freed, uninitialised or misaligned memory, double destruction, leak or data race. All references of one projection can be used simultaneously and interleaved.",
         ["histories", "schedules", "programs"],
         "all histories and schedules over all declarations, observed by an undefined-behaviour interpreter with both aliasing models and by an address sanitizer",
         "Unit tests run uninstrumented and single-threaded; undefined behaviour does not fail them.",
         [D, L], [("unsafe blocks in generated methods", D + ": make_proj_impl, proj_own_body"), ("guards", L + ": __private")],
         observe=["Miri (stacked and tree borrows), AddressSanitizer, token ledger"]),
    prop("C19", "Expansion always ends in code or a compiler error, never in a panic or hang",
         "Whatever tokens follow the attributes or are passed to them, expansion terminates quickly, deterministically and without panicking: it yields either code or ordinary error messages, and whenever it reports no error of its own "
         "the emitted code parses.",
         ["inputs", "programs"],
         "all attribute arguments and all items, including malformed, mutated and hostile ones",
         "No test feeds malformed input.",
         [T, A, D, P, U], [("error plumbing", "pin-project-internal/src/error.rs; " + T + "; " + P), ("internal expectations", U + ": respan; " + P + ": expand_impl")],
         observe=["compiler messages about panicking macros, unparsable output, CPU time"]),
    prop("C20", "Projections borrow exactly as long as the reference they came from",
         "References obtained from a projection may live as long as the pinned reference consumed by it and no longer; while they live, conflicting uses of the value are rejected and disjoint fields can be used together. References in shared projections can be copied and "
         "coexist, reborrowing allows projecting again, and a replacement result borrows nothing from the place.",
         ["programs"],
         "all safe client programs that hold, return, store, interleave or outlive projected references, over all kinds of declaration",
         "Tests only compile correct uses; rejected uses are not run.",
         [D, U], [("lifetime on projection types and methods", D + ": make_proj_impl; " + U + ": insert_lifetime_and_bound")],
         observe=["compiler verdicts on borrow programs and on their legal twins"]),
    prop("C21", "The macros work in any crate configuration without warnings or allowances",
         "Annotated declarations compile, with identical behaviour, in every edition, without the standard library or prelude, with unsafe code forbidden, with all warnings and the compiler's opt-in lints denied, and in scopes where the names of the traits, "
         "types, macros, primitives and crates the expansion could mention are shadowed. The expansion adds no diagnostics of its own to a clean declaration.",
         ["configurations", "programs"],
         "all editions x lint sets x crate attributes x shadowed names x declarations that are clean without the annotation",
         "Tests run in one configuration each; only a few lints and names are tried.",
         [D, P, T], [("absolute paths, allow lists, call-site unsafe", D + ": into_tokens, global_allowed_lints, proj_allowed_lints; " + P + ": expand_impl")],
         observe=["compiler diagnostics with and without the annotation"]),
    prop("C22", "Thread-safety of projections follows the fields they expose",
         "A mutable projection can be sent to or shared with another thread exactly when plain (pinned) mutable references to all its fields could; a shared projection exactly when shared references could; a replacement result exactly when its unpinned fields and the "
         "types of its pinned markers allow. Annotating never makes a type or its projections more or less thread-safe than its declared fields.",
         ["programs", "inputs"],
         "all declarations x all instantiations over thread-safe and thread-unsafe field types, for the type and its three projections",
         "One test asserts a few automatic traits for the original types only.",
         [D], [("projection types store plain references and PhantomData", D + ": visit_fields")],
         observe=["Send/Sync probes of the type and its projections versus a reference tuple"]),
]

TECH = {}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        if i in registry.CHECKS:
            mod, fn, level = registry.CHECKS[i]
            tech, note = registry.NOTES[i]
            checks.append({
                "property": i,
                "quick_cmd": "VERIF_TIER=quick bin/check " + i,
                "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": tech, "level": level, "level_note": note,
            })
        else:
            na.append({"property": i, "reason": "check under construction"})
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the monitors observe the real macros inside the real compiler and the programs they generate through the public API."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
