"""Engine A: run generated declarations under the monitor runtime."""
import os
import re
from . import core, decl

# violation class -> properties that it refutes
CLASS = {
    "proj": {"C01"},
    "kind-pinned": {"C01", "C02"},
    "kind-unpinned": {"C01"},
    "moved": {"C02"},
    "replace": {"C03"},
    "replace-panic": {"C04"},
    "drop": {"C05"},
    "double": {"C18"},
    "leak": {"C03", "C04", "C05"},
}


BIG = [(257, 1), (257, 1), (257, 0), (300, 1), (65, 1), (65, 0)]


def gen_batch(rng, base, n, focus):
    ds = []
    for i in range(n):
        nested = [d for d in ds if d.vis in ("pub ", "pub(crate) ", "pub(super) ", "pub(in crate) ")][-6:]
        ds.append(decl.gen(rng, base + i, focus, nested))
    return ds


def parse_out(out):
    vs, stats = [], {}
    for line in out.splitlines():
        p = line.split("\t")
        if p[0] == "V" and len(p) >= 4:
            vs.append((p[1], p[2], p[3]))
        elif p[0] == "S":
            stats[p[1]] = dict(kv.split("=", 1) for kv in p[2:] if "=" in kv)
    return vs, stats


def deps_closure(d, ds):
    """Modules that d's source refers to."""
    by = {x.mod: x for x in ds}
    need, todo = [], [d]
    while todo:
        x = todo.pop()
        if x in need:
            continue
        need.append(x)
        for v in x.variants:
            for f in v.fields:
                m = re.search(r"super::(m\d+)::I", f.ty)
                if m:
                    todo.append(by[m.group(1)])
    return sorted(need, key=lambda x: x.idx)


def run_batch(c, ds, seed, histories, steps, edition, on_violation, art=None, run_env=None, extra=(), wrap=None):
    """Compiles and runs one batch; falls back to single declarations when a batch is rejected."""
    art = art or c.art
    src = decl.program(ds, seed, histories, steps)
    r = core.rustc(art, c.wd.path, src, name="batch", edition=edition, emit="link", crate_type="bin",
                   extra=["-C", "debuginfo=0", "-C", "codegen-units=8"] + list(extra))
    c.count("compiler_runs")
    if not r.ok:
        bad = []
        for d in ds:
            grp = deps_closure(d, ds)
            s1 = decl.program(grp, seed, histories, steps)
            r1 = core.rustc(art, c.wd.path, s1, name="single", edition=edition, emit="metadata", crate_type="bin")
            if not r1.ok:
                bad.append(d)
                on_violation(d, "rejected", "a declaration within the documented rules does not compile: " +
                             (r1.brief() or r1.status), s1)
        good = [d for d in ds if d not in bad and not any(b in deps_closure(d, ds) for b in bad)]
        if not bad:
            raise core.Inconclusive("batch rejected but every member compiles alone: " + r.brief())
        if not good:
            return
        src = decl.program(good, seed, histories, steps)
        r = core.rustc(art, c.wd.path, src, name="batch", edition=edition, emit="link", crate_type="bin",
                       extra=["-C", "debuginfo=0"] + list(extra))
        if not r.ok:
            return
        ds = good
    rc, out, err, st = core.run((wrap or []) + [r.out], timeout=240, cpu=120, env=core.env_clean(run_env) if run_env else None)
    try:
        os.unlink(r.out)
    except OSError:
        pass
    by = {d.mod: d for d in ds}
    vs, stats = parse_out(out)
    for mod, cls, msg in vs:
        d = by[mod]
        on_violation(d, cls, msg, decl.program(deps_closure(d, ds), seed, histories, steps))
    for d in ds:
        st1 = stats.get(d.mod)
        if st1:
            c.case(decl.shape(d), nontrivial=any(f.pinned for v in decl.live_variants(d) for f in v.live),
                   n=int(st1.get("histories", 0)))
            for k in ("checks", "events", "injected"):
                c.count("monitor_" + k, int(st1.get(k, 0)))
            c.count("abstract_states", int(st1.get("states", 0)))
            for k, v in st1.items():
                if k not in ("histories", "checks", "events", "injected", "states"):
                    c.count("op_" + k, int(v))
    c.count("declarations", len(stats))
    if "END" not in out.splitlines()[-1:]:
        if st == "timeout":
            raise core.Inconclusive("monitored program timed out")
        # the process died: the first subject without statistics was running
        cur = next((d for d in ds if d.mod not in stats), ds[-1])
        on_violation(cur, "crash", "monitored program died (rc=%s %s): %s" % (rc, st, err[-600:]),
                     decl.program(deps_closure(cur, ds), seed, histories, steps))


def campaign(c, props, focus, batches, per, histories, steps, rej_any=True):
    """Runs a campaign; reports only classes that refute one of `props`."""
    c.rule = ("random declarations (kind, fields, pin mask, generics, argument list, attributes, cfg, nesting) driven through random "
              "histories of project/project_ref/set/project_replace/move/drop with injected destructor panics; an evaluation is one history; "
              "non-trivial = declaration with at least one pinned field, distinct by (kind, arguments, generics, per-variant pin mask)")
    others = {}

    def on_v(d, cls, msg, src):
        hit = cls in ("rejected", "crash") and rej_any or (CLASS.get(cls, set()) & props)
        if hit:
            c.violate("%s/%s" % (cls, d.mod), "%s: %s" % (cls, msg), src=src, declaration=decl.decl_src(d) + decl.impls_src(d))
        else:
            others[cls] = others.get(cls, 0) + 1

    def one(i):
        import random
        rng = random.Random("%s/%s/%d" % (c.prop, c.seed, i))
        f = focus[i % len(focus)]
        if i >= batches:
            # more parts than small counters can number: fields of structs and variants, variants
            ds = [decl.gen(rng, i * 1000, f, big=BIG[i - batches])]
            run_batch(c, ds, c.seed * 31 + i, 3, 8, "2021", on_v)
            return
        ds = gen_batch(rng, i * 1000, per, f)
        if i < 3:
            c.sample({"declaration": decl.decl_src(ds[per // 2]) + decl.impls_src(ds[per // 2])})
        run_batch(c, ds, c.seed * 31 + i, histories, steps, ["2021", "2018", "2024", "2021"][i % 4], on_v)

    errs = []

    def safe(i):
        try:
            one(i)
        except core.Inconclusive as e:
            errs.append(str(e))
    core.pmap(safe, [batches + k for k in range(len(BIG))] + list(range(batches)))
    for e in errs:
        c.inconclusive(e)
    if others:
        c.cov["alarms_of_other_properties"] = others


GRULE = ("; declarations of the C15 grammar instantiated with types of logged destructors are driven through projection, "
         "replacement and drop (instantiated_declarations), each next to a plain twin that has to compile")


def c01(c):
    from . import c15, extras, grun
    extras.run_extra(c, extras.DST, {"C01"}, CLASS)
    c15.typed(c, c.pick(3000, 30000))
    grun.campaign(c, c.pick(700, 7000))
    campaign(c, {"C01"}, ["project", None], c.pick(80, 500), 22, c.pick(25, 80), 14)
    c.rule += GRULE


def c03(c):
    campaign(c, {"C03"}, ["replace"], c.pick(80, 500), 22, c.pick(30, 100), 16)
    from . import c15, grun
    c15.typed(c, c.pick(2000, 20000))
    grun.campaign(c, c.pick(700, 7000), "replace")
    c.rule += GRULE + "; the types of all parts of the replacement results of random generic declarations are stated and compared"


def c04(c):
    campaign(c, {"C04"}, ["replace"], c.pick(80, 500), 22, c.pick(20, 60), 16)
    c.rule += "; per variant every pinned destructor is made to panic once (op_replace_panic counts the injected faults)" + GRULE
    from . import grun
    grun.campaign(c, c.pick(700, 7000), "replace")


def c05(c):
    from . import extras, grun
    extras.run_extra(c, extras.DST, {"C05"}, CLASS)
    grun.campaign(c, c.pick(700, 7000), "drop")
    campaign(c, {"C05"}, ["pdrop", "pdrop", None], c.pick(80, 500), 22, c.pick(30, 100), 12)
    c.rule += "; per variant every destructor of a plain drop (body and fields) is made to panic once; drop routes are the op_end_* counters" + GRULE
