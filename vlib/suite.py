"""Engine B: batches of self-checking client modules, compiled and run.

A case is the contents of a module with a `pub fn run()`; it reports through
`vrt::ck(cond, || message)`.  A batch that is rejected is retried case by case,
so one rejection is pinned to one case.
"""
import os
import shutil
from . import core


class Case:
    __slots__ = ("name", "src", "key", "nontrivial", "runs")

    def __init__(self, name, src, key=None, nontrivial=True, runs=True):
        self.name, self.src, self.key, self.nontrivial, self.runs = name, src, key or name, nontrivial, runs


HEAD = """#![allow(warnings)]
"""


def program(cases, head="", tail=""):
    s = HEAD + head
    for i, k in enumerate(cases):
        s += "pub mod k%d {\n%s\n}\n" % (i, k.src)
    s += tail
    s += "fn main() {\n    vrt::quiet();\n"
    for i, k in enumerate(cases):
        if k.runs:
            s += "    vrt::case(%d, k%d::run);\n" % (i, i)
        else:
            s += "    vrt::case(%d, || vrt::ck(true, || String::new()));\n" % i
    return s + "    println!(\"END\");\n}\n"


def run_suite(c, cases, per=20, edition="2021", head="", kind="case", extra=(), externs=("pin_project", "vrt"), art=None, env=None):
    cases = list(cases)
    art = art or c.art
    groups = [cases[i:i + per] for i in range(0, len(cases), per)]

    def comp(g):
        return core.rustc(art, c.wd.path, program(g, head), name="suite", edition=edition, emit="link", crate_type="bin",
                          extra=["-C", "debuginfo=0"] + list(extra), externs=externs, env=env)

    def execute(g, r):
        rc, out, err, st = core.run([r.out], timeout=240, cpu=120)
        seen = set()
        for line in out.splitlines():
            p = line.split("\t")
            if p[0] == "V":
                k = g[int(p[1])]
                c.violate("behaviour/" + k.name, "%s: %s" % (k.name, p[2]), src=program([k], head))
            elif p[0] == "K":
                k = g[int(p[1])]
                seen.add(int(p[1]))
                c.case(k.key, k.nontrivial and int(p[2]) > 0)
                c.count("observations", int(p[2]))
        if "END" not in out.splitlines()[-1:]:
            if st == "timeout":
                raise core.Inconclusive("suite timed out")
            i = min([i for i in range(len(g)) if i not in seen] or [len(g) - 1])
            c.violate("crash/" + g[i].name, "%s: program died (rc=%s %s): %s" % (g[i].name, rc, st, err[-500:]), src=program([g[i]], head))

    def one(g):
        try:
            r = comp(g)
            if r.ok:
                execute(g, r)
            elif len(g) == 1:
                c.violate("rejected/" + g[0].name, "%s: legal program rejected: %s" % (g[0].name, r.brief() or r.status), src=program(g, head))
                c.case(g[0].key, g[0].nontrivial)
            else:
                good = []
                for k in g:
                    rk = core.rustc(art, c.wd.path, program([k], head), name="one", edition=edition, emit="metadata",
                                    crate_type="bin", extra=list(extra), externs=externs, env=env)
                    if rk.ok:
                        good.append(k)
                    else:
                        c.violate("rejected/" + k.name, "%s: legal program rejected: %s" % (k.name, rk.brief() or rk.status), src=program([k], head))
                        c.case(k.key, k.nontrivial)
                if len(good) == len(g):
                    raise core.Inconclusive("batch rejected, members accepted: " + r.brief())
                if good:
                    r = comp(good)
                    if r.ok:
                        execute(good, r)
            shutil.rmtree(os.path.dirname(r.path), ignore_errors=True)
        except core.Inconclusive as e:
            c.inconclusive(str(e))
    core.pmap(one, groups)
    c.count(kind + "s", len(cases))
    for k in cases[:1] + cases[len(cases) // 2:len(cases) // 2 + 1]:
        c.sample({kind: k.name, "source": k.src[:1200]})
