"""Engine D: accept/reject verdicts of the real compiler on generated programs.

A program is written once; lines ending in `//~` belong to the attack and
lines ending in `//=` to its harmless twin.  The attack must be rejected, the
twin accepted, so that a rejection for an unrelated reason cannot pass for a
detection.
"""
from . import core


class Prog:
    __slots__ = ("name", "src", "accept", "kw", "key", "why")

    def __init__(self, name, src, accept, key=None, why="", **kw):
        self.name, self.src, self.accept, self.kw, self.key, self.why = name, src, accept, kw, key or name, why


def attack(name, src, why="", key=None, **kw):
    a = "\n".join(l for l in src.split("\n") if not l.rstrip().endswith("//="))
    t = "\n".join(l for l in src.split("\n") if not l.rstrip().endswith("//~"))
    assert a != t, name
    return [Prog(name, a, False, key, why, **kw), Prog(name + "/twin", t, True, key and key + "/twin", why, **kw)]


def accept(name, src, why="", key=None, **kw):
    return [Prog(name, src, True, key, why, **kw)]


def reject(name, src, why="", key=None, **kw):
    return [Prog(name, src, False, key, why, **kw)]


def decide(c, progs, jobs=core.JOBS):
    """Runs all programs; records violations. Returns number of programs."""
    progs = list(progs)

    def one(p):
        try:
            r = c.rustc(p.src, name=p.name, **p.kw)
        except core.Inconclusive as e:
            c.inconclusive("%s: %s" % (p.name, e))
            return
        got = r.ok
        c.case(p.key, True)
        c.count("accepted" if got else "rejected")
        if r.status == "cpu":
            c.violate("hang/" + p.name, "expansion or compilation does not end within %d CPU seconds" % core.CPU_LIMIT, src=p.src)
        elif got != p.accept:
            if p.accept:
                c.violate("rejected/" + p.name, "%s: legal program rejected: %s" % (p.name, r.brief()), src=p.src, why=p.why)
            else:
                c.violate("accepted/" + p.name, "%s: program accepted that must be rejected (%s)" % (p.name, p.why), src=p.src)
        elif not got:
            with c.lk:
                for code in r.codes() or ["macro-error"]:
                    k = "reject_codes"
                    c.cov.setdefault(k, {})
                    c.cov[k][code] = c.cov[k].get(code, 0) + 1
        import shutil, os
        shutil.rmtree(os.path.dirname(r.path), ignore_errors=True)
    core.pmap(one, progs, jobs)
    for p in progs[:1] + progs[len(progs) // 2:len(progs) // 2 + 2]:
        c.sample({"program": p.name, "expected": "accept" if p.accept else "reject", "source": p.src[-900:]})
    return len(progs)


def error_lines(r):
    """Line numbers of main.rs that any error points at (through macro expansions)."""
    out = set()

    def walk(sp):
        while sp:
            if sp.get("file_name", "").endswith("main.rs"):
                for l in range(sp["line_start"], sp["line_end"] + 1):
                    out.add(l)
            e = sp.get("expansion")
            sp = e and e.get("span")
    for d in r.errors:
        for sp in d.get("spans", []):
            if sp.get("is_primary"):
                walk(sp)
        for ch in d.get("children", []):
            for sp in ch.get("spans", []):
                if sp.get("is_primary"):
                    walk(sp)
    return out


def reject_batch(c, items, per=60, head="", collect=None, **kw):
    """items: (name, module source, why). Every module is put on one line of a
    shared program; each line must carry an error.  A line without one is
    compiled alone before it counts as accepted (and then goes to `collect`, if given)."""
    import os
    import shutil
    items = list(items)
    groups = [items[i:i + per] for i in range(0, len(items), per)]

    def one(g):
        try:
            hl = head.rstrip("\n")
            n0 = len(hl.split("\n")) if hl else 0
            lines = ["pub mod k%d { %s }" % (i, " ".join(x[1].split("\n"))) for i, x in enumerate(g)]
            src = (hl + "\n" if hl else "") + "\n".join(lines) + "\n"
            r = c.rustc(src, name="rejects", **kw)
            bad = error_lines(r) if r.status == "ok" else set()
            for i, x in enumerate(g):
                c.case("reject/" + x[0], True)
                if n0 + i + 1 in bad:
                    c.count("rejected")
                    continue
                solo = (hl + "\n" if hl else "") + "pub mod k0 {\n%s\n}\n" % x[1]
                ri = c.rustc(solo, name=x[0], **kw)
                c.count("isolated")
                if ri.status == "cpu":
                    c.violate("hang/" + x[0], "compilation does not end within %d CPU seconds" % core.CPU_LIMIT, src=solo)
                elif ri.ok and collect is not None:
                    collect.append(x)
                elif ri.ok:
                    c.violate("accepted/" + x[0], "%s: program accepted that must be rejected (%s)" % (x[0], x[2]), src=solo)
                else:
                    c.count("rejected")
                shutil.rmtree(os.path.dirname(ri.path), ignore_errors=True)
            shutil.rmtree(os.path.dirname(r.path), ignore_errors=True)
        except core.Inconclusive as e:
            c.inconclusive(str(e))
    core.pmap(one, groups)
    for x in items[:1] + items[len(items) // 2:len(items) // 2 + 1]:
        c.sample({"rejected": x[0], "source": x[1][:600]})
    return len(items)


def accept_batch(c, items, per=30, **kw):
    """items: (name, module source). Compiled together; a failing batch is split."""
    from . import suite
    suite.run_suite(c, [suite.Case(n, s, runs=False) for n, s in items], per=per, kind="accepted_program", **kw)
