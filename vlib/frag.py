"""Declarations delivered as fragments of a declarative macro: the compiler then hands
types, names, visibilities and lifetimes to the attribute in groups of their own."""
import re

MARK = re.compile("\x01([a-z]+)\x02(.*?)\x03", re.S)


def mark(kind, text):
    return "\x01%s\x02%s\x03" % (kind, text)


def strip(src):
    return MARK.sub(lambda m: m.group(2), src)


def deliver(rng, src, name="deliver", p=0.6):
    """`src` with some of its marked pieces passed to a macro_rules! macro that writes the rest."""
    got = []

    def one(m):
        if rng.random() > p:
            return m.group(2)
        got.append((m.group(1), m.group(2)))
        return "$x%d " % (len(got) - 1)
    body = MARK.sub(one, src)
    if not got:
        return body
    pars = "".join("$x%d:%s, " % (i, k) for i, (k, _) in enumerate(got))
    return "macro_rules! %s { (%s) => {\n%s\n} }\n%s! { %s }\n" % (name, pars, body, name, "".join(t + ", " for _, t in got))
