import math

from spv import lib
from spv.core import require

EXAMPLES = {"quick": 3000, "thorough": 150000}
RULE = "names assembled from fragments of tags, brackets, colons, numbers, white space and other text; non-trivial = the name contains at least one well-formed [tag: value] group"
FRAG = ["[scale:0.5]", "[ scale : 2 ]", "[scale:1]", "[scale:0.25]", "[speed:3]", "[scale:abc]", "[scale:1.2.3]", "[scale:.5]", "[scale:5.]", "[scale: ]", "[scale:]",
        "[ scale:0.5", "scale:0.5]", "[scale 0.5]", "[scale:0.5 ]", "[", "]", ":", "scale", "0.5", " ", "arm", "[x]", "[scale:-1]", "[scale:1e3]", "[scale:1_0]",
        "[Scale:2]", "[scale:1 0]", "[sca le:2]", "[ü:2]", "[scale:٣]", "[scale-x:2]", "\t", "\n", "[a:b:c]", "[scale:nan]", "[scale:inf]", "[scale:1e999]", "[scale:infinity]", "[scale:NaN]", "[scale:1e300]", "[scale:1,5]", "[[scale:2]]", "[:2]", "[scale::2]",
        "[scale:00.50]", "[scale:\n2\n]", "[-:1]"]


def generate(g, tier):
    if g.bool(0.3):
        alpha = "[]:. s0c1-a\t_"
        return {"name": "".join(g.pick(["[", "]", ":", "scale", ".", "0", "1", " ", "5", "a", "-", "_"]) for _ in range(g.int(0, 12)))}
    if g.bool(0.3):
        return {"name": "".join(group(g) if g.bool(0.6) else g.pick(FRAG) for _ in range(g.int(1, 3)))}
    return {"name": "".join(g.pick(FRAG) for _ in range(g.int(0, 5)))}


SPACES = ["", "", "", " ", "  ", "\t", "\n", "\r\n", "\u00a0", "\u2003", "\x0b", "\x0c", "\x1c", " \t "]


def group(g):
    """A group with any white space at its four places, mostly a scale."""
    tag = g.pick(["scale"] * 8 + ["Scale", "scale-x", "scale_", "SCALE", "-", "scales", "\u0455cale", "speed", "scale2"])
    value = g.pick(["2", "0.5", "1", "16", "0", ".5", "5.", "1_0", "1__0", "00.50", "1e3", "1E3", "0x10", "\u0663", "\u00bd", "\u00b2", "2 5", "1.2.3", "_1", "nan", "inf", "."])
    return "[%s%s%s:%s%s%s]" % (g.pick(SPACES), tag, g.pick(SPACES), g.pick(SPACES), value, g.pick(SPACES))


def word(c):
    return c.isalnum() or c == "_"


def groups(name):
    """Hand-written scanner of [tag: value] groups, leftmost first, not overlapping.

    tag: word characters and '-', value: word characters, '.' and white space (at least one of them, after the colon);
    white space is allowed around both.
    """
    out, i, n = [], 0, len(name)
    while i < n:
        if name[i] != "[":
            i += 1
            continue
        j = i + 1
        while j < n and name[j].isspace():
            j += 1
        k = j
        while k < n and (word(name[k]) or name[k] == "-"):
            k += 1
        tag = name[j:k]
        while k < n and name[k].isspace():
            k += 1
        if not tag or k >= n or name[k] != ":":
            i += 1
            continue
        v = k + 1
        e = v
        while e < n and (word(name[e]) or name[e] == "." or name[e].isspace()):
            e += 1
        if e >= n or name[e] != "]" or e == v:
            i += 1
            continue
        out.append((tag, name[v:e].strip()))
        i = e + 1
    return out


def expected(name):
    res = {}
    for tag, value in groups(name):
        if tag in res or tag != "scale":
            return None
        try:
            res[tag] = float(value)
        except ValueError:
            return None
        if not math.isfinite(res[tag]):
            return None     # "nan", "inf", "1e999": no finite number
    return res


def check(case, ctx):
    name = case["name"]
    gs = groups(name)
    want = expected(name)
    ctx.nt(bool(gs))
    ctx.label("refused" if want is None else "%d tags" % len(want))
    if want is None:
        e = lib.refused("the name %r" % name, lib.get_tags_from_name, name)
        require(isinstance(e, ValueError), "name %r raised %s instead of a value error", name, type(e).__name__)
        return
    got = lib.guard("get_tags_from_name(%r)" % name, lib.get_tags_from_name, name)
    require(set(got) == set(want), "tags of %r are %r, expected %r", name, got, want)
    for k in want:
        require(isinstance(got[k], float) and got[k] == want[k], "tag %s of %r is %r, expected %r", k, name, got[k], want[k])
    # what a caller does with the answer has no influence on the next one
    got.clear()
    got["scale"] = -7.0
    again = lib.guard("get_tags_from_name(%r)" % name, lib.get_tags_from_name, name)
    require(again == want, "tags of %r are %r the second time, expected %r", name, again, want)
