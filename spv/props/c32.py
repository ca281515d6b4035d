import copy
import json
import os
import shutil
import tempfile

from spv import gen, lib, model
from spv.core import require, require_same

EXAMPLES = {"quick": 700, "thorough": 15000}
RULE = ("documents, the same documents spelled otherwise (key order, decimals, hexadecimal case, formatting and escapes of the file, order of skins and constraints), and the same 1-3 edits of both; "
        "non-trivial = the other spelling differs in at least two ways and an edit changed the document")
WAYS = ["keys", "decimals", "case", "lists", "file"]
DECIMAL = {"x", "y", "rotation", "scaleX", "scaleY", "shearX", "shearY", "length", "width", "height", "time", "angle", "mix", "position", "spacing", "rotateMix", "translateMix",
           "scaleMix", "shearMix", "softness", "c2", "c3", "c4", "curve", "volume", "balance", "float", "uvs", "vertices", "lengths"}
LISTS = ("skins", "ik", "transform", "path")


def generate(g, tier):
    if g.bool(0.5):
        cfg = gen.Cfg(slots=(1, 6), bones=(0, 4), skins=(0, 3), anims=(0, 3), rich=g.pick([0.05, 0.2]), consts=0.5, tags=0.15)
    else:
        # several animations and what they show, little else
        cfg = gen.Cfg(slots=(1, 3), bones=(0, 1), skins=(0, 2), anims=(2, 4), rich=0, consts=0.15, other=0.1, big=0.02, odd=0.1, timelines=0.85)
    doc = gen.gen_doc(g, cfg)
    ways = [w for w in WAYS if g.bool(0.6)] or ["keys"]
    return {"doc": doc, "ways": ways, "seed": [g.int(0, 255) for _ in range(24)], "ops": gen.gen_ops(g, doc, lo=1, hi=3, keep_anim=g.bool(0.9))}


class Stream:
    """Deterministic choices from a short list of numbers."""

    def __init__(self, seed):
        self.s, self.i = seed, 0

    def next(self, n):
        self.i += 1
        v = self.s[self.i % len(self.s)] + 31 * self.i
        return (v * 2654435761 >> 7) % n

    def shuffle(self, xs):
        xs = list(xs)
        for i in range(len(xs) - 1, 0, -1):
            j = self.next(i + 1)
            xs[i], xs[j] = xs[j], xs[i]
        return xs


def respell(x, ways, st, key=None):
    if isinstance(x, dict):
        items = list(x.items())
        if "keys" in ways:
            items = items[::-1] if st.next(3) == 0 else st.shuffle(items)
        return {k: respell(v, ways, st, k) for k, v in items}
    if isinstance(x, list):
        return [respell(v, ways, st, key) for v in x]
    if "decimals" in ways and key in DECIMAL and isinstance(x, (int, float)) and not isinstance(x, bool) and x == int(x) and abs(x) < 2 ** 50:
        return float(x) if isinstance(x, int) else int(x)
    if "case" in ways and key in ("color", "light", "dark") and isinstance(x, str):
        return "".join(c.upper() if st.next(2) else c.lower() for c in x)
    return x


def in_file(doc, st, tmp):
    text = json.dumps(doc, ensure_ascii=st.next(2) == 0, indent=[None, 1, "\t"][st.next(3)], separators=[(",", ":"), (", ", ": "), (" ,\n", " :\t")][st.next(3)])
    how = st.next(3)
    if how == 0:
        text = text.replace("/", "\\/")
    elif how == 1:
        text = text.replace('"s', '"\\u0073').replace('"n', '"\\u006E')
    text = ["", "\n", "  "][st.next(3)] + text + ["", "\n", " \r\n"][st.next(3)]
    p = os.path.join(tmp, "doc.json")
    with open(p, "w", encoding="utf-8", newline="") as f:
        f.write(text)
    return lib.guard("from_json_file", lib.SpineAnimationEditor.from_json_file, p)


def plain(doc, ways):
    """The document without what the spelling may change."""
    def low(x, key=None):
        if isinstance(x, dict):
            return {k: low(v, k) for k, v in x.items()}
        if isinstance(x, list):
            return [low(v, key) for v in x]
        if "case" in ways and key in ("color", "light", "dark") and isinstance(x, str):
            return x.lower()
        return x
    d = low(doc)
    if "lists" in ways:
        for s in LISTS:
            if s in d:
                d[s] = sorted(d[s], key=lambda o: o["name"])
    return d


def image_view(doc, imgs):
    """Image references; the scale of an image used by slots of different scales is not compared (C14 says it is one of them)."""
    scales = {}
    for _, slot, key, a in model.skin_atts(doc):
        if a.get("type") in model.IMAGE_TYPES:
            scales.setdefault(model.image_of(key, a), set()).add(model.slot_scale(doc, slot))
    out = {}
    for n, e in imgs.items():
        e = dict(e)
        if len(scales.get(n, ())) > 1:
            e.pop("scale", None)
        out[n] = e
    return out


def reports(op, r):
    if r is None:
        return []
    if op[0] == "erase_anims":
        return [sorted(x) for x in r[1]]
    if op[0] == "erase_skins":
        return [sorted(x) for x in r[0]] + [sorted(set(r[1]))]
    return [sorted(x) for x in r]


def check(case, ctx):
    doc, ways = case["doc"], case["ways"]
    st = Stream(case["seed"])
    other = respell(doc, ways, st)
    if "lists" in ways:
        for s in LISTS:
            if s in other:
                other[s] = st.shuffle(other[s])
    a = lib.editor(copy.deepcopy(doc))
    tmp = tempfile.mkdtemp(prefix="spv-c32-")
    try:
        b = in_file(other, st, tmp) if "file" in ways else lib.editor(other)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    changed = False
    for n, op in enumerate([None] + case["ops"]):
        ra = rb = None
        before = lib.export(a)
        if op:
            a, ra = lib.apply_op(a, op)
            b, rb = lib.apply_op(b, op)
        what = "after %s" % op[0] if op else "on loading"
        x, y = lib.export(a), lib.export(b)
        changed |= x != before
        require_same(plain(x, ways), plain(y, ways), "the document and the same one spelled otherwise (%s), %s" % (", ".join(ways), what))
        if op:
            require(reports(op, ra) == reports(op, rb), "%s reported %s, for the other spelling (%s) %s", op[0], reports(op, ra), ", ".join(ways), reports(op, rb))
        require_same(image_view(x, lib.images(a)), image_view(x, lib.images(b)), "image references %s, with the other spelling (%s)" % (what, ", ".join(ways)))
        if "lists" not in ways:
            for sec in ("bones", "slots", "ik", "transform", "path", "skins"):
                require([o["name"] for o in x.get(sec) or []] == [o["name"] for o in y.get(sec) or []], "order of %s differs %s", sec, what)
    for w in ways:
        ctx.label(w)
    ctx.nt(len(ways) > 1 and changed)
