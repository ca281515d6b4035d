import copy

from spv import gen, lib, model, schema as S
from spv.core import require, require_same
from spv.props.c04 import at, sites
from spv.props.c27 import spec_of

EXAMPLES = {"quick": 600, "thorough": 20000}
RULE = ("every attribute of every object is read through the typed model, then 1-5 attributes are changed through it, then 0-2 edits; "
        "non-trivial = a changed attribute was absent from the document")
SKIP = ("name", "names", "fixed", "time")
ALWAYS = {"bones": ("x", "y", "rotation", "scaleX", "scaleY", "shearX", "shearY", "transform", "length")}


def spec(label):
    if label in ("bones", "slots", "ik", "transform", "path"):
        return {"bones": S.BONE, "slots": S.SLOT, "ik": S.IK, "transform": S.TRANSFORM, "path": S.PATH}[label]
    if label == "event":
        return S.EVENT
    if label == "offset":
        return S.OFFSET
    if label.startswith("attachment "):
        t = label.split(" ", 1)[1]
        return S.ATT[None if t == "None" else t]
    if label.startswith("key "):
        return spec_of(label)
    return {}


def generate(g, tier):
    rich = g.bool(0.5)
    cfg = gen.Cfg(slots=(0, 4), bones=(0, 3), skins=(0, 2), anims=(1, 2), big=0, other=0.8 if rich else 0.3, consts=0.6 if rich else 0.2, rich=g.pick([0.05, 0.3]))
    doc = gen.gen_doc(g, cfg)
    places = [(l, p) for l, p in sites(doc) if spec(l)]
    labels = sorted({l for l, _ in places})

    ops = gen.gen_ops(g, doc, kinds=("erase_anims", "erase_skins", "clean", "clean", "scale"), lo=0, hi=3)
    moved = []

    def edit(_):
        lab = g.pick(labels)
        path = g.pick([p for l, p in places if l == lab])
        if lab == "offset":     # an arbitrary offset is no valid draw order
            entries, names = at(doc, path[:-1]), [s["name"] for s in doc["slots"]]
            taken = [names.index(o["slot"]) + o["offset"] for o in entries]
            own = names.index(at(doc, path)["slot"])
            free = [n - own for n in range(len(names)) if n not in taken]
            if not free or path[:-1] in moved:
                return ["bones", ["bones", 0], "y", 5]
            moved.append(path[:-1])
            return [lab, path, "offset", g.pick(free)]
        attrs = [k for k, (kind, _d) in spec(lab).items() if kind not in SKIP]
        if not attrs:
            return ["bones", ["bones", 0], "x", 7]
        k = g.pick(attrs)
        kind = spec(lab)[k][0]
        if kind in ("nums", "ints") and g.bool(0.5):
            return [lab, path, k, None]
        v = g.pick(["new image", "img0"]) if kind == "image" else gen.value(g, kind, cfg)
        return [lab, path, k, v]
    return {"doc": doc, "edits": g.list(1, 5, edit), "ops": ops,
            "later": [[g.int(0, 999) for _ in range(3)] for _ in range(g.int(0, 5))]}


LATER = {"num": [7, 0, 1, -2.5], "int": [0, 5], "posint": [4, 1], "bool": [True, False], "true": [True], "color": ["11223344", "ffffff00", None], "slotcolor": ["ffffff00", "ffffffff", None],
         "rgb": ["112233", None], "blend": ["additive", None], "transform": ["noScale", "normal"], "curve": ["stepped", 0.5], "str": ["later"], "strne": ["later"], "image": ["later", "img0"]}
UNSET = {("slots", "color"), ("slots", "dark"), ("slots", "blend")}


def later(ed, ref, pick, ctx):
    """One more change through the model between two edits, and the same in the exported document of the reference."""
    want = lib.export(ed)
    places = sites(want)
    labels = sorted({l for l, _ in places if l != "offset" and any(kind in LATER for kind, _ in spec(l).values())})
    lab = "slots" if pick[0] % 3 == 0 and "slots" in labels else labels[pick[0] % len(labels)]
    paths = [p for l, p in places if l == lab]
    path = paths[pick[1] % len(paths)]
    attrs = [k for k, (kind, _d) in spec(lab).items() if kind in LATER]
    k = attrs[pick[2] % len(attrs)]
    values = LATER[spec(lab)[k][0]]
    v = values[pick[2] // len(attrs) % len(values)]
    obj, src = walk(ed.spine_anim_data.data, path), at(want, path)
    if v is None:
        if (lab, k) not in UNSET:
            return ref
        src.pop(k, None)
    else:
        src[k] = v
    lib.guard("setting %s at %s" % (k, path), setattr, obj, k, v)
    ctx.label("changed between edits")
    require_same(model.norm(want), model.norm(lib.export(ed)), "export after an edit and then setting %s at %s to %r through the typed model (left: expected)" % (k, path, v))
    return lib.editor(want)


def check(case, ctx):
    doc = case["doc"]
    ed = lib.editor(doc)
    other = lib.editor(doc)
    data = lib.guard("reading the typed model", lambda: ed.spine_anim_data.data)
    for label, path in sites(doc):
        src, obj = at(doc, path), walk(data, path)
        for k, (kind, d) in spec(label).items():
            got = lib.guard("attribute %s of %s" % (k, path), getattr, obj, k)
            want = src.get(k)
            if want is not None:
                require_same(want, got, "%s of the typed object at %s" % (k, path))
                require_same(want, lib.guard("get", obj.get, k, "other"), "get(%r) of the typed object at %s" % (k, path))
                continue
            if k == "time" or k in ALWAYS.get(label, ()):
                require_same(d, got, "%s (absent from the document) of the typed object at %s" % (k, path))
            elif got is not None and got is not False and got not in ("", [], {}):
                require(d is not S.NODEF and got == d and isinstance(got, bool) == isinstance(d, bool), "%s at %s is absent from the document and reads as %r", k, path, got)
            if got is None:
                require(obj.get(k, "fallback") == "fallback", "get(%r, 'fallback') of the typed object at %s without that value is %r", k, path, obj.get(k, "fallback"))
    want = copy.deepcopy(doc)
    for label, path, k, v in case["edits"]:
        src, obj = at(want, path), walk(data, path)
        if src.get(k) is None:
            ctx.nt()
        if v is None:
            got = getattr(obj, k)
            if got is None:
                continue
            got.append(5)
            v = list(src.get(k) or []) + [5]
            ctx.label("changed in place")
        else:
            lib.guard("setting %s at %s" % (k, path), setattr, obj, k, copy.deepcopy(v))
        src[k] = v
        ctx.label("changed " + label)
        require_same(model.norm(want), model.norm(lib.export(ed)), "export after setting %s at %s to %r through the typed model (left: expected)" % (k, path, v))
    require_same(model.norm(doc), model.norm(lib.export(other)), "export of another editor of the same document after changing this one's typed model")
    ref = lib.editor(want)
    picks = list(case.get("later", []))
    for n, op in enumerate(case["ops"]):
        if n:
            for pick in picks[(n - 1) * 2:n * 2]:
                ref = later(ed, ref, pick, ctx)
        ed, _ = lib.apply_op(ed, op)
        ref, _ = lib.apply_op(ref, op)
        ctx.label("then " + op[0])
        require_same(lib.export(ref), lib.export(ed), "%s after changing the typed model (left: on an editor of the changed document)" % op[0])
    require_same(lib.guard("get_images_references", ref.get_images_references), lib.guard("get_images_references", ed.get_images_references), "image references after changing the typed model (left: of an editor of the changed document)")


def walk(data, path):
    for x in path:
        data = data[x] if isinstance(data, (dict, list)) else getattr(data, x)
    return data
