import copy

from spv import gen, lib, model
from spv.core import require, require_same
from spv.extra import W, extend, mentioned

EXAMPLES = {"quick": 500, "thorough": 15000}
RULE = ("documents with and without 1-12 additions that have nothing to do with the rest (bones, visible slots with their own attachment, events, skins, constraints, animation content for them, "
        "an animation that is erased first, up to 30 copies of an animation that go when it goes; now and then crowds of 20-110), and the same 1-3 edits; non-trivial = two kinds of additions and an edit removed something")
KINDS = ["bone", "slot", "event", "skin", "constraint", "content", "animation", "skin content"]


def generate(g, tier):
    cfg = gen.focused(g, slots=(0, 6), bones=(0, 4), skins=(0, 3), anims=(1, 3), rich=0.05, consts=0.4, tags=0.1)
    doc = gen.gen_doc(g, cfg)
    adds = []
    own = sorted(n for n in mentioned(doc) if n and "[" not in n and n.lower() not in ("root", "default"))
    slots = [n for n in model.slot_names(doc) if "[" not in n]

    def word(kind):
        if not own or g.bool(0.4):
            return g.pick(W)
        n = g.pick(slots if kind == "slot" and slots and g.bool(0.7) else own)
        return g.pick([n + "2", n + " ", n.upper(), n[:-1] or "q", n + "/" + n, n + "_SLOT", "x" + n, n + "_ATTACHMENT"])
    for _ in range(g.weighted([(4, 1), (4, 2), (3, 4), (2, 8), (1, 12)])):
        kind = g.pick(KINDS)
        adds.append([kind, word(kind), g.int(0, 999), g.bool()])
    if g.bool(0.06):  # a crowd
        kind = g.pick(["bone", "slot", "event", "skin", "constraint"])
        adds += [[kind, "crowd", i, i % 3 == 0] for i in range(g.pick([20, 45, 70, 110]))]
    if doc.get("animations") and g.bool(0.3):
        adds.append(["copies", g.pick(W), g.int(0, 999), g.bool(), g.weighted([(5, 1), (3, 3), (2, 12), (1, 30)])])
    return {"doc": doc, "adds": adds, "ops": gen.gen_ops(g, doc, kinds=("clean", "erase_anims", "erase_skins", "erase_anims", "scale", "reload"), lo=1, hi=3, keep_anim=True)}


def without(doc, new):
    """The document less the additions."""
    d = copy.deepcopy(doc)
    slots, bones, events = set(new["slot"]), set(new["bone"]), set(new["event"])
    d["bones"] = [b for b in d["bones"] if b["name"] not in bones]
    for sec in ("ik", "transform", "path"):
        if sec in d:
            d[sec] = [c for c in d[sec] if c["name"] not in new["con"]]
    d["skins"] = [s for s in d["skins"] if s["name"] not in new["skin"]]
    for s in d["skins"]:
        for n in slots:
            (s.get("attachments") or {}).pop(n, None)
    for n in events:
        (d.get("events") or {}).pop(n, None)
    names = model.slot_names(doc)
    for n in new["copy"]:
        (d.get("animations") or {}).pop(n, None)
    for a in (d.get("animations") or {}).values():
        for n in slots:
            (a.get("slots") or {}).pop(n, None)
        for n in bones:
            (a.get("bones") or {}).pop(n, None)
        if a.get("events"):
            a["events"] = [k for k in a["events"] if k["name"] not in events]
        if a.get("drawOrder"):
            a["drawOrder"] = [[k.get("time") or 0, shown_order(names, k, slots)] for k in a["drawOrder"]]
    if "slots" in d:
        d["slots"] = [s for s in d["slots"] if s["name"] not in slots]
    return pruned(d)


def shown_order(names, k, slots):
    order = model.apply_offsets(names, k.get("offsets") or [])
    require(order is not None, "the offsets %s are not valid for the slots %s", k.get("offsets"), names)
    return [n for n in order if n not in slots]


def pruned(d):
    """Without empty containers, which the additions may leave."""
    for s in d["skins"]:
        if not s.get("attachments"):
            s.pop("attachments", None)
    for a in (d.get("animations") or {}).values():
        for k in [k for k, v in a.items() if v in ({}, [])]:
            del a[k]
    for k in [k for k in ("slots", "events", "ik", "transform", "path", "animations") if not d.get(k)]:
        d.pop(k, None)
    return d


def check(case, ctx):
    doc = case["doc"]
    big, new = extend(doc, case["adds"])
    a, b = lib.editor(doc), lib.editor(big)
    nothing = {k: [] for k in new}
    nothing["copy"] = {}
    if new["anim"]:
        b, r = lib.apply_op(b, ["erase_anims", new["anim"], True, True])
        a, _ = lib.apply_op(a, ["erase_anims", [], True, True])
    own = {model.image_of(k, t) for _, s, k, t in model.skin_atts(big) if s in new["slot"]}
    removed = False
    removed_skins = 0
    for op in [None] + case["ops"]:
        ra = rb = None
        if op:
            was = lib.export(a)
            a, ra = lib.apply_op(a, op)
            if op[0] == "erase_anims":  # and the copies
                op = [op[0], op[1] + [n for n, of in new["copy"].items() if of in op[1]]] + op[2:]
            b, rb = lib.apply_op(b, op)
            removed_skins += len(op[1]) if op[0] == "erase_skins" else 0
        what = "after %s" % op[0] if op else "before any edit"
        x, y = lib.export(a), lib.export(b)
        extra = {k: sorted(set(v))[:9] for k, v in new.items() if v}
        require_same(without(x, nothing), without(y, new), "the document and the one with unrelated additions %s, %s" % (extra, what))
        for n in new["slot"] if removed_skins == 0 else ():
            require(n in model.slot_names(y), "the added visible slot %r disappeared %s", n, what)
        ia, ib = lib.images(a), lib.images(b)
        require_same(dict(ia), {n: e for n, e in ib.items() if n not in own}, "image references %s, with additions %s" % (what, extra))
        if op and op[0] in ("clean", "erase_anims", "erase_skins"):
            require(names_of(op, ra, new) == names_of(op, rb, new), "%s reported %s, with additions %s it reported %s", op[0], names_of(op, ra, new), extra, names_of(op, rb, new))
            removed |= any(names_of(op, ra, new)) or len(lib.export(a).get("slots") or []) < len(was.get("slots") or [])
    kinds = [k for k in new if new[k]]
    for k in kinds:
        ctx.label("added " + k)
    ctx.nt(len(kinds) > 1 and removed)


def names_of(op, r, new):
    """What an operation reports, less the additions."""
    own = set(new["slot"]) | set(new["att"])
    r = [r[1][0], r[1][1]] if op[0] == "erase_anims" else [r[0][0], r[0][1], set(r[1])] if op[0] == "erase_skins" else [r[0], r[1]]
    return [sorted(x for x in y if x not in own and not x.startswith("img ")) for y in r]
