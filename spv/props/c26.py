from spv import gen, lib, model
from spv.core import require, require_same

EXAMPLES = {"quick": 900, "thorough": 25000}
RULE = "documents x an injective renaming of every namespace x 1-3 edits; non-trivial = a renamed slot or attachment disappeared and a renamed slot remained"
POOL = [w for w in gen.WORDS if w != "None" and "[" not in w] + ["default", "root", "SLOT_1", "x_SLOT_SLOT", "a_IMAGE_ATTACHMENT", "BONE_", "ATTACHMENT_", "_BONE", "name", "skins", "slots", "attachments", "a_b", "11", "-1", "nan", "🦴", "a\\b", "slot0", "att0", "bone0", "skin0"]
GROUPS = ("slot", "bone", "att", "skin", "anim", "event", "con")


def collect(doc):
    out = {k: [] for k in GROUPS}

    def add(k, n):
        if n is not None and n not in out[k]:
            out[k].append(n)
    for b in doc["bones"]:
        add("bone", b["name"])
    for s in doc.get("slots", []):
        add("slot", s["name"])
        add("att", s.get("attachment"))
    for s in doc["skins"]:
        add("skin", s["name"])
    for _, _, k, a in model.skin_atts(doc):
        add("att", k)
        if a.get("type") != "path":
            add("att", a.get("name"))
        add("att", a.get("path"))
    for n, a in doc.get("animations", {}).items():
        add("anim", n)
        for tl in a.get("slots", {}).values():
            for k in tl.get("attachment", []):
                add("att", k.get("name"))
    for n in doc.get("events", {}):
        add("event", n)
    for sec in ("ik", "transform", "path"):
        for c in doc.get(sec, []):
            add("con", c["name"])
    return out


FIXED = {"bone": ("root",), "skin": ("default",), "att": ("None", "")}


def generate(g, tier):
    doc = gen.gen_doc(g, gen.focused(g, tags=0, slots=(1, 5), skins=(0, 2), bones=(0, 3), rich=0.05, other=0.25, consts=0.4))
    names = collect(doc)
    maps = {}
    style = g.pick(["mixed", "permute", "words", "suffix", "swap groups"])
    everything = [n for k in GROUPS for n in names[k] if n not in ("root", "default", "None", "") and "[" not in n]
    for k in GROUPS:
        fixed = FIXED.get(k, ())
        todo = [n for n in names[k] if n not in fixed]
        if style == "permute" or (style == "mixed" and g.bool(0.3)):
            maps[k] = dict(zip(todo, g.shuffled(todo)))
            continue
        m, used = {}, set(fixed)
        for i, n in enumerate(todo):
            for attempt in range(4):
                if style == "suffix" or (style == "mixed" and g.bool(0.3)):
                    w = n + g.pick(["_SLOT", "_ATTACHMENT", "_IMAGE", "_BONE", "1", "_", "/x", " "])
                elif style == "swap groups":
                    w = g.pick(everything) if everything else "x"
                else:
                    w = g.pick(POOL)
                if w not in used and "[" not in w:
                    break
            else:
                w = "n%d" % i
                while w in used:
                    w += "_"
            used.add(w)
            m[n] = w
        maps[k] = m
    return {"doc": doc, "maps": maps, "ops": gen.gen_ops(g, doc, kinds=("clean", "erase_anims", "erase_skins", "clean", "scale", "reload"), lo=1, hi=3, keep_anim=g.bool(0.9))}


def renamed(doc, maps):
    def r(k, n):
        return maps[k].get(n, n) if n is not None else None

    def sub(o, **keys):
        return {a: (r(keys[a], v) if a in keys else v) for a, v in o.items()}
    d = dict(doc)
    d["bones"] = [sub(b, name="bone", parent="bone") for b in doc["bones"]]
    if "slots" in doc:
        d["slots"] = [sub(s, name="slot", bone="bone", attachment="att") for s in doc["slots"]]

    def att(a):
        t = a.get("type")
        if t == "linkedmesh":
            return sub(a, name="att", path="att", parent="att", skin="skin")
        if t == "clipping":
            return sub(a, end="slot")
        if t in model.IMAGE_TYPES:
            return sub(a, name="att", path="att")
        return a
    d["skins"] = []
    for s in doc["skins"]:
        s = sub(s, name="skin")
        if s.get("attachments"):
            s["attachments"] = {r("slot", sl): {r("att", k): att(a) for k, a in at.items()} for sl, at in s["attachments"].items()}
        d["skins"].append(s)
    for sec in ("ik", "transform", "path"):
        if sec in doc:
            d[sec] = [dict(sub(c, name="con", target="slot" if sec == "path" else "bone"), bones=[r("bone", b) for b in c["bones"]]) for c in doc[sec]]
    if "events" in doc:
        d["events"] = {r("event", n): e for n, e in doc["events"].items()}
    if "animations" in doc:
        d["animations"] = {}
        for n, a in doc["animations"].items():
            a = dict(a)
            if "bones" in a:
                a["bones"] = {r("bone", x): t for x, t in a["bones"].items()}
            if "slots" in a:
                a["slots"] = {r("slot", x): {y: ([sub(k, name="att") for k in ks] if y == "attachment" else ks) for y, ks in t.items()} for x, t in a["slots"].items()}
            for sec in ("ik", "transform", "path"):
                if sec in a:
                    a[sec] = {r("con", x): t for x, t in a[sec].items()}
            if "events" in a:
                a["events"] = [sub(k, name="event") for k in a["events"]]
            if "drawOrder" in a:
                a["drawOrder"] = [dict(k, offsets=[sub(o, slot="slot") for o in k["offsets"]]) if k.get("offsets") else k for k in a["drawOrder"]]
            if "deform" in a:
                a["deform"] = {r("skin", s): {r("slot", sl): {r("att", k): v for k, v in d2.items()} for sl, d2 in d1.items()} for s, d1 in a["deform"].items()}
            d["animations"][r("anim", n)] = a
    return d


def renamed_op(op, maps):
    if op[0] == "erase_anims":
        return [op[0], [maps["anim"].get(n, n) for n in op[1]]] + op[2:]
    if op[0] == "erase_skins":
        return [op[0], [maps["skin"].get(n, n) for n in op[1]]] + op[2:]
    return op


def report(op, r, maps):
    """What an operation reports, as sets of names after renaming."""
    if op[0] in ("scale", "reload"):
        return []
    imgs = set()
    if op[0] == "erase_anims":
        r = r[1]
    elif op[0] == "erase_skins":
        r, imgs = r
    return [sorted(maps["slot"].get(x, x) for x in r[0]), sorted(maps["att"].get(x, x) for x in r[1]), sorted({maps["att"].get(x, x) for x in imgs})]


def check(case, ctx):
    maps = case["maps"]
    none = {k: {} for k in GROUPS}
    doc = case["doc"]
    a, b = lib.editor(doc), lib.editor(renamed(doc, maps))
    moved = {k for k in GROUPS if any(x != y for x, y in maps[k].items())}
    for op in case["ops"]:
        op2 = renamed_op(op, maps)
        if op[0] == "erase_anims" and any(n not in maps["anim"] and n in maps["anim"].values() for n in op[1]):
            return
        a, ra = lib.apply_op(a, op)
        b, rb = lib.apply_op(b, op2)
        want, got = lib.export(a), lib.export(b)
        require_same(renamed(want, maps), got, "%s after renaming (left: edited then renamed, right: renamed then edited)" % op[0])
        x, y = report(op, ra, maps), report(op2, rb, none)
        require(x == y, "%s reported %s, after renaming %s", op[0], x, y)
        require(sorted(maps["att"].get(n, n) for n in lib.images(a)) == sorted(lib.images(b)),
                "image references after %s: %s, with renamed names %s", op[0], sorted(lib.images(a)), sorted(lib.images(b)))
    out = lib.export(a)
    lost = set(model.slot_names(doc)) - set(model.slot_names(out)) or len(model.skin_atts(out)) < len(model.skin_atts(doc))
    ctx.nt(bool(lost) and bool(out.get("slots")) and bool({"slot", "att"} & moved))
    for k in moved:
        ctx.label("renamed " + k)
    if lost:
        ctx.label("something removed")
