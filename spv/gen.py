"""Generators of Spine documents and edit histories. All choices go through G (Hypothesis)."""
from spv import schema as S

NUMS = [0, 1, 2, -1, 10, 0.5, 1.0, 0.0, -0.25, 3.75, 100, 1000, 0.001, 33.16, 1e-7, 12345678901, 3.141592653589793, -180, 360, 255]
SMALL = [0, 1, 2, -1, 10, 0.5, -0.25, 3.75, 100]
TIMES = [0, 0.1, 0.3333, 0.5, 1, 1.0667, 2, 3.5, 10]
COLORS = ["ffffffff", "00000000", "ff0000ff", "ffffff00", "12ab34cd", "ffffff01", "ffffff80", "00ff0010", "FFFFFF00", "ffffff0f", "fffffff0"]
RGB = ["000000", "ffffff", "ff8000"]
WORDS = ["arm", "arm_SLOT", "SLOT", "_SLOT", "a_SLOT_b", "arm_ATTACHMENT", "x_IMAGE", "_IMAGE_1", "BONE", "leg_BONE_2", "1", "10", "2",
         "leg", "leg l", "a.b", "fx/smoke", "ü", "名前", "None", "slot", "attachment", "name", "0", "ATTACHMENT_x", "IMAGE", "x_IK", "\u00e9\"q", "a[b]", "A", "a", "true", "bones", "default2", "root2", "Root", "root/a", "S", "s", "01", "none", "NONE", "null", "Slot", "false", "noScale",
         "{x}", "{0}", "%s", "a\nb", "\u00e9", "e\u0301", "\U0001f600", "x" * 70 + "1", "x" * 70 + "2", "a:b", "a,b", " ", "-", "*", ".*", "\\", "$", "root ", "\ufeffa", "ſ", "ß", "ss", "İ"]
SCALE_TAGS = ["[scale:0.5]", "[ scale : 2 ]", "[scale:1]", "[scale:0.25]", "[scale: 4.0]", "[scale:1.0]", "[scale:3]", "[scale:0.999]", "[scale:1.000001]", "[scale:0.1]"]
STRS = ["", "normal", "stepped", "default", "x", "None", "0", "hello world", "ñ"]


class Cfg:
    def __init__(self, **kw):
        self.bones = (0, 5)
        self.slots = (0, 5)
        self.skins = (0, 3)      # beyond "default"
        self.anims = (1, 3)
        self.rich = 0.08         # probability of each optional attribute
        self.shared = 0.4        # attachment keys shared between slots
        self.odd = 0.3           # odd names
        self.tags = 0.05         # documents with scale tags
        self.big = 0.06          # documents with more than 10 slots/bones/animations
        self.other = 0.5         # probability of bone/constraint/event content in animations
        self.modes = 0.3
        self.foreign = 0.06      # names of attachments that exist nowhere
        self.pool = SMALL
        self.consts = 0.35       # probability of having constraints
        self.empties = 0.08      # explicit empty containers
        self.meshes = 5          # weight of mesh attachments (regions: 9)
        self.links = 0.6         # probability that a mesh gets a linked mesh
        self.versions = ["3.8.59"] * 6 + ["3.8", "3.8.99", "4.0.1", "3.10.2"]
        self.timelines = 0.45    # slots with timelines in an animation
        self.crowd = 0.1         # documents with several more slots, skins, bones ...
        self.blank = 0           # empty names and paths of attachments
        for k, v in kw.items():
            assert hasattr(self, k), k
            setattr(self, k, v)


def focused(g, **kw):
    """A configuration; every other one has slot timelines nearly everywhere and little else."""
    if g.bool():
        return Cfg(**kw)
    lo, hi = kw.get("anims", (2, 4))
    kw.update(timelines=0.85, anims=(max(2, lo), max(4, hi)), slots=(1, 3), bones=(0, 1), other=0.03, big=0.02, rich=0.03)
    return Cfg(**kw)


class Names:
    def __init__(self, g, odd):
        self.g, self.odd = g, odd
        self.used = {}

    def new(self, kind, avoid=()):
        used = self.used.setdefault(kind, set(avoid))
        g = self.g
        if self.odd and g.bool(0.7):
            for _ in range(2):
                w = g.pick(WORDS)
                if kind == "att" and w == "None":
                    continue
                if w not in used:
                    used.add(w)
                    return w
        i = len(used)
        while True:
            w = "%s%d" % (kind, i)
            if w not in used:
                used.add(w)
                return w
            i += 1


def value(g, kind, cfg):
    if kind == "num":
        if cfg.pool is NUMS and g.bool(0.1):
            return g.float()
        return g.pick(cfg.pool)
    if kind == "int":
        if cfg.pool is NUMS and g.bool(0.1):
            return g.pick([9007199254740993, -12345678901234567890])
        return g.pick([0, 1, 2, 5, -1, 1000])
    if kind == "posint":
        return g.pick([4, 1, 3, 12])
    if kind == "bool":
        return g.bool()
    if kind == "true":
        return True
    if kind == "color" or kind == "slotcolor":
        return g.pick(COLORS)
    if kind == "rgb":
        return g.pick(RGB)
    if kind == "blend":
        return g.pick(["normal", "additive", "multiply", "screen"])
    if kind == "transform":
        return g.pick(["normal", "onlyTranslation", "noRotationOrReflection", "noScale", "noScaleOrReflection"])
    if kind == "positionMode":
        return g.pick(["fixed", "percent"])
    if kind == "spacingMode":
        return g.pick(["length", "fixed", "percent"])
    if kind == "rotateMode":
        return g.pick(["tangent", "chain", "chainScale"])
    if kind == "curve":
        return g.weighted([(3, "stepped"), (1, 0), (1, 0.25), (1, 1), (1, 0.5), (1, [0.25, 0, 0.75, 1])])
    if kind in ("nums", "ints"):
        return [g.pick(cfg.pool) if kind == "nums" else g.int(0, 9) for _ in range(g.int(1, 6))]
    if kind == "str":
        return g.pick(STRS)
    if kind == "strne":
        return g.pick(STRS[1:])
    raise AssertionError(kind)


def fill(g, obj, spec, cfg, skip=(), p=None):
    """Optional attributes with probability p each; one draw decides whether there are any at all."""
    p = cfg.rich if p is None else p
    if p <= 0:
        return obj
    if p < 0.3 and not g.bool(min(1.0, 4 * p)):
        return obj
    q = p if p >= 0.3 else 0.25
    for k, (kind, _d) in spec.items():
        if k in obj or k in skip or kind in ("name", "names", "image", "fixed", "time"):
            continue
        if k in ("c2", "c3", "c4") and "curve" not in obj:
            continue
        if g.bool(q):
            obj[k] = value(g, kind, cfg)
    return obj


def times(g, n):
    ts = sorted(set(g.int(0, len(TIMES) - 1) for _ in range(n)))
    return [TIMES[i] for i in ts]


def timed(g, t):
    if t == 0 and g.bool():
        return {}
    return {"time": t}


def gen_keys(g, spec, cfg, lo=1, hi=3, p=None):
    n = g.int(lo, hi)
    return [fill(g, timed(g, t), spec, cfg, p=p) for t in times(g, n)]


def gen_curve(g, k, cfg, p=0.2):
    if g.bool(p):
        k["curve"] = value(g, "curve", cfg)
        if not isinstance(k["curve"], str):
            for c in ("c2", "c3", "c4"):
                if g.bool(0.4):
                    k[c] = g.pick([0, 1, 0.5, 0.25])
    return k


def alpha_color(g):
    return g.weighted([(4, "ffffffff"), (3, "ffffff00"), (1, "ffffff80"), (1, "00000000"), (1, "ffffff01"), (1, "11223344"), (1, "ffffff10")])


def gen_slot_timeline(g, slot, keys, cfg, all_keys):
    tl = {}
    if g.bool(0.75):
        n = g.weighted([(4, 1), (3, 2), (1, 3), (1, 4)])
        ks = []
        ts = times(g, n)
        if cfg.timelines > 0.8 and g.bool():
            ts[0] = 0
        for t in ts:
            k = timed(g, t)
            if g.bool(0.4) or not keys:
                if g.bool(0.8):
                    k["name"] = None
            elif g.bool(cfg.foreign):
                k["name"] = g.pick(all_keys + ["gone"]) if cfg.shared else "gone"
            else:
                k["name"] = g.pick(keys)
            ks.append(k)
        tl["attachment"] = ks
    if g.bool(0.25):
        tl["color"] = [gen_curve(g, dict(timed(g, t), color=alpha_color(g)), cfg) for t in times(g, g.int(1, 3))]
    if g.bool(0.12):
        tl["twoColor"] = [gen_curve(g, dict(timed(g, t), light=alpha_color(g), dark=g.pick(RGB)), cfg) for t in times(g, g.int(1, 2))]
    if cfg.empties and g.bool(cfg.empties):
        for c in ("attachment", "color", "twoColor"):
            if c not in tl and g.bool(0.4):
                tl[c] = []
    return tl


def gen_offsets(g, names):
    """A valid draw-order keyframe: final order and a sufficient set of listed slots, in slot order."""
    mode = g.int(0, 3)
    order = list(names)
    if mode == 0 or len(names) < 2:
        pass
    elif mode == 1:
        i = g.int(0, len(order) - 1)
        x = order.pop(i)
        order.insert(g.int(0, len(order)), x)
    elif mode == 2:
        for _ in range(2):
            x = order.pop(g.int(0, len(order) - 1))
            order.insert(g.int(0, len(order)), x)
    else:
        order = g.shuffled(order)
    pos = {n: i for i, n in enumerate(names)}
    last, listed = -1, set()
    for n in order:
        # an unlisted slot must keep its set-up order relative to the other unlisted ones
        if pos[n] > last and g.bool(0.75):
            last = pos[n]
        else:
            listed.add(n)
    return [{"slot": n, "offset": order.index(n) - pos[n]} for n in names if n in listed]


def gen_doc(g, cfg=None):
    cfg = cfg or Cfg()
    odd = g.bool(cfg.odd)
    nm = Names(g, odd)
    tags = g.bool(cfg.tags)

    def tagged(n):
        return n + g.pick(SCALE_TAGS) if tags and g.bool(0.4) else n

    doc = {}
    skel = {"spine": g.pick(cfg.versions), "hash": "h"}
    if g.bool(0.6):
        skel["images"] = g.pick(["./images/", "", "./images", "images", "/abs/dir/"])
    if g.bool(0.2):
        skel["x"] = g.pick(cfg.pool)
        skel["unknown"] = {"a": [1, None, {"b": "c"}]}
    doc["skeleton"] = skel

    # bones
    big = g.bool(cfg.big)
    which_big = g.pick(["slots", "bones", "anims", "skins"]) if big else None
    nb = g.int(10, 13) if which_big == "bones" else g.int(*cfg.bones)
    root = fill(g, {"name": "root"}, S.BONE, cfg, skip=("transform", "inheritRotation", "inheritScale"))
    bones = [root]
    chain = g.bool(0.5)
    for i in range(nb):
        def bone():
            b = {"name": tagged(nm.new("bone", avoid=("root",))),
                 "parent": bones[-1]["name"] if chain else bones[g.int(0, len(bones) - 1)]["name"]}
            fill(g, b, S.BONE, cfg, skip=("transform",))
            if g.bool(cfg.modes):
                b["transform"] = value(g, "transform", cfg)
            return b
        bones.append(g.span(bone))
    doc["bones"] = bones
    bnames = [b["name"] for b in bones]

    # slots and their possible attachment names
    lo_slots = max(cfg.slots[0], 0 if g.bool(0.05) else 1)
    ns = g.int(11, 14) if which_big == "slots" else g.int(lo_slots, cfg.slots[1])
    shared = g.bool(cfg.shared)
    key_pool = []
    if shared:
        key_pool = [nm.new("att") for _ in range(g.int(1, 4))]
    slots, keys_of = [], {}
    for i in range(ns):
        def slot():
            n = tagged(nm.new("slot"))
            s = {"name": n, "bone": g.pick(bnames)}
            if shared:
                keys = [k for k in key_pool if g.bool(0.6)] or [g.pick(key_pool)]
            else:
                keys = [nm.new("att") for _ in range(g.weighted([(4, 1), (3, 2), (1, 3)] if cfg.timelines < 0.8 else [(2, 1), (4, 2), (2, 3)]))]
            keys_of[n] = keys
            r = g.int(0, 9)
            if r < 6:
                s["attachment"] = g.pick(keys)
            elif r == 6 and g.bool(0.3):
                s["attachment"] = "gone" if g.bool() or not shared else g.pick(key_pool)
            elif r == 7:
                s["attachment"] = None
            if g.bool(0.3):
                s["color"] = alpha_color(g)
            if g.bool(0.08):
                s["dark"] = g.pick(RGB)
            if g.bool(0.12):
                s["blend"] = value(g, "blend", cfg)
            return s
        slots.append(g.span(slot))
    doc["slots"] = slots
    snames = [s["name"] for s in slots]

    # skins
    images = [nm.new("img") for _ in range(g.int(1, 5))]
    skins = []
    names = ["default"] if g.bool(0.9) else []
    names += [nm.new("skin", avoid=("default",)) for _ in range(g.int(11, 13) if which_big == "skins" else g.int(*cfg.skins))]

    def image_attrs(a):
        r = g.int(0, 5)
        if r >= 5 or r == 3:
            a["name"] = g.pick(images)
        if r >= 4:
            a["path"] = g.pick(images)
        elif cfg.blank and g.bool(cfg.blank):
            a["path"] = ""  # no path of its own
        if r < 3 and cfg.blank and g.bool(cfg.blank):
            a["name"] = ""
        return a

    meshes = []
    fillp = cfg.rich
    for sk in names:
        atts = {}
        for sl in snames:
            if not g.bool(0.65):
                continue
            d = {}
            for key in keys_of[sl]:
                if not g.bool(0.8):
                    continue

                def att():
                    t = g.weighted([(9, None), (cfg.meshes, "mesh"), (1, "path"), (1, "point"), (1, "clipping"), (1, "boundingbox")] + ([(1, "region")] if fillp > 0.1 else []))
                    if t is None or t == "region":
                        a = image_attrs({"width": g.int(1, 64), "height": g.int(1, 64)} if g.bool(0.8) else {})
                        if t:
                            a["type"] = t
                        return fill(g, a, S.REGION, cfg)
                    if t == "mesh":
                        a = image_attrs({"type": "mesh", "uvs": [0, 0, 1, g.int(0, 9)], "triangles": [0, 1, g.int(0, 3)],
                                         "vertices": [g.int(0, 99), 1.5, 2], "hull": g.int(3, 9)})
                        if g.bool():
                            a["edges"] = [0, 2, g.int(0, 9)]
                        if g.bool(0.7):
                            a["width"], a["height"] = g.int(1, 64), g.int(1, 64)
                        meshes.append((sk, sl, key))
                        return fill(g, a, S.MESH, cfg)
                    a = {"type": t}
                    if t != "point":
                        a["vertexCount"] = g.int(1, 4)
                        a["vertices"] = [g.int(0, 9), 1]
                    if t == "path":
                        a["lengths"] = [1, 2.5]
                    if t == "clipping" and g.bool(0.7):
                        a["end"] = g.pick(snames)
                    return fill(g, a, S.ATT[t], cfg)
                d[key] = g.span(att)
            if d or (cfg.empties and g.bool(cfg.empties)):
                atts[sl] = d
        sk_obj = {"name": sk}
        if atts or g.bool():
            sk_obj["attachments"] = atts
        skins.append(sk_obj)
    # linked meshes: parent = some mesh of the same slot, possibly in another skin, possibly under another key
    for sk, sl, key in meshes:
        if not skins or not g.bool(cfg.links):
            continue
        target = g.pick(skins)
        k2 = key if g.bool(0.6) else g.pick(keys_of[sl])
        if "attachments" not in target:
            continue
        slot_d = target["attachments"].setdefault(sl, {})
        old = slot_d.get(k2)
        if (target["name"], sl, k2) == (sk, sl, key) or (old and old.get("type") in ("mesh", "linkedmesh")):
            if not slot_d:
                del target["attachments"][sl]
            continue
        a = image_attrs({"type": "linkedmesh", "parent": key})
        if sk != "default":
            a["skin"] = sk
        elif g.bool(0.5):
            a["skin"] = "default"
        if g.bool(0.7):
            a["width"], a["height"] = g.int(1, 64), g.int(1, 64)
        slot_d[k2] = fill(g, a, S.LINKED, cfg)
    doc["skins"] = skins
    index = {(s["name"], sl, k): a for s in skins for sl, d in s.get("attachments", {}).items() for k, a in d.items()}

    # events and constraints
    events = {}
    if g.bool(0.3):
        for _ in range(g.int(1, 2)):
            events[nm.new("event")] = fill(g, {}, S.EVENT, cfg, p=max(cfg.rich, 0.35))
    if events or g.bool(cfg.empties):
        doc["events"] = events
    iks, trs, pths = [], [], []
    if len(bnames) > 1 and g.bool(cfg.consts):
        for _ in range(g.int(1, 2)):
            b = g.pick(bnames[1:])
            iks.append(fill(g, {"name": nm.new("ik"), "bones": [b], "target": g.pick([x for x in bnames if x != b])}, S.IK, cfg, p=max(cfg.rich, 0.15)))
    if len(bnames) > 1 and g.bool(cfg.consts):
        trs.append(fill(g, {"name": nm.new("tr"), "bones": [g.pick(bnames[1:])], "target": g.pick(bnames)}, S.TRANSFORM, cfg, p=max(cfg.rich, 0.15)))
    if snames and len(bnames) > 1 and g.bool(cfg.consts):
        cand = [sl for (_, sl, _), a in index.items() if a.get("type") == "path"]
        pths.append(fill(g, {"name": nm.new("pc"), "bones": [g.pick(bnames[1:])], "target": g.pick(cand) if cand and g.bool(0.7) else g.pick(snames)}, S.PATH, cfg, p=max(cfg.rich, 0.15)))
    for sec, lst in (("ik", iks), ("transform", trs), ("path", pths)):
        if lst or g.bool(cfg.empties):
            doc[sec] = lst

    # animations
    anims = {}
    na = g.int(11, 12) if which_big == "anims" else g.int(*cfg.anims)
    all_keys = sorted({k for ks in keys_of.values() for k in ks})
    deformable = [i for i, a in index.items() if a.get("type") in ("mesh", "linkedmesh", "path", "boundingbox", "clipping")]
    for _ in range(na):
        def anim():
            a = {}
            tls = {}
            for s in slots:
                if g.bool(cfg.timelines):
                    tls[s["name"]] = gen_slot_timeline(g, s, keys_of[s["name"]], cfg, all_keys)
            if tls or g.bool(cfg.empties):
                a["slots"] = tls
            if g.bool(0.3) and snames:
                a["drawOrder"] = []
                for t in times(g, g.int(1, 3)):
                    k = timed(g, t)
                    offs = gen_offsets(g, snames)
                    if offs or g.bool():
                        k["offsets"] = offs
                    a["drawOrder"].append(k)
            if deformable and g.bool(0.4):
                dd = {}
                for _ in range(g.int(1, 2)):
                    sk, sl, key = g.pick(deformable)
                    dd.setdefault(sk, {}).setdefault(sl, {})[key] = [
                        gen_curve(g, fill(g, dict(timed(g, t), vertices=[g.int(0, 9), 1.5]) if g.bool(0.8) else timed(g, t), S.K_DEFORM, cfg), cfg) for t in times(g, g.int(1, 2))]
                a["deform"] = dd
            if g.bool(cfg.other):
                bt = {}
                for b in g.subset(bnames, 0.4):
                    one = {}
                    for t in ("rotate", "translate", "scale", "shear"):
                        if g.bool(0.35):
                            one[t] = gen_keys(g, S.TIMELINES["bones"][t], cfg, p=max(cfg.rich, 0.3))
                    bt[b] = one
                if bt:
                    a["bones"] = bt
                for lst, sec, spec in ((iks, "ik", S.K_IK), (trs, "transform", S.K_TRANSFORM)):
                    for c in lst:
                        if g.bool(0.6):
                            a.setdefault(sec, {})[c["name"]] = gen_keys(g, spec, cfg, p=max(cfg.rich, 0.3))
                for c in pths:
                    if g.bool(0.6):
                        t = g.pick(["position", "spacing", "mix"])
                        a.setdefault("path", {})[c["name"]] = {t: gen_keys(g, S.TIMELINES["path"][t], cfg, p=max(cfg.rich, 0.3))}
                if events and g.bool(0.6):
                    a["events"] = []
                    for k in gen_keys(g, S.EVENTKEY, cfg, p=max(cfg.rich, 0.3)):
                        a["events"].append(dict(k, name=g.pick(sorted(events))))
                        while g.bool(0.2):  # several events at one time, possibly the same one twice
                            k = {"time": k["time"]} if "time" in k else {}
                            a["events"].append(dict(fill(g, k, S.EVENTKEY, cfg, p=max(cfg.rich, 0.3)), name=g.pick(sorted(events))))
            return a
        anims[nm.new("anim")] = g.span(anim)
    if anims or g.bool():
        doc["animations"] = anims
    if cfg.crowd and g.bool(cfg.crowd):
        from spv import extra
        doc = extra.grow(g, doc, cfg)
    return doc


def gen_op(g, doc_anims, doc_skins, kinds, keep_anim=True):
    """One valid operation given the remaining names; returns (op, anims, skins)."""
    k = g.pick(kinds)
    if k == "erase_anims":
        pool = list(doc_anims)
        chosen = [a for a in pool if g.bool(0.5)]
        if keep_anim and len(chosen) == len(pool) and chosen:
            chosen.pop(g.int(0, len(chosen) - 1))
        chosen = g.shuffled(chosen)
        strict = g.bool(0.7)
        if not strict and g.bool():
            chosen.insert(g.int(0, len(chosen)), "no such animation")
        rest = [a for a in pool if a not in chosen]
        return ["erase_anims", chosen, strict, g.bool(0.3)], rest, doc_skins
    if k == "erase_skins":
        pool = [s for s in doc_skins if s != "default" or g.bool(0.15)]
        chosen = g.shuffled([s for s in pool if g.bool(0.5)])
        rest = [s for s in doc_skins if s not in chosen]
        return ["erase_skins", chosen, g.bool(0.3)], doc_anims, rest
    if k == "scale":
        return ["scale", g.pick([1, 2, 0.5, 1.0, 3, -1, 0.25]), g.pick([1, 2, 0.5, 1.0, 3, -1, 0.25])], doc_anims, doc_skins
    return [k], doc_anims, doc_skins


def gen_ops(g, doc, kinds=("erase_anims", "erase_skins", "clean", "scale", "reload"), lo=1, hi=3, keep_anim=True):
    anims = list(doc.get("animations", {}))
    skins = [s["name"] for s in doc["skins"]]
    state = {"a": anims, "s": skins}

    def one(_i):
        op, state["a"], state["s"] = gen_op(g, state["a"], state["s"], list(kinds), keep_anim)
        return op
    return g.list(lo, hi, one, cont=0.65)
