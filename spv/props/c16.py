import math

from spv import extra, gen, lib, model
from spv.core import require, require_same

EXAMPLES = {"quick": 1000, "thorough": 40000}
RULE = "bone hierarchies with all inheritance modes x 1-3 scalings; non-trivial = a bone that does not inherit scale below the root, with factors other than 1"
ASSUMPTIONS = ["world transforms follow the Spine 3.8 run-time; bones whose parent has a zero or near-zero scale are skipped (division by the parent's scale)",
               "attribute inheritScale/inheritRotation of pre-3.8 documents is not part of the model"]
MODES = ["normal", "onlyTranslation", "noRotationOrReflection", "noScale", "noScaleOrReflection"]
NOT_INHERITING = ("onlyTranslation", "noScale", "noScaleOrReflection")


def generate(g, tier):
    n = g.int(0, 6)
    nm = gen.Names(g, g.bool(0.3))
    simple = g.bool(0.5)

    def geom(b, root=False):
        pool = [0, 1, 10, -5, 33.16] if simple else [0, 1, 10, -5, 33.16, 0.5, 1e-3, 1e4]
        for k in ("x", "y"):
            if g.bool(0.5):
                b[k] = g.pick(pool)
        if g.bool(0.4):
            b["rotation"] = g.pick([0, 90, 45, -30, 180, 270, 12.5])
        for k in ("scaleX", "scaleY"):
            if g.bool(0.35):
                b[k] = g.pick([1, 2, 0.5, -1, 1.0, 3, -0.5, 0])
        if g.bool(0.15):
            b[g.pick(["shearX", "shearY"])] = g.pick([10, -20, 45])
        if g.bool(0.2):
            b["length"] = 12
        return b
    root = geom({"name": "root"}, True)
    if g.bool(0.12):
        root["transform"] = g.pick(MODES)
    bones = [root]
    chain = g.bool(0.6)
    for i in range(n):
        b = {"name": nm.new("bone", avoid=("root",)), "parent": bones[-1]["name"] if chain else g.pick(bones)["name"]}
        geom(b)
        if g.bool(0.6):
            b["transform"] = g.pick(MODES)
        bones.append(b)
    doc = {"skeleton": {"spine": "3.8.59"}, "bones": bones, "slots": [{"name": "s", "bone": bones[-1]["name"], "attachment": "a"}],
           "skins": [{"name": "default", "attachments": {"s": {"a": {"width": 3, "height": 4, "scaleX": 2}}}}],
           "animations": {"an": {"bones": {bones[-1]["name"]: {"scale": [{"x": 2, "y": 3}]}}}}}
    if g.bool(0.12):
        doc = extra.grow(g, doc, gen.Cfg())
    uniform = g.bool(0.6)

    def factor(_):
        f = g.pick([2, 0.5, 1, 3, 0.25, 10, 1.0, 1.5, 1 / 3, 0.001, 1000])
        return [f, f] if uniform else [g.pick([f, 1, -1, 0, -0.5, -2]), g.pick([2, 0.5, 1, -1, 3, 0, -1.5, 0.01])]
    return {"doc": doc, "factors": g.list(1, 3, factor), "uniform": uniform}


def cosd(x):
    return math.cos(math.radians(x))


def sind(x):
    return math.sin(math.radians(x))


def world(doc):
    """{bone: (a, b, c, d, x, y)} following Bone.updateWorldTransform of the Spine 3.8 run-time (skeleton scale 1)."""
    out = {}
    for b in doc["bones"]:
        x, y = b.get("x", 0), b.get("y", 0)
        rot, sx, sy = b.get("rotation", 0), b.get("scaleX", 1), b.get("scaleY", 1)
        hx, hy = b.get("shearX", 0), b.get("shearY", 0)
        if b.get("parent") is None:
            ry = rot + 90 + hy
            out[b["name"]] = (cosd(rot + hx) * sx, cosd(ry) * sy, sind(rot + hx) * sx, sind(ry) * sy, x, y)
            continue
        p = out[b["parent"]]
        if p is None:
            out[b["name"]] = None
            continue
        pa, pb, pc, pd, px, py = p
        wx, wy = pa * x + pb * y + px, pc * x + pd * y + py
        mode = b.get("transform", "normal")
        if mode == "normal":
            ry = rot + 90 + hy
            la, lb, lc, ld = cosd(rot + hx) * sx, cosd(ry) * sy, sind(rot + hx) * sx, sind(ry) * sy
            m = (pa * la + pb * lc, pa * lb + pb * ld, pc * la + pd * lc, pc * lb + pd * ld)
        elif mode == "onlyTranslation":
            ry = rot + 90 + hy
            m = (cosd(rot + hx) * sx, cosd(ry) * sy, sind(rot + hx) * sx, sind(ry) * sy)
        elif mode == "noRotationOrReflection":
            s = pa * pa + pc * pc
            det = abs(pa * pd - pb * pc)
            if s > 1e-9 * (pb * pb + pd * pd + s):
                s = det / s
                pb, pd = pc * s, pa * s
                prx = math.degrees(math.atan2(pc, pa))
            else:
                out[b["name"]] = None
                continue
            rx, ry = rot + hx - prx, rot + hy - prx + 90
            la, lb, lc, ld = cosd(rx) * sx, cosd(ry) * sy, sind(rx) * sx, sind(ry) * sy
            m = (pa * la - pb * lc, pa * lb - pb * ld, pc * la + pd * lc, pc * lb + pd * ld)
        else:
            c, s = cosd(rot), sind(rot)
            za, zc = pa * c + pb * s, pc * c + pd * s
            q = math.hypot(za, zc)
            det = pa * pd - pb * pc
            flat = mode == "noScale" and abs(det) < 1e-9 * (pa * pa + pb * pb + pc * pc + pd * pd)
            if flat or q < 1e-6 * max(abs(pa), abs(pb), abs(pc), abs(pd), 1e-30):
                out[b["name"]] = None
                continue
            za, zc = za / q, zc / q
            q = math.hypot(za, zc)
            flip = mode == "noScale" and det < 0
            if flip:
                q = -q
            r = math.pi / 2 + math.atan2(zc, za)
            zb, zd = math.cos(r) * q, math.sin(r) * q
            la, lb, lc, ld = cosd(hx) * sx, cosd(90 + hy) * sy, sind(hx) * sx, sind(90 + hy) * sy
            m = (za * la + zb * lc, za * lb + zb * ld, zc * la + zd * lc, zc * lb + zd * ld)
        out[b["name"]] = m + (wx, wy)
    return out


def check(case, ctx):
    doc = case["doc"]
    ed = lib.editor(doc)
    before = model.norm(doc)
    fx = fy = 1
    for sx, sy in case["factors"]:
        ed, _ = lib.apply_op(ed, ["scale", sx, sy])
        fx, fy = fx * sx, fy * sy
    after = model.norm(lib.export(ed))
    bones = after.pop("bones")
    want = [dict(b) for b in before.pop("bones")]
    require_same(before, after, "scaling changed something other than the bones")
    require([b["name"] for b in bones] == [b["name"] for b in want], "scaling changed the list of bones")
    for b, w in zip(bones, want):
        scales = b["name"] == "root" or w.get("transform") in NOT_INHERITING
        for k, f in (("scaleX", fx), ("scaleY", fy)):
            x, y = b.get(k, 1), w.get(k, 1) * (f if scales else 1)
            require(math.isclose(x, y, rel_tol=1e-9, abs_tol=1e-12), "%s of bone %r (transform %s) is %r after scaling by %r, expected %r", k, b["name"], w.get("transform"), x, case["factors"], y)
        require_same({k: v for k, v in w.items() if k not in ("scaleX", "scaleY")}, {k: v for k, v in b.items() if k not in ("scaleX", "scaleY")}, "scaling bone %r" % b["name"])
    if all(f == [1, 1] for f in case["factors"]):
        require_same(want, bones, "scaling by 1")
        ctx.label("identity")
    inner = [w for w in want[1:] if w.get("transform") in NOT_INHERITING]
    if inner:
        ctx.label("non-inheriting bone")
        ctx.nt((fx, fy) != (1, 1))
    if want[0].get("transform"):
        ctx.label("root with a mode")
    if case["uniform"] and fx > 0:
        w1, w2 = world({"bones": want}), world({"bones": bones})
        rx, ry = want[0].get("x", 0), want[0].get("y", 0)
        for n in w1:
            if w1[n] is None or w2[n] is None:
                ctx.label("degenerate parent skipped")
                continue
            a, b = list(w1[n]), list(w2[n])
            for v in (a, b):
                v[4] -= rx
                v[5] -= ry
            tol = 1e-6 * max([1e-6] + [abs(x) * fx for x in a] + [abs(x) for x in b])
            for i, what in enumerate("abcdxy"):
                require(abs(a[i] * fx - b[i]) <= tol, "world transform (%s) of bone %r is %.9g after scaling by %g, expected %.9g", what, n, b[i], fx, a[i] * fx)
        ctx.label("world transforms compared")
