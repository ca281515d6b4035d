import math
import posixpath

from spv import gen, lib, model
from spv.core import require

EXAMPLES = {"quick": 900, "thorough": 30000}
ODD = ["/abs/x", "../x", "a//b", "./x", "x/", "~/x", "C:/x", "a\\b", "/", ".", " x", "x.png", "%s", "{x}", "./images/x"]
RULE = "documents with scale tags in bone and slot names x 0-2 edits; non-trivial = a scale tag on a bone or slot above an image"


def generate(g, tier):
    doc = gen.gen_doc(g, gen.Cfg(bones=(0, 5), slots=(1, 5), skins=(0, 2), tags=0.85, other=0.05, consts=0.1, rich=0.04, big=0))
    if g.bool(0.5):
        doc["skeleton"]["images"] = g.pick(["./images/", "", "./images", "images", "/abs/dir/", "../up", "a b/ü/", "C:/x"])
    if g.bool(0.25):
        for _, _, _, a in model.skin_atts(doc):
            if a.get("type", "region") in ("region", "mesh", "linkedmesh") and g.bool(0.4):
                a[g.pick(["path", "path", "name"])] = g.pick(ODD)
    return {"doc": doc, "ops": gen.gen_ops(g, doc, kinds=("erase_anims", "erase_skins", "clean", "scale"), lo=0, hi=2)}


def look(ed, doc, ctx):
    folder = doc["skeleton"].get("images")
    folder = "./images/" if folder is None else folder
    users = {}
    for sk, sl, k, a in model.skin_atts(doc):
        i = model.image_of(k, a)
        if i is not None:
            users.setdefault(i, set()).add(model.slot_scale(doc, sl))
    for img, entry in lib.images(ed).items():
        require(isinstance(entry, dict) and set(entry) <= {"path", "scale"} and "path" in entry, "entry of image %r is %r", img, entry)
        require(entry["path"] == posixpath.join(folder, img), "path of image %r is %r instead of %r", img, entry["path"], posixpath.join(folder, img))
        scales = users.get(img, set())
        if not scales:
            continue  # property C13
        got = entry.get("scale", 1.0)
        require(any(math.isclose(got, s, rel_tol=1e-9) for s in scales), "scale of image %r is %r, the slots using it have %s", img, got, sorted(scales))
        require(("scale" in entry) == (got != 1.0), "image %r has entry %r: scale must be absent exactly when it is 1", img, entry)
        if scales != {1.0}:
            ctx.nt()
            ctx.label("scaled")
        if len(scales) > 1:
            ctx.label("several scales")
        if 1.0 in scales and len(scales) == 1 and any("[" in s["name"] for s in doc["slots"]):
            ctx.label("tags with product 1")


def check(case, ctx):
    ed = lib.editor(case["doc"])
    look(ed, case["doc"], ctx)
    for op in case["ops"]:
        ed, _ = lib.apply_op(ed, op)
        look(ed, lib.export(ed), ctx)
