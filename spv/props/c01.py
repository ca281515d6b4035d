from spv import gen, lib, model
from spv.core import require_same, require

EXAMPLES = {"quick": 900, "thorough": 40000}
RULE = ("structural and attribute-rich documents are loaded and exported; non-trivial = the normalised document has at least "
        "one attribute besides names/structure and the document has at least one skin attachment or animation")
VERS = ["3.8.59", "3.8", "3.8.99", "3.9.0", "4.0.1", "10.2"]


def generate(g, tier):
    if g.bool(0.75):
        cfg = gen.Cfg(rich=0.4, pool=gen.NUMS, bones=(0, 2), slots=(0, 3), skins=(0, 1), anims=(0, 2), modes=0.4, other=0.8, consts=0.6, empties=0.15,
                      versions=VERS)
    else:
        cfg = gen.Cfg(versions=VERS)
    return {"doc": gen.gen_doc(g, cfg)}


def check(case, ctx):
    doc = case["doc"]
    ed = lib.editor(doc)
    out = lib.export(ed)
    require_same(model.norm(doc), model.norm(out), "exported document differs from the loaded one (left: input, right: export)")
    # an export only leaves things out or adds assumed values: order of named things is kept too
    for sec in ("animations", "events"):
        require(list(doc.get(sec, {})) == list(out.get(sec, {})), "order of %s changed", sec)
    for a, b in zip(doc["skins"], out["skins"]):
        want = [k for k, v in (a.get("attachments") or {}).items() if v]
        got = [k for k, v in (b.get("attachments") or {}).items() if v]
        require(want == got, "order of slots in skin %r changed", a["name"])
    ctx.nt(bool(model.skin_atts(doc) or doc.get("animations")))
    for sk, sl, k, a in model.skin_atts(doc):
        ctx.label("att:%s" % a.get("type"))
    for an in doc.get("animations", {}).values():
        for s, v in an.items():
            if v:
                ctx.label("anim:" + s)
    for s in ("ik", "transform", "path", "events"):
        if doc.get(s):
            ctx.label(s)
