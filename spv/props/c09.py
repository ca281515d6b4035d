from spv import gen, lib, model
from spv.core import require

EXAMPLES = {"quick": 800, "thorough": 25000}
RULE = "referentially consistent documents x 1-4 edits; non-trivial = an edit removed a slot, attachment or skin while references of a checked kind exist"


def generate(g, tier):
    cfg = gen.focused(g, blank=0.04, slots=(1, 6), skins=(0, 3), consts=0.4, other=0.3)
    doc = gen.gen_doc(g, cfg)
    return {"doc": doc, "ops": gen.gen_ops(g, doc, kinds=("erase_anims", "clean", "erase_skins", "clean", "reload", "scale"), lo=1, hi=4, keep_anim=g.bool(0.85))}


def check(case, ctx):
    bad = model.dangling(case["doc"])
    assert not bad, bad
    ed = lib.editor(case["doc"])
    last = lib.export(ed)
    for op in case["ops"]:
        ed, _ = lib.apply_op(ed, op)
        out = lib.export(ed)
        bad = model.dangling(out)
        require(not bad, "after %s the export has dangling references: %s", op[0], bad[:5])
        if len(model.skin_atts(out)) < len(model.skin_atts(last)) or len(out.get("slots", [])) < len(last.get("slots", [])):
            ctx.nt()
            ctx.label("removed by " + op[0])
            for t in ("linkedmesh", "clipping"):
                if any(a.get("type") == t for _, _, _, a in model.skin_atts(out)):
                    ctx.label(t + " remains")
            for sec in ("ik", "transform", "path"):
                if out.get(sec):
                    ctx.label(sec + " remains")
            for an in out.get("animations", {}).values():
                for sec in ("deform", "drawOrder"):
                    if an.get(sec):
                        ctx.label(sec + " remains")
        last = out
