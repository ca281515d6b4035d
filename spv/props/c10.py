from spv import gen, lib, model
from spv.core import require

EXAMPLES = {"quick": 900, "thorough": 30000}
RULE = "documents x 1-3 cleaning edits that leave at least one animation; non-trivial = something was removed and something that could be removed was kept"
ASSUMPTIONS = ["at least one animation remains (without any animation nothing is shown and everything is removed)"]


def generate(g, tier):
    doc = gen.gen_doc(g, gen.focused(g, bones=(0, 2), slots=(1, 6), skins=(0, 2), anims=(1, 3), other=0.05, consts=0.25, empties=0.15))
    ops = gen.gen_ops(g, doc, kinds=("clean", "erase_anims", "erase_skins"), lo=1, hi=3)
    return {"doc": doc, "ops": ops}


def keys(doc):
    return {(sk, sl, k) for sk, sl, k, _ in model.skin_atts(doc)}


def check(case, ctx):
    ed = lib.editor(case["doc"])
    before = case["doc"]
    for op in case["ops"]:
        base, cleans = model.after_op(before, op)
        ed, r = lib.apply_op(ed, op)
        after = lib.export(ed)
        after.setdefault("slots", [])
        gone = set(model.slot_names(base)) - set(model.slot_names(after))
        gone_atts = keys(base) - keys(after)
        require(keys(after) <= keys(base), "attachments appeared after %s: %s", op[0], sorted(keys(after) - keys(base)))
        if not cleans:
            require(not gone, "%s in safe mode removed slots %s", op[0], sorted(gone))
            require(not gone_atts, "%s in safe mode removed attachments %s", op[0], sorted(gone_atts))
        elif base.get("animations"):
            slots, names = model.clean_expected(base)
            require(gone == slots, "%s removed slots %s, the unused ones are %s", op[0], sorted(gone), sorted(slots))
            want = {x for x in keys(base) if x[1] in slots or x[2] in names}
            require(gone_atts == want, "%s removed attachments: wrongly removed %s, wrongly kept %s", op[0], sorted(gone_atts - want), sorted(want - gone_atts))
            rep = r if op[0] == "clean" else r.result_summary if op[0] == "erase_anims" else r[0]
            require(sorted(rep[0]) == sorted(gone), "%s reported removed slots %s but %s disappeared", op[0], sorted(rep[0]), sorted(gone))
            require(sorted(rep[1]) == sorted(names), "%s reported removed attachments %s but the unused ones are %s", op[0], sorted(rep[1]), sorted(names))
            require(model.slot_names(after) == [s for s in model.slot_names(base) if s not in slots], "%s reordered the slots", op[0])
            if slots:
                ctx.label("slots removed")
                ctx.nt(len(slots) < len(base["slots"]))
            if names:
                ctx.label("attachments removed")
                ctx.nt(bool(keys(after)))
            if {s for s in model.slot_names(after)} - {sl for _, sl, _ in keys(after)}:
                ctx.label("needed slot without attachments kept")
        before = after
