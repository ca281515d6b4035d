from spv import gen, lib, model
from spv.core import require, require_same

EXAMPLES = {"quick": 900, "thorough": 30000}
RULE = "documents x 0-3 edits; non-trivial = an image disappeared and another one stayed"


def generate(g, tier):
    doc = gen.gen_doc(g, gen.focused(g, bones=(0, 2), slots=(0, 6), skins=(0, 3), other=0.05, consts=0.15, rich=0.04))
    return {"doc": doc, "ops": gen.gen_ops(g, doc, kinds=("erase_anims", "erase_skins", "clean", "erase_skins", "scale"), lo=0, hi=3, keep_anim=g.bool(0.85))}


def images_match(ed, doc, what):
    got, want = set(lib.images(ed)), model.images_used(doc)
    require(got == want, "image references %s: not used by any attachment but listed %s, used but missing %s", what, sorted(got - want), sorted(want - got))
    again = lib.guard("get_images_references", ed.get_images_references)
    require_same(lib.images(ed), again, "image references %s (left: attribute, right: computed again)" % what)
    return got


def check(case, ctx):
    ed = lib.editor(case["doc"])
    last = images_match(ed, case["doc"], "after loading")
    for op in case["ops"]:
        ed, _ = lib.apply_op(ed, op)
        now = images_match(ed, lib.export(ed), "after %s" % op[0])
        if last - now:
            ctx.label("images removed by " + op[0])
            ctx.nt(bool(now))
        last = now
