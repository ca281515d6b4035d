from spv import gen, lib, model
from spv.core import Hang, require_same

EXAMPLES = {"quick": 600, "thorough": 20000}
RULE = "documents x refused erase calls x later valid edits, against the same edits without the refused calls; non-trivial = the refused list also contained a valid name"


def generate(g, tier):
    doc = gen.gen_doc(g, gen.Cfg(bones=(0, 3), slots=(0, 4), skins=(0, 3), anims=(0, 3)))
    pre = gen.gen_ops(g, doc, kinds=("erase_anims", "clean", "scale", "erase_skins"), lo=0, hi=1)
    anims, skins = model.anim_names(doc), model.skin_names(doc)

    def bad(_):
        kind = g.pick(["anims", "skins", "anims", "skins", "type", "twice"])
        if kind == "twice":
            which = g.pick(["anims", "skins"])
            pool = anims if which == "anims" else [n for n in skins if n != "default" or g.bool(0.3)]
            sel = g.subset(pool, 0.6)
            return ["twice", which, g.shuffled(sel + sel[-1:]), g.bool()]
        if kind == "type":
            return ["type", g.pick(["tuple", "str", "None", "dict", "int", "set"]), g.subset(anims, 0.6), g.bool(), g.bool()]
        pool = anims if kind == "anims" else skins
        sel = g.subset(pool, 0.7)
        x = g.pick(["none such", "", "None", "0"])
        if x in pool:
            x = "really none such"
        for _i in range(g.int(1, 2)):
            sel.insert(g.int(0, len(sel)), x)
        return [kind, sel, g.bool()]
    bads = g.list(1, 2, bad)
    post = gen.gen_ops(g, doc, kinds=("erase_anims", "clean", "erase_skins", "scale"), lo=0, hi=2)
    return {"doc": doc, "pre": pre, "bad": bads, "post": post}


def usable(op, doc):
    """Valid operations only: names already gone are dropped."""
    if op[0] == "erase_anims":
        return [op[0], [n for n in op[1] if n in doc.get("animations", {})], True, op[3]]
    if op[0] == "erase_skins":
        return [op[0], [n for n in op[1] if n in model.skin_names(doc)], op[2]]
    return op


def check(case, ctx):
    ed, ref = lib.editor(case["doc"]), lib.editor(case["doc"])
    for op in case["pre"]:
        ed, _ = lib.apply_op(ed, op)
        ref, _ = lib.apply_op(ref, op)
    for b in case["bad"]:
        before, imgs = lib.export(ed), dict(lib.images(ed))
        if b[0] == "type":
            arg = {"tuple": tuple(b[2]), "str": "".join(b[2]) or "x", "None": None, "dict": {n: 1 for n in b[2]}, "int": 3, "set": set(b[2])}[b[1]]
            lib.refused("erase_animations(%r)" % (arg,), ed.erase_animations, arg, strict_mode=b[3], is_safe_mode=b[4])
        elif b[0] == "anims":
            lib.refused("erase_animations(%r)" % b[1], ed.erase_animations, list(b[1]), strict_mode=True, is_safe_mode=b[2])
            ctx.nt(any(n in before.get("animations", {}) for n in b[1]))
        elif b[0] == "twice":
            # a name asked for twice may be refused or taken for once
            once = list(dict.fromkeys(b[2]))
            op = usable(["erase_anims", once, True, b[3]] if b[1] == "anims" else ["erase_skins", once, b[3]], before)
            if op[1] != once:
                continue
            try:
                if b[1] == "anims":
                    ed.erase_animations(list(b[2]), strict_mode=True, is_safe_mode=b[3])
                else:
                    ed.erase_skins(list(b[2]), is_safe_mode=b[3])
            except Hang:
                raise
            except Exception:
                ctx.label("refused twice")
            else:
                ref, _ = lib.apply_op(ref, op)
                before, imgs = lib.export(ref), dict(lib.images(ref))
                ctx.label("accepted twice")
        else:
            lib.refused("erase_skins(%r)" % b[1], ed.erase_skins, list(b[1]), is_safe_mode=b[2])
            ctx.nt(any(n in model.skin_names(before) for n in b[1]))
        ctx.label("refused " + b[0])
        require_same(before, lib.export(ed), "the refused call %r changed the document" % (b[:2],))
        require_same(imgs, lib.images(ed), "the refused call %r changed the image references" % (b[:2],))
    for op in case["post"]:
        op = usable(op, lib.export(ref))
        ed, r1 = lib.apply_op(ed, op)
        ref, r2 = lib.apply_op(ref, op)
        require_same(lib.export(ref), lib.export(ed), "%s after a refused call gives another document than without it" % op[0])
        require_same(lib.images(ref), lib.images(ed), "%s after a refused call gives other image references than without it" % op[0])
        ctx.label("edited afterwards")
