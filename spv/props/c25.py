from spv import gen, lib, model
from spv.core import require_same

EXAMPLES = {"quick": 200, "thorough": 15000}
RULE = "documents without attachment names shared between slots x a set of animations erased in several groupings and orders x skins before/after; non-trivial = at least two animations erased and a slot or attachment disappeared"


def generate(g, tier):
    doc = gen.gen_doc(g, gen.focused(g, shared=0, foreign=0, slots=(1, 6), bones=(0, 2), skins=(0, 3), anims=(3, 5), rich=0.04, other=0.1, consts=0.3, big=0.03))
    names = model.anim_names(doc)
    sel = [n for n in names if g.bool(0.7)]
    if len(sel) == len(names):
        sel.pop(g.int(0, len(sel) - 1))
    order = g.shuffled(sel)
    groups, rest = [], g.shuffled(sel)
    while rest:
        k = g.int(1, len(rest))
        groups.append([rest[:k], g.bool(0.4)])
        rest = rest[k:]
    skins = [s for s in model.skin_names(doc) if (s != "default" or g.bool(0.2)) and g.bool(0.4)]
    return {"doc": doc, "anims": sel, "order": order, "groups": groups, "skins": skins}


def run(doc, ops):
    ed = lib.editor(doc)
    for op in ops:
        ed, _ = lib.apply_op(ed, op)
    return ed


def histories(case):
    """The same things erased with clean-ups at other points in between."""
    sel, order, skins = case["anims"], case["order"], case["skins"]
    half = len(order) // 2
    hist = {
        "animations with their clean-up, then the skins in safe mode, then cleaned": [["erase_anims", sel, True, False], ["erase_skins", skins, True], ["clean"]],
        "cleaned, skins in safe mode, cleaned, animations in safe mode, cleaned": [["clean"], ["erase_skins", skins, True], ["clean"], ["erase_anims", sel, True, True], ["clean"]],
        "skins with their clean-up, then the animations with theirs": [["erase_skins", skins, False], ["erase_anims", sel, True, False]],
        "animations with their clean-up, then the skins one at a time with theirs": [["erase_anims", sel, True, False]] + [["erase_skins", [n], False] for n in skins],
        "half of the animations, then the skins, then the rest, cleaned each time": [["erase_anims", order[:half], True, False], ["erase_skins", skins, False], ["erase_anims", order[half:], True, False]],
    }
    if not sel or not skins:
        return {k: v for n, (k, v) in enumerate(hist.items()) if n < 2}
    return hist


def settled(ed):
    """The document without the set-up attachments of slots that no skin has: a clean-up forgets the name only if
    the attachment still existed then."""
    out = lib.export(ed)
    have = {(sl, k) for _, sl, k, _ in model.skin_atts(out)}
    for s in out.get("slots", []):
        if "attachment" in s and (s["name"], s["attachment"]) not in have:
            del s["attachment"]
    return out, lib.images(ed)


def agree(a, b, what):
    require_same(lib.export(a), lib.export(b), what)
    require_same(lib.images(a), lib.images(b), what + " (image references)")


def check(case, ctx):
    doc, sel = case["doc"], case["anims"]
    base = run(doc, [["erase_anims", sel, True, False]])
    agree(base, run(doc, [["erase_anims", sel[::-1], True, False]]), "erasing the same animations listed in reverse")
    ways = {
        "one at a time": [["erase_anims", [n], True, False] for n in case["order"]],
        "one at a time in safe mode, then cleaned": [["erase_anims", [n], True, True] for n in case["order"]] + [["clean"]],
        "all in safe mode, then cleaned": [["erase_anims", case["order"], True, True], ["clean"]],
        "in groups, then cleaned": [["erase_anims", n, True, safe] for n, safe in case["groups"]] + [["clean"]],
        "non-strictly with an unknown name": [["erase_anims", ["no such animation"] + sel, False, False]],
        "cleaned before": [["clean"], ["erase_anims", sel, True, False]],
    }
    for what, ops in ways.items():
        if not sel and what in ("one at a time", "in groups, then cleaned", "one at a time in safe mode, then cleaned"):
            continue
        agree(base, run(doc, ops), "erasing animations %s (left: in one call, right: %s)" % (sel, what))
    again, _ = lib.apply_op(base, ["clean"])
    snapshot = run(doc, [["erase_anims", sel, True, False]])
    agree(snapshot, again, "cleaning a cleaned document again")
    agree(snapshot, run(lib.export(snapshot), [["clean"]]), "cleaning a cleaned and reloaded document again")
    a = [["erase_anims", sel, True, True]]
    s = [["erase_skins", case["skins"], True]]
    one, two = run(doc, a + s), run(doc, s + a)
    agree(one, two, "erasing animations then skins, or skins then animations, in safe mode")
    for n in case["skins"][::-1]:
        a = a + [["erase_skins", [n], True]]
    one, _ = lib.apply_op(one, ["clean"])
    two, _ = lib.apply_op(two, ["clean"])
    agree(one, two, "the same, then cleaned")
    agree(one, run(doc, [a[0], ["erase_skins", case["skins"], False]]), "the last erase in safe mode followed by a clean-up, or in normal mode")
    out = lib.export(snapshot)
    lost = len(doc["slots"]) - len(out.get("slots", [])) + len(model.skin_atts(doc)) - len(model.skin_atts(out))
    ctx.nt(len(sel) >= 2 and lost > 0)
    ctx.label("%d erased" % min(3, len(sel)))
    # a linked mesh whose mesh goes becomes a mesh, which is cleaned differently: then the order of clean-ups matters
    stays = not any(a.get("type") == "linkedmesh" and a.get("skin", "default") in case["skins"] and sk not in case["skins"]
                    for sk, _sl, _k, a in model.skin_atts(doc))
    for what, ops in histories(case).items() if stays else ():
        ctx.label("clean-ups in between")
        require_same(settled(one), settled(run(doc, ops)), "animations %s and skins %s erased (left: both in safe mode, then cleaned, right: %s)" % (sel, case["skins"], what))
    if case["skins"]:
        ctx.label("skins erased")
    if lost:
        ctx.label("something removed")
