import copy

from spv import gen, lib, model
from spv.core import require_same, same, Violation

EXAMPLES = {"quick": 600, "thorough": 20000}
RULE = "documents x interleavings of scaling, erasing and cleaning; non-trivial = a scaling by something other than 1 and a removal happened in the same case"


def generate(g, tier):
    doc = gen.gen_doc(g, gen.Cfg(bones=(0, 4), slots=(1, 5), skins=(0, 2), rich=0.15, other=0.6, consts=0.4))
    ops = gen.gen_ops(g, doc, kinds=("scale", "erase_anims", "erase_skins", "clean", "scale"), lo=1, hi=4, keep_anim=g.bool(0.85))
    if g.bool(0.7):
        for extra in (["scale", g.pick([2, 0.5, -1, 0.25]), g.pick([3, 0.5, -2])], ["clean"]):
            if not any(o[0] == extra[0] for o in ops):
                ops.insert(g.int(0, len(ops)), extra)
    case = {"doc": doc, "ops": ops}
    if g.bool(0.002):
        case["deep"] = g.pick([2400, 2600])
    return case


def deepened(doc, n):
    """The document with a chain of n more bones (deeper than the interpreter's recursion limit) that carries its first slot."""
    doc = copy.deepcopy(doc)
    have = {b["name"] for b in doc["bones"]}
    chain = [x for x in ("deep%d" % i for i in range(n)) if x not in have]
    doc["bones"] += [{"name": b, "parent": a} for a, b in zip(["root"] + chain, chain)]
    for s in doc["slots"][:1]:
        s["bone"] = chain[-1]
    return doc


def no_order(n):
    """Normal form without draw order (its adjustment is property C11)."""
    for a in n["animations"].values():
        a["drawOrder"] = [k.get("time", 0) for k in a["drawOrder"]]
    return n


def check(case, ctx):
    start = before = deepened(case["doc"], case["deep"]) if case.get("deep") else case["doc"]
    ctx.label("deep" if case.get("deep") else "shallow")
    ed = lib.editor(before)
    scaled = removed = False
    for op in case["ops"]:
        base, cleans = model.after_op(before, op)
        ed, _ = lib.apply_op(ed, op)
        after = lib.export(ed)
        if op[0] == "scale":
            scaled = scaled or (op[1], op[2]) != (1, 1)
            a, b = model.norm(base), model.norm(after)
            a["bones"] = b["bones"] = None
            require_same(a, b, "scaling changed something other than bones")
        else:
            have = set(model.slot_names(after))
            slots = {s for s in model.slot_names(base) if s not in have}
            left = {(sk, sl, k) for sk, sl, k, _ in model.skin_atts(after)}
            lost = {(sk, sl, k) for sk, sl, k, _ in model.skin_atts(base)} - left
            names = {k for _, _, k in lost} if lost else set()
            expect = model.norm(base)
            # take out exactly what disappeared
            for sk in expect["skins"]:
                sk["attachments"] = {sl: {k: x for k, x in d.items() if (sk["name"], sl, k) not in lost} for sl, d in sk["attachments"].items() if sl not in slots}
            expect["slots"] = [s for s in expect["slots"] if s["name"] not in slots]
            got = model.norm(after)
            for s, s2 in zip(expect["slots"], got["slots"]):
                k = s.get("attachment")
                if k in names and not any((x["name"], s["name"], k) in left for x in expect["skins"]):
                    own = any((x["name"], s["name"], k) in lost for x in expect["skins"])
                    if own or "attachment" not in s2:  # the set-up attachment itself was removed
                        del s["attachment"]
                        ctx.label("set-up attachment removed" if own else "name of the set-up attachment removed")
            for n, a in expect["animations"].items():
                a["slots"] = {x: t for x, t in a["slots"].items() if x not in slots}
                a["deform"] = {s: {sl: {k: v for k, v in d2.items() if (s, sl, k) not in lost} for sl, d2 in d1.items() if sl not in slots} for s, d1 in a["deform"].items()}
            expect["animations"] = {n: model.prune_animation(a) for n, a in expect["animations"].items()}
            for sk in expect["skins"]:
                sk["attachments"] = {sl: d for sl, d in sk["attachments"].items() if d}
            r = same(no_order(expect), no_order(got))
            if r:
                raise Violation("%s changed something it does not remove (left: expected, right: export): %s" % (op[0], r))
            removed = removed or bool(lost or slots)
        before = after
        before.setdefault("slots", [])
    if scaled and removed:
        ctx.nt()
    # scaling commutes with everything else
    if any(o[0] == "scale" for o in case["ops"]) and len(case["ops"]) > 1:
        ctx.label("commuted")
        final = lib.export(ed)
        sc = [o for o in case["ops"] if o[0] == "scale"]
        rest = [o for o in case["ops"] if o[0] != "scale"]
        for what, ops in (("first", sc + rest), ("last", rest + sc)):
            e2 = lib.editor(start)
            for o in ops:
                e2, _ = lib.apply_op(e2, o)
            require_same(final, lib.export(e2), "scaling %s instead of in between gives a different document" % what)
