from spv import gen, lib, model
from spv.core import require

EXAMPLES = {"quick": 1200, "thorough": 50000}
RULE = "slot lists x draw-order keys (any permutation, any sufficient set of entries incl. zero offsets) x slots made removable; non-trivial = a slot was removed and the order differs from the set-up order"


def generate(g, tier):
    n = g.int(2, 7) if g.bool(0.9) else g.int(10, 13)
    odd = g.bool(0.2)
    names = gen.Names(g, odd)
    slots = []
    for i in range(n):
        s = {"name": names.new("s"), "bone": "root", "attachment": "a%d" % i}
        r = g.int(0, 5)
        if r == 1:
            s["color"] = "ffffff00"
        elif r == 2:
            del s["attachment"]
        slots.append(s)
    sn = [s["name"] for s in slots]
    atts = {s["name"]: {"a%d" % i: {}} for i, s in enumerate(slots) if g.bool(0.85)}
    anims = {}
    for k in range(g.int(1, 3)):
        a = {"slots": {s: {"attachment": [{"name": None}]} for s in sn if g.bool(0.12)}}
        a["drawOrder"] = [dict(gen.timed(g, t), offsets=gen.gen_offsets(g, sn)) for t in gen.times(g, g.int(1, 3))]
        for key in a["drawOrder"]:
            if g.bool(0.1):
                key.pop("offsets")
        anims["an%d" % k] = a
    doc = {"skeleton": {"spine": "3.8.59"}, "bones": [{"name": "root"}], "slots": slots, "skins": [{"name": "default", "attachments": atts}], "animations": anims}
    ops = gen.gen_ops(g, doc, kinds=("clean", "erase_anims", "clean"), lo=1, hi=2)
    return {"doc": doc, "ops": ops}


def check(case, ctx):
    ed = lib.editor(case["doc"])
    before = case["doc"]
    for op in case["ops"]:
        ed, _ = lib.apply_op(ed, op)
        after = lib.export(ed)
        sb, sa = model.slot_names(before), model.slot_names(after)
        require(sa == [s for s in sb if s in sa], "%s reordered the slots: %s -> %s", op[0], sb, sa)
        for an in model.anim_names(after):
            k1, k2 = before["animations"][an].get("drawOrder", []), after["animations"][an].get("drawOrder", [])
            require(len(k1) == len(k2), "%s changed the number of draw order keys of %r: %d -> %d", op[0], an, len(k1), len(k2))
            for x, y in zip(k1, k2):
                require(x.get("time", 0) == y.get("time", 0), "%s moved a draw order key of %r in time", op[0], an)
                want = [s for s in model.apply_offsets(sb, x.get("offsets") or []) if s in sa]
                offs = y.get("offsets") or []
                pos = [sa.index(o["slot"]) for o in offs if o["slot"] in sa]
                require(len(pos) == len(offs), "%s left draw order entries for removed slots: %s", op[0], offs)
                require(pos == sorted(set(pos)), "%s left draw order entries out of slot order: %s with slots %s", op[0], offs, sa)
                got = model.apply_offsets(sa, offs)
                require(got == want, "%s changed the draw order of %r at %s: slots %s, entries %s -> slots %s, entries %s, i.e. order %s instead of %s",
                        op[0], an, x.get("time", 0), sb, x.get("offsets"), sa, offs, got, want)
                if any(o["offset"] == 0 for o in x.get("offsets") or []):
                    ctx.label("zero offset")
                if len(sa) < len(sb):
                    ctx.label("slot removed")
                    if any(o["slot"] not in sa for o in x.get("offsets") or []):
                        ctx.label("listed slot removed")
                    ctx.nt(want != sa)
        before = after
