import copy

from spv import gen, lib, model
from spv.core import require, require_same

EXAMPLES = {"quick": 600, "thorough": 20000}
RULE = ("lookups of known and unknown names, before and between 1-3 direct removals of slots / attachments by name, of a skin through the data model, and erasures; "
        "non-trivial = a removal by name took something that an animation mentions")


def generate(g, tier):
    cfg = gen.Cfg(slots=(1, 6), bones=(1, 5), skins=(0, 3), other=0.3, consts=0.3, odd=0.3)
    doc = gen.gen_doc(g, cfg)
    sn = model.slot_names(doc)
    keys = sorted({k for _, _, k, _ in model.skin_atts(doc)} | {s["attachment"] for s in doc["slots"] if s.get("attachment")})

    def op(_):
        k = g.weighted([(4, "slots"), (4, "attachments"), (2, "skin"), (1, "erase"), (1, "unknown skin"), (1, "clean")])
        if k == "clean":
            return [k, []]
        if k == "slots":
            return [k, g.shuffled(g.subset(sn, 0.35)) + (["no such"] if g.bool(0.15) else []), g.bool(0.2)]
        if k == "attachments":
            return [k, g.shuffled(g.subset(keys, 0.35)) + (["no such"] if g.bool(0.15) else []), g.pick(["list", "frozenset", "tuple"])]
        if k == "skin":
            return [k, g.pick(model.skin_names(doc) or ["no such"])]
        if k == "erase":
            return [k, g.subset(model.anim_names(doc), 0.3)]
        return ["skin", "no such"]
    return {"doc": doc, "ops": g.list(1, 3, op), "names": ["no such", "", "root", "default"] + [s.upper() for s in sn[:2]] + [s + "1" for s in sn[:2]] + [s[:-1] for s in sn[:2]]}


def lookups(doc, ed, names, ctx):
    data = ed.spine_anim_data.data
    for sec, fn in (("bones", "get_bone"), ("slots", "get_slot"), ("skins", "get_skin")):
        objs = doc.get(sec) or []
        for o in objs:
            got = lib.guard(fn, getattr(data, fn), o["name"])
            require(got is not None, "%s(%r) found nothing", fn, o["name"])
            require(got is getattr(data, sec)[objs.index(o)], "%s(%r) is not the object in the list", fn, o["name"])
            require_same(o["name"], got.name, "name of %s(%r)" % (fn, o["name"]))
        for n in names:
            if n not in [o["name"] for o in objs]:
                got = lib.guard(fn, getattr(data, fn), n)
                require(got is None, "%s(%r) found %r", fn, n, getattr(got, "name", got))
    zero = [s["name"] for s in doc.get("slots") or [] if (s.get("color") or "ffffffff").lower()[-2:] == "00"]
    got = lib.guard("get_slots_with_alpha_zero", data.get_slots_with_alpha_zero)
    require(list(got) == zero, "get_slots_with_alpha_zero is %s, but the slots with alpha zero are %s", got, zero)
    if zero:
        ctx.label("alpha zero")
    require(str(ed.spine_version) == doc["skeleton"]["spine"] or ed.spine_version == doc["skeleton"]["spine"], "spine_version is %s, the header says %s", ed.spine_version, doc["skeleton"]["spine"])


def no_order(doc):
    d = copy.deepcopy(doc)
    for a in d.get("animations", {}).values():
        for k in a.get("drawOrder") or []:
            k.pop("offsets", None)
    return d


def check(case, ctx):
    ed = lib.editor(case["doc"])
    lookups(case["doc"], ed, case["names"], ctx)
    want = copy.deepcopy(case["doc"])
    for op in case["ops"]:
        before = copy.deepcopy(want)
        lookups(want, ed, case["names"], ctx)
        names = model.slot_names(before)
        if op[0] == "slots":
            originals = ed.spine_anim_data.data.slots
            if op[2]:
                originals = copy.deepcopy(originals)
            lib.guard("remove_slots(%r)" % (op[1],), ed.remove_slots, list(op[1]), originals)
            want = model.cleaned(before, op[1], [])
            want["slots"] = before.get("slots", [])
            hit = any(s in op[1] for a in before.get("animations", {}).values() for part in (a.get("slots") or {}, *(a.get("deform") or {}).values()) for s in part)
        elif op[0] == "attachments":
            arg = {"list": list, "frozenset": frozenset, "tuple": tuple}[op[2]](op[1])
            lib.guard("remove_attachments(%r)" % (op[1],), ed.remove_attachments, arg)
            want = model.cleaned(before, [], op[1])
            hit = any(k in op[1] for a in before.get("animations", {}).values() for sk in (a.get("deform") or {}).values() for sl in sk.values() for k in sl)
        elif op[0] == "skin":
            hit = False
            if op[1] not in model.skin_names(before):
                lib.refused("remove_skin(%r)" % op[1], ed.spine_anim_data.data.remove_skin, op[1])
                ctx.label("unknown skin")
            elif linked_alive(before, op[1]):
                lib.guard("remove_skin(%r)" % op[1], ed.spine_anim_data.data.remove_skin, op[1])
                want = model.erase_skins(before, [op[1]])
            else:
                continue
        elif op[0] == "clean":
            lib.guard("clean_animation", ed.clean_animation)
            lookups(lib.export(ed), ed, case["names"] + names, ctx)
            want = lib.export(ed)   # what cleaning removes is the matter of other properties
            ctx.label("clean")
            continue
        else:
            hit = False
            known = [a for a in op[1] if a in want.get("animations", {})]
            lib.guard("erase_animations", ed.erase_animations, list(known), is_safe_mode=True)
            want = model.erase_anims(before, known)
        ctx.label(op[0])
        ctx.nt(hit)
        out = lib.export(ed)
        require_same(model.norm(no_order(want)), model.norm(no_order(out)), "%s %r (left: expected)" % (op[0], op[1]))
        for an in want.get("animations", {}):
            k1, k2 = before["animations"][an].get("drawOrder") or [], out["animations"].get(an, {}).get("drawOrder") or []
            require(len(k1) == len(k2), "%s changed the number of draw order keys of %r", op[0], an)
            gone = op[1] if op[0] == "slots" else []
            left = [s for s in names if s not in gone]
            for x, y in zip(k1, k2):
                offs = y.get("offsets") or []
                require(all(o["slot"] in left for o in offs), "%s left draw order entries for removed slots: %s", op[0], offs)
                w = [s for s in model.apply_offsets(names, x.get("offsets") or []) if s in left]
                got = model.apply_offsets(left, offs)
                require(w == got, "%s %r changed the draw order of %r to %s instead of %s", op[0], op[1], an, got, w)
                if gone and x.get("offsets"):
                    ctx.label("draw order adjusted")
        want = out if op[0] == "slots" else want
        if op[0] == "slots" and op[1]:
            lookups(out, ed, case["names"], ctx)
            break   # the draw order now refers to the remaining slots; taking them off the list is up to the caller
    lookups(want, ed, case["names"], ctx)


def linked_alive(doc, skin):
    """The parents of the linked meshes to the skin are still there."""
    idx = model.att_index(doc)
    return all((skin, sl, a.get("parent")) in idx for _, sl, _, a in model.skin_atts(doc) if a.get("type") == "linkedmesh" and (a.get("skin") or "default") == skin)
