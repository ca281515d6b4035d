from spv import gen, lib, model
from spv.core import require, require_same

EXAMPLES = {"quick": 900, "thorough": 30000}
RULE = "documents with linked meshes across skins x 1-2 erase_skins calls; non-trivial = a linked mesh of a remaining skin lost its parent mesh"


def generate(g, tier):
    doc = gen.gen_doc(g, gen.Cfg(bones=(0, 1), slots=(1, 4), skins=(1, 4), anims=(0, 2), rich=0.15, other=0.05, consts=0.1, big=0, meshes=14, links=0.85))
    names = model.skin_names(doc)

    def call(_):
        sel = g.subset([n for n in names if n != "default" or g.bool(0.3)], 0.4)
        if g.bool(0.12):
            sel.insert(g.int(0, len(sel)), g.pick(["none such", "", "Default", "skin"]))
        return [g.shuffled(sel), g.bool(0.6)]
    return {"doc": doc, "calls": g.list(1, 2, call)}


def check(case, ctx):
    ed = lib.editor(case["doc"])
    before = case["doc"]
    for names, safe in case["calls"]:
        present = model.skin_names(before)
        if any(n not in present for n in names):
            lib.refused("erase_skins(%r)" % names, ed.erase_skins, list(names), is_safe_mode=safe)
            ctx.label("unknown skin")
            continue
        base = model.erase_skins(before, names)
        kw = {"is_safe_mode": safe} if safe or len(names) % 2 else {}  # not safe is the default
        r = lib.guard("erase_skins(%r)" % (names,), ed.erase_skins, list(names), **kw)
        after = lib.export(ed)
        want = [n for n in present if n not in names]
        require(model.skin_names(after) == want, "erasing skins %r from %r left %r", names, present, model.skin_names(after))
        for an, a in after.get("animations", {}).items():
            for n in names:
                require(n not in a.get("deform", {}), "deform keys of erased skin %r remain in animation %r", n, an)
        if safe:
            require_same(model.norm(base), model.norm(after), "erase_skins(%r) in safe mode (left: expected)" % names)
            rep = [list(x) for x in r[0]]
            require(rep == [[], []], "safe mode reported removals %r", rep)
        else:
            idx = model.att_index(base)
            for sk, sl, k, a in model.skin_atts(after):
                require((sk, sl, k) in idx, "attachment %r/%r/%r appeared", sk, sl, k)
                require_same(model.norm_attachment(idx[sk, sl, k]), model.norm_attachment(a), "attachment %r/%r/%r after erase_skins(%r) (left: expected)" % (sk, sl, k, names))
        erased = {model.image_of(k, a) for sk, sl, k, a in model.skin_atts(before) if sk in names} - {None}
        images = erased - model.images_used(base)
        require(set(r[1]) == images, "erase_skins(%r) returned images %s, the images only the erased skins used are %s", names, sorted(map(str, set(r[1]))), sorted(images))
        if images:
            ctx.label("images freed")
        if erased - images:
            ctx.label("images shared")
        linked = [1 for (x, y) in zip(model.skin_atts({"skins": [s for s in before["skins"] if s["name"] not in names]}), model.skin_atts(base)) if x[3].get("type") == "linkedmesh" and y[3].get("type") == "mesh"]
        if any((a.get("deform") or {}).get(n) for a in (before.get("animations") or {}).values() for n in names):
            ctx.label("deform keys of erased skins")
            if linked and model.norm(base)["animations"] != model.norm({**before, "animations": {k: {**a, "deform": {s: d for s, d in (a.get("deform") or {}).items() if s not in names}} for k, a in before.get("animations", {}).items()}})["animations"]:
                ctx.label("deform keys handed on")
        if linked:
            ctx.nt()
            ctx.label("detached")
        before = after
