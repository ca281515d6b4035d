from spv import gen, lib, schema as S
from spv.core import require, require_same, Violation

EXAMPLES = {"quick": 700, "thorough": 25000}
RULE = ("documents in which one object got one attribute the format does not define there (or an unknown attachment type); "
        "non-trivial = the object is below the top level of the document")
UNKNOWN = ["zzUnknown", "sequence", "audioPath", "visible", "Name", "time2", "ffd", "fps", "nonessential", "inherit", "", "__dict__", "get", "REQUIRED", "DEFAULT_VALUES"]
VALUES = [1, 0, None, "", "x", False, [], {}, [1], {"a": 1}]
BADTYPES = ["sequence", "Mesh", "skinnedmesh", "weightedmesh", "regionsequence", "", "Region", "armature", "linkedMesh", 0, 1, True, ["mesh"]]


def sites(doc):
    """[(label, path)] of every object whose attributes the format defines."""
    out = [("document", [])]
    for sec in ("bones", "slots", "ik", "transform", "path"):
        out += [(sec, [sec, i]) for i in range(len(doc.get(sec, [])))]
    for i, sk in enumerate(doc["skins"]):
        out.append(("skin", ["skins", i]))
        for sl, d in (sk.get("attachments") or {}).items():
            out += [("attachment %s" % a.get("type"), ["skins", i, "attachments", sl, k]) for k, a in d.items()]
    out += [("event", ["events", n]) for n in doc.get("events", {})]
    for n, a in doc.get("animations", {}).items():
        p = ["animations", n]
        out.append(("animation", p))
        for grp in ("bones", "slots", "path"):
            for o, tls in a.get(grp, {}).items():
                if grp != "path":
                    out.append(("%s timelines" % grp, p + [grp, o]))
                for t, ks in tls.items():
                    out += [("key %s.%s" % (grp, t), p + [grp, o, t, i]) for i in range(len(ks))]
        for grp in ("ik", "transform"):
            for o, ks in a.get(grp, {}).items():
                out += [("key %s" % grp, p + [grp, o, i]) for i in range(len(ks))]
        out += [("key events", p + ["events", i]) for i in range(len(a.get("events", [])))]
        for i, k in enumerate(a.get("drawOrder", [])):
            out.append(("key drawOrder", p + ["drawOrder", i]))
            out += [("offset", p + ["drawOrder", i, "offsets", j]) for j in range(len(k.get("offsets") or []))]
        for s, d1 in a.get("deform", {}).items():
            for sl, d2 in d1.items():
                for at, ks in d2.items():
                    out += [("key deform", p + ["deform", s, sl, at, i]) for i in range(len(ks))]
    return out


def at(doc, path):
    for x in path:
        doc = doc[x]
    return doc


def generate(g, tier):
    rich = g.bool(0.7)
    doc = gen.gen_doc(g, gen.Cfg(slots=(0, 3), bones=(0, 3), skins=(0, 1), anims=(0, 2), big=0, other=0.9 if rich else 0.5, consts=0.8 if rich else 0.3))
    all_sites = sites(doc)
    labels = sorted({l for l, _ in all_sites})
    lab = g.pick(labels)
    path = g.pick([p for l, p in all_sites if l == lab])
    if lab.startswith("attachment") and g.bool(0.3):
        return {"doc": doc, "where": lab, "path": path, "attr": "type", "value": g.pick(BADTYPES)}
    if g.bool(0.08):
        return {"doc": doc, "where": "skeleton", "path": ["skeleton"], "attr": g.pick(UNKNOWN), "value": g.pick(VALUES)}
    if g.bool(0.25):
        # an attribute the format defines elsewhere
        return {"doc": doc, "where": lab, "path": path, "attr": g.pick(MISPLACED), "value": 7.25, "misplaced": True}
    return {"doc": doc, "where": lab, "path": path, "attr": g.pick(UNKNOWN), "value": g.pick(VALUES)}


MISPLACED = ["x", "angle", "color", "bones", "order", "uvs", "slot", "offset", "closed", "parent", "skin", "volume", "light", "mix", "length",
             "attachment", "blend", "end", "target", "position", "softness", "shearX", "hull", "lengths", "deform"]


def check(case, ctx):
    import copy
    doc = case["doc"]
    lib.editor(doc)  # the unmodified document loads
    bad = copy.deepcopy(doc)
    obj = at(bad, case["path"])
    if case["attr"] in obj and case["attr"] != "type":
        return
    obj[case["attr"]] = case["value"]
    ctx.label(case["where"])
    if case["where"] == "skeleton":
        out = lib.export(lib.editor(bad))
        require_same(bad["skeleton"], out["skeleton"], "skeleton header")
        ctx.nt()
        return
    ctx.nt(bool(case["path"]))
    if case.get("misplaced"):
        # either refused or supported, and then exported
        try:
            ed = lib.SpineAnimationEditor(bad)
        except lib.Hang:
            raise
        except Exception:
            ctx.label("misplaced refused")
            return
        ctx.label("misplaced accepted")
        require_kept(lib.export(ed), case)
        return
    lib.refused("a document with %s=%r on %s" % (case["attr"], case["value"], case["where"]), lib.SpineAnimationEditor, bad)


def require_kept(out, case):
    try:
        obj = at(out, case["path"])
    except (KeyError, IndexError):
        raise Violation("the object at %s disappeared from the export" % case["path"])
    require(obj.get(case["attr"]) == case["value"], "attribute %s at %s was accepted but not exported", case["attr"], case["path"])
