import copy

from spv import gen, lib
from spv.core import require

EXAMPLES = {"quick": 700, "thorough": 25000}
RULE = "documents with one bone, slot or draw-order entry that lacks required attributes; non-trivial = the object is not the first of its list, or nested in an animation"
REQ = {"bone": ["name"], "slot": ["name", "bone"], "offset": ["offset"]}


def sites(doc):
    out = [("bone", ["bones", i]) for i in range(len(doc["bones"]))]
    out += [("slot", ["slots", i]) for i in range(len(doc["slots"]))]
    for n, a in doc.get("animations", {}).items():
        for i, k in enumerate(a.get("drawOrder", [])):
            out += [("offset", ["animations", n, "drawOrder", i, "offsets", j]) for j in range(len(k.get("offsets") or []))]
    return out


def generate(g, tier):
    doc = gen.gen_doc(g, gen.Cfg(slots=(1, 5), bones=(0, 3), skins=(0, 1), consts=0.1, other=0.1, big=0))
    if not any(l == "offset" for l, _ in sites(doc)) and g.bool(0.8):
        doc.setdefault("animations", {}).setdefault("anim0", {})["drawOrder"] = [{"offsets": gen.gen_offsets(g, [s["name"] for s in doc["slots"]])} for _ in range(g.int(1, 3))]
    if g.bool(0.3):  # entries that stay in place are valid entries
        for a in doc.get("animations", {}).values():
            for k in a.get("drawOrder", []):
                if not k.get("offsets"):
                    k["offsets"] = [{"slot": doc["slots"][0]["name"], "offset": 0}]
    s = sites(doc)
    lab = g.pick(sorted({l for l, _ in s}))
    path = g.pick([p for l, p in s if l == lab])
    attrs = g.subset(REQ[lab], 0.6) or [g.pick(REQ[lab])]
    return {"doc": doc, "kind": lab, "path": path, "attrs": attrs}


def check(case, ctx):
    doc = case["doc"]
    lib.editor(doc)
    bad = copy.deepcopy(doc)
    obj = bad
    for x in case["path"]:
        obj = obj[x]
    for a in case["attrs"]:
        del obj[a]
    ctx.label(case["kind"] + " without " + "+".join(case["attrs"]))
    ctx.nt(case["path"][-1] > 0 or case["kind"] == "offset")
    e = lib.refused("a document with a %s without %s" % (case["kind"], case["attrs"]), lib.SpineAnimationEditor, bad)
    require(isinstance(e, lib.SpineParsingException), "a %s without %s raised %s: %s instead of the parsing error", case["kind"], case["attrs"], type(e).__name__, e)
    for a in case["attrs"]:
        require(repr(a) in str(e) or ('"%s"' % a) in str(e) or (" %s" % a) in str(e), "the parsing error for a %s without %r does not name it: %s", case["kind"], a, e)
