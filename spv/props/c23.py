import copy
import json
import os
import tempfile

from spv import gen, lib, model
from spv.core import require, require_same

EXAMPLES = {"quick": 1200, "thorough": 20000}
RULE = "documents with adversarial names x 0-4 container removals; non-trivial = a removal took something away or a name contains a type suffix"
SUFFIX = ("BONE", "SLOT", "IK", "ATTACHMENT", "IMAGE")
REMOVALS = ["leafs SLOT", "leafs ATTACHMENT", "heads ATTACHMENT", "heads IMAGE", "leafs BONE", "leafs IMAGE", "leafs IMAGE", "slots", "attachments", "heads SLOT", "heads BONE", "leafs IK", "heads IK", "slots", "attachments", "leafs SLOT keep", "leafs BONE keep"]


def generate(g, tier):
    doc = gen.gen_doc(g, gen.Cfg(odd=0.6, slots=(0, 5), skins=(0, 2), consts=0.6, other=0.1, anims=(0, 1), rich=0.1, blank=0.06))
    return {"doc": doc, "removals": g.list(0, 5, lambda _: [g.pick(REMOVALS), g.int(0, 1 << 16)], cont=0.8), "file": g.bool(0.15), "wrong": g.int(0, 3)}


def gid(name, kind):
    return "%s_%s" % (name, kind)


def expected(doc):
    nodes, edges = {}, set()
    for b in doc["bones"]:
        nodes[gid(b["name"], "BONE")] = "BONE"
    bones = {b["name"] for b in doc["bones"]}
    for b in doc["bones"]:
        if b.get("parent") in bones:
            edges.add((gid(b["parent"], "BONE"), gid(b["name"], "BONE")))
    for s in doc.get("slots", []):
        nodes[gid(s["name"], "SLOT")] = "SLOT"
        if s.get("bone") in bones:
            edges.add((gid(s["bone"], "BONE"), gid(s["name"], "SLOT")))
    slots = {s["name"] for s in doc.get("slots", [])}
    for _, sl, k, a in model.skin_atts(doc):
        if sl not in slots:
            continue
        img = a.get("path") or a.get("name") or k
        nodes[gid(k, "ATTACHMENT")] = "ATTACHMENT"
        nodes[gid(img, "IMAGE")] = "IMAGE"
        edges.add((gid(sl, "SLOT"), gid(k, "ATTACHMENT")))
        edges.add((gid(k, "ATTACHMENT"), gid(img, "IMAGE")))
    for i in doc.get("ik", []):
        nodes[gid(i["name"], "IK")] = "IK"
    for i in doc.get("ik", []):
        for b in i["bones"]:
            edges.add((gid(i["name"], "IK"), gid(b, "BONE")))
        edges.add((gid(i["target"], "BONE"), gid(i["name"], "IK")))
    return nodes, edges


def compare(graph, nodes, edges, gone, what):
    """The graph has exactly these nodes and links: reached through get_node from the expected ids, and closed under links."""
    for i, t in nodes.items():
        n = lib.guard("get_node", graph.get_node, i)
        require(n is not None, "%s: node %r is missing", what, i)
        require(n.node_type == t, "%s: node %r has type %r", what, i, n.node_type)
        ch = sorted(b for a, b in edges if a == i)
        pa = sorted(a for a, b in edges if b == i)
        require(sorted(n.children) == ch, "%s: %r links to %s, expected %s", what, i, sorted(n.children), ch)
        require(sorted(n.parents) == pa, "%s: %r is linked from %s, expected %s", what, i, sorted(n.parents), pa)
    for i in gone:
        require(graph.get_node(i) is None, "%s: node %r is still there", what, i)
    heads = lib.guard("get_heads_id", graph.get_heads_id)
    tails = lib.guard("get_tails_id", graph.get_tails_id)
    has_parent, has_child = {b for _, b in edges}, {a for a, _ in edges}
    require(sorted(heads) == sorted(i for i in nodes if i not in has_parent), "%s: heads %s", what, sorted(heads))
    require(sorted(tails) == sorted(i for i in nodes if i not in has_child), "%s: tails %s", what, sorted(tails))


def scramble(doc):
    """Change every object of a document: what was built from it before is not affected."""
    for sec in ("bones", "slots", "ik", "skins"):
        for o in doc.get(sec, []):
            for v in o.values():
                if isinstance(v, list):
                    v.append("changed")
            o.pop("parent", None)
            o["attachment"] = o["changed"] = "changed"


def plain(i):
    return i.rsplit("_", 1)[0]


def cyclic(edges):
    """heads and tails are still well defined, but only checked to be the exact sets."""
    es = set(edges)
    while True:
        starts = {a for a, _ in es} - {b for _, b in es}
        if not starts:
            return bool(es)
        es = {(a, b) for a, b in es if a not in starts}


def check(case, ctx):
    doc = case["doc"]
    src = copy.deepcopy(doc)
    cont = lib.guard("building the graph", lib.SpineGraphContainer, doc)
    require_same(src, doc, "building the graph changed the document")
    nodes, edges = expected(doc)
    compare(cont.graph, nodes, edges, (), "graph of the document")
    names = [b["name"] for b in doc["bones"]] + [s["name"] for s in doc.get("slots", [])] + [k for _, _, k, _ in model.skin_atts(doc)]
    if any(("_" + s) in n for n in names for s in SUFFIX):
        ctx.label("type suffix in a name")
        ctx.nt()
    scramble(doc)
    doc = src
    back = lib.guard("converting the graph back", cont.graph.to_json_data, lib.SpineGraphParser)
    want = {sec: doc.get(sec, []) for sec in ("bones", "slots", "ik")}
    require_same(want, back, "document converted to a graph and back")
    if case.get("file"):
        files(doc, want, nodes, edges, cont.graph, case["wrong"])
        ctx.label("through a file")
    gone = set()
    for what, x in case["removals"]:
        kind = what.split()
        if kind[0] in ("slots", "attachments"):
            t = kind[0].upper()[:-1]
            have = sorted(i for i, y in nodes.items() if y == t)
            sel = [i for n, i in enumerate(have) if x >> n & 1]
            fn = cont.remove_slots if t == "SLOT" else cont.remove_attachments
            r = lib.guard("removing %s %r" % (kind[0], sel), fn, [plain(i) for i in sel])
            require([n.id for n in r] == sel, "removing %s %r returned the nodes %r", kind[0], sel, [n.id for n in r])
            removed = set(sel)
        else:
            t = kind[1]
            pool = [i for i in nodes if nodes[i] == t]
            keep = {i for n, i in enumerate(sorted(pool)) if len(kind) > 2 and x >> n & 1}
            fn, col = (cont.remove_leafs_of_type, 0) if kind[0] == "leafs" else (cont.remove_heads_of_type, 1)
            removed = set()
            es = set(edges)
            while True:
                now = {i for i in pool if i not in removed and i not in keep and not any(e[col] == i for e in es)}
                if not now:
                    break
                removed |= now
                es = {e for e in es if e[0] not in removed and e[1] not in removed}
            first = lib.guard("get_%s" % kind[0], cont.get_leafs_of_type if col == 0 else cont.get_heads_with_type, t)
            want_first = sorted(i for i in pool if not any(e[col] == i for e in edges))
            require(sorted(first) == want_first, "%s of type %s are %s, expected %s", kind[0], t, sorted(first), want_first)
            if keep:
                r = lib.guard("remove %s" % what, fn, t, {plain(i) for i in keep})
            else:
                r = lib.guard("remove %s" % what, fn, t)
            require(sorted(r) == sorted(plain(i) for i in removed), "removing %s reported %s, expected %s", what, sorted(r), sorted(plain(i) for i in removed))
        if removed:
            ctx.nt()
            ctx.label("removed " + what)
        nodes = {i: y for i, y in nodes.items() if i not in removed}
        edges = {e for e in edges if e[0] in nodes and e[1] in nodes}
        gone |= removed
        compare(cont.graph, nodes, edges, gone, "after removing %s" % what)
        back = lib.guard("converting the graph back", cont.graph.to_json_data, lib.SpineGraphParser)
        want = {sec: [o for o in doc.get(sec, []) if gid(o["name"], t) in nodes] for sec, t in (("bones", "BONE"), ("slots", "SLOT"), ("ik", "IK"))}
        require_same(want, back, "graph converted back after removing %s" % what)


def files(doc, want, nodes, edges, graph, wrong):
    """The other ways in and out of a graph agree with the ones used above."""
    text = lib.guard("DAGraph.to_json", graph.to_json, lib.SpineGraphParser)
    require(isinstance(text, str), "to_json returned %r", type(text).__name__)
    require_same(want, json.loads(text), "document converted to a graph and to JSON text")
    require_same(want, json.loads(lib.guard("SpineGraphParser.to_json", lib.SpineGraphParser.to_json, graph)), "document converted to a graph and to JSON text by the parser")
    fd, path = tempfile.mkstemp(suffix=".json")
    try:
        with os.fdopen(fd, "w", encoding="utf-8") as f:
            json.dump(doc, f)
        parser, factory = lib.SpineGraphParser, lib.SpineNodeFactory
        made = [lib.guard("DAGraph.create_from_json_file", lib.DAGraph.create_from_json_file, parser, path, factory()),
                lib.guard("SpineGraphParser.create_from_json_file", parser.create_from_json_file, path, factory()),
                lib.guard("DAGraph.create_from_json_data", lib.DAGraph.create_from_json_data, parser, copy.deepcopy(doc), factory()),
                lib.guard("SpineGraphParser.create_from_json_data", parser.create_from_json_data, copy.deepcopy(doc), factory())]
        for n, g in enumerate(made):
            compare(g, nodes, edges, (), "graph made in way %d" % n)
            require_same(want, lib.guard("converting the graph back", g.to_json_data, parser), "document converted in way %d and back" % n)
        bad = [dict, object, lib.IGraphParser, lib.SpineNodeFactory][wrong]
        lib.refused("to_json with the parser %s" % bad.__name__, graph.to_json, bad)
        lib.refused("to_json_data with the parser %s" % bad.__name__, graph.to_json_data, bad)
        lib.refused("create_from_json_file with the parser %s" % bad.__name__, lib.DAGraph.create_from_json_file, bad, path, factory())
        lib.refused("create_from_json_data with the parser %s" % bad.__name__, lib.DAGraph.create_from_json_data, bad, copy.deepcopy(doc), factory())
    finally:
        os.unlink(path)
