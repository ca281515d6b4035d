from spv import lib
from spv.core import require

EXAMPLES = {"quick": 2500, "thorough": 80000}
RULE = "graphs of up to 8 nodes (and chains of up to 2503) x node pair x depth limit; non-trivial = the graph has a cycle, or is valid with at least two paths between the pair"
ROOT = "INPUT_ROOT_NODE_TYPE"


LONG = [1100, 2400, 2600]  # Hypothesis raises the limit by 2000


def long_case(g):
    """A chain deeper than the interpreter's recursion limit, and where to insert nodes, cross and close it."""
    n = g.pick(LONG) + g.int(0, 3)
    return {"long": n, "order": g.pick(["forward", "backward", "interleaved"]), "skips": sorted({g.int(0, n - 3) for _ in range(g.int(0, 4))}),
            "back": g.pick([None, None, [g.int(1, n - 1), g.int(0, 9)]])}


def build_long(case):
    n = case["long"]
    ids = ["n%d" % i for i in range(n)]
    order = {"forward": ids, "backward": ids[::-1], "interleaved": ids[::2] + ids[1::2][::-1]}[case["order"]]
    assert sorted(order) == sorted(ids)
    g = lib.DAGraph()
    for i in order:
        lib.guard("add_node", g.add_node, node_id=i, node_type=ROOT if i == "n0" else "OTHER_NODE_TYPE")
    edges = [(ids[i], ids[i + 1]) for i in range(n - 1)] + [(ids[i], ids[i + 2]) for i in case["skips"]]
    back = case["back"]
    if back and back[0] > back[1]:
        edges.append((ids[back[0]], ids[back[1]]))
    for a, b in edges:
        lib.guard("add_edge", g.add_edge, a, b)
    return g, ids, edges, bool(back and back[0] > back[1])


def check_long(case, ctx):
    g, ids, edges, cyclic = build_long(case)
    has_parent, has_child = {b for _, b in edges}, {a for a, _ in edges}
    heads, tails = [i for i in ids if i not in has_parent], [i for i in ids if i not in has_child]
    got = lib.guard("get_heads_id of a chain", g.get_heads_id)
    require(sorted(got) == sorted(heads), "heads of a long chain are %s, expected %s", got, heads)
    got = lib.guard("get_tails_id of a chain", g.get_tails_id)
    require(sorted(got) == sorted(tails), "tails of a long chain are %s, expected %s", got, tails)
    found = [k for e in lib.guard("validate", g.validate).errors for k in e]
    require(found == (["CIRCULAR_REFS"] if cyclic else []), "a %s chain of %d nodes is reported as %s", "closed" if cyclic else "plain", len(ids), found)
    ctx.label("long chain")
    ctx.nt()
    if cyclic:
        lib.refused("get_all_paths on a long cycle", g.get_all_paths, ids[0], ids[-1])
        return
    require(list(lib.guard("get_all_paths", g.get_all_paths, ids[0], ids[-1])) == [], "a path of more than the default number of nodes is found")
    got = lib.guard("get_all_paths", g.get_all_paths, ids[0], ids[-1], len(ids))
    want = 1
    count = [1, 1]
    for i in range(2, len(ids)):
        count.append(count[-1] + (count[-2] if i - 2 in case["skips"] else 0))
    want = count[-1]
    require(len(got) == want and len({tuple(x) for x in got}) == want, "%d paths through a chain with shortcuts %s, expected %d", len(got), case["skips"], want)
    es = set(edges)
    for path in got:
        require(path[0] == ids[0] and path[-1] == ids[-1] and all(e in es for e in zip(path, path[1:])), "a path does not follow the links")


def generate(g, tier):
    if g.bool(0.003):
        return long_case(g)
    if g.bool(0.04):
        # longer than the default limit of 20 nodes
        n = g.int(18, 25)
        edges = [[i, i + 1] for i in range(n - 1)] + g.list(0, 4, lambda _: g.pick([[i, i + 2] for i in range(n - 2)]))
        return {"names": ["n%d" % i for i in range(n)], "insert": g.shuffled(list(range(n))), "edges": [list(e) for e in sorted({tuple(e) for e in edges})],
                "roots": [0], "removed": [], "pairs": [[0, n - 1, 20], [0, g.int(17, n - 1), 20], [g.int(0, 4), n - 1, 20], [0, n - 1, n - 1]]}
    n = g.int(1, 8) if g.bool(0.5) else g.int(5, 8)
    shape = g.pick(["valid", "any", "dag", "valid", "any", "valid"])
    names = g.shuffled(["n%d" % i for i in range(n)]) if g.bool() else [str(n - i) for i in range(n)]
    edges = []
    p = g.pick([0.2, 0.4, 0.7])
    for i in range(n):
        for j in range(n):
            if i != j and (i < j or (shape == "any" and g.bool(0.3))) and g.bool(p):
                edges.append([i, j])
    heads = [i for i in range(n) if not any(b == i for _, b in edges)]
    roots = [i for i in range(n) if (i in heads and (shape == "valid" or g.bool(0.7))) or g.bool(0.1)]

    def pair(_):
        i, j = g.int(0, n - 1), g.int(0, n - 1)
        if i > j and g.bool(0.8):
            i, j = j, i
        if shape != "any" and g.bool(0.5):
            i = g.pick(heads)
        return [i, j, g.pick([20, 20, 1, 2, 3, 4, 5, 0])]
    return {"names": names, "insert": g.shuffled(list(range(n))), "edges": g.shuffled(edges), "roots": roots,
            "removed": [i for i in range(n) if shape == "any" and g.bool(0.05)],
            "pairs": g.list(1, 4, pair), "then": changes(g, n, edges, shape == "any") if g.bool(0.5) else []}


def changes(g, n, edges, cycles):
    """Later changes, after each of which everything is asked again. Operands are positions, resolved (or skipped) when applied."""
    out = []
    for _ in range(g.int(1, 3)):
        k = g.pick(["add_edge", "remove_edge", "remove", "add", "add_edge", "move_edge"])
        if k in ("add_edge", "move_edge"):
            i, j = g.int(0, n), g.int(0, n)
            out.append([k, min(i, j), max(i, j)] if not cycles else [k, i, j])
        else:
            out.append([k, g.int(0, n), g.int(0, 20)])
    return out


def apply_change(g, nodes, edges, roots, c):
    """Applies one change to the graph and to (nodes, edges, roots); False when it says nothing here."""
    k, i, j = c
    if k == "add":
        name = "extra%d" % len(nodes)
        if name in nodes:
            return False
        if j % 2:
            roots.add(name)
        lib.guard("add_node", g.add_node, node_id=name, node_type=ROOT if j % 2 else "OTHER_NODE_TYPE")
        nodes.append(name)
        return True
    if not nodes:
        return False
    a, b = nodes[i % len(nodes)], nodes[j % len(nodes)]
    if k in ("remove_edge", "move_edge"):
        if not edges:
            return False
        x, y = sorted(edges)[j % len(edges)]
        if k == "move_edge" and (a == b or (a, b) in edges):
            return False
        lib.guard("remove_edge", g.remove_edge, x, y)
        edges.discard((x, y))
        if k == "remove_edge":
            return True
    if k == "remove":
        lib.guard("remove_node_by_id", g.remove_node_by_id, a)
        nodes.remove(a)
        roots.discard(a)
        edges.difference_update({e for e in edges if a in e})
        return True
    if a == b or (a, b) in edges:
        return False
    lib.guard("add_edge", g.add_edge, a, b)
    edges.add((a, b))
    return True


def build(case):
    g = lib.DAGraph()
    names = case["names"]
    for i in case["insert"]:
        t = "".join(["INPUT_ROOT_", "NODE_TYPE"]) if i in case["roots"] else "OTHER_NODE_TYPE"
        lib.guard("add_node", g.add_node, node_id=names[i], node_type=t)
    for a, b in case["edges"]:
        lib.guard("add_edge", g.add_edge, names[a], names[b])
    for i in case.get("removed", []):
        lib.guard("remove_node_by_id", g.remove_node_by_id, names[i])
    gone = {names[i] for i in case.get("removed", [])}
    nodes = [n for n in names if n not in gone]
    edges = {(names[a], names[b]) for a, b in case["edges"] if names[a] not in gone and names[b] not in gone}
    return g, nodes, edges


def has_cycle(nodes, edges):
    left, es = set(nodes), set(edges)
    while left:
        heads = {n for n in left if not any(b == n for _, b in es)}
        if not heads:
            return True
        left -= heads
        es = {(a, b) for a, b in es if a in left}
    return False


def paths(edges, a, b, limit, sofar=()):
    sofar = sofar + (a,)
    if len(sofar) > limit:
        return []
    if a == b:
        return [list(sofar)]
    return [p for x, y in sorted(edges) if x == a for p in paths(edges, y, b, limit, sofar)]


def check(case, ctx):
    if "long" in case:
        return check_long(case, ctx)
    g, nodes, edges = build(case)
    roots = {case["names"][i] for i in case["roots"]}
    pairs = [(case["names"][i], case["names"][j], limit) for i, j, limit in case["pairs"]]
    inspect(g, nodes, edges, roots, pairs, ctx)
    for c in case.get("then", []):
        if apply_change(g, nodes, edges, roots, c):
            ctx.label("asked again after " + c[0])
            pairs = pairs[:2] + [(nodes[c[1] % len(nodes)], nodes[c[2] % len(nodes)], 20)] if nodes else pairs[:2]
            inspect(g, nodes, edges, roots, pairs, ctx)


def inspect(g, nodes, edges, root_names, pairs, ctx):
    heads = [n for n in nodes if not any(b == n for _, b in edges)]
    tails = [n for n in nodes if not any(a == n for a, _ in edges)]
    got = lib.guard("get_heads_id", g.get_heads_id)
    require(sorted(got) == sorted(heads), "heads are %s, expected %s", sorted(got), sorted(heads))
    got = lib.guard("get_tails_id", g.get_tails_id)
    require(sorted(got) == sorted(tails), "tails are %s, expected %s", sorted(got), sorted(tails))
    cyclic = has_cycle(nodes, edges)
    loose = [h for h in heads if h not in root_names]
    found = {}
    for e in lib.guard("validate", g.validate).errors:
        for k, v in e.items():
            require(k not in found, "validation reports %s twice", k)
            found[k] = v
    require(bool(found.get("CIRCULAR_REFS")) == cyclic, "circular references reported: %r, but the graph %s", found.get("CIRCULAR_REFS"), "has a cycle" if cyclic else "has no cycle")
    for i in found.get("CIRCULAR_REFS") or []:
        require(i in nodes, "circular references name %r, which is not a node", i)
    require(sorted(found.get("UNCONNECTED_NODES") or []) == sorted(loose), "unconnected nodes reported %s, expected %s", sorted(found.get("UNCONNECTED_NODES") or []), sorted(loose))
    require(set(found) <= {"CIRCULAR_REFS", "UNCONNECTED_NODES"}, "unexpected errors %s", sorted(found))
    ctx.label("cyclic" if cyclic else "acyclic", "unconnected" if loose else "connected")
    ctx.nt(cyclic)
    for a, b, limit in pairs:
        if cyclic or loose or a not in nodes or b not in nodes:
            lib.refused("get_all_paths(%r, %r) on an invalid graph or with an unknown node" % (a, b), g.get_all_paths, a, b, limit)
            continue
        got = lib.guard("get_all_paths(%r, %r)" % (a, b), g.get_all_paths, a, b, limit) if limit != 20 else lib.guard("get_all_paths(%r, %r)" % (a, b), g.get_all_paths, a, b)
        want = paths(edges, a, b, limit)
        require(sorted(map(list, got)) == sorted(want), "paths %r -> %r of at most %d nodes: %s, expected %s", a, b, limit, sorted(got), sorted(want))
        ctx.nt(len(want) > 1)
        ctx.label("paths: %s" % ("none" if not want else "one" if len(want) == 1 else "several"))
        full = paths(edges, a, b, 99)
        if len(full) > len(want):
            ctx.label("cut by the limit")
    if not cyclic and not loose and nodes:
        lib.refused("get_all_paths from an unknown node", g.get_all_paths, "nowhere", nodes[0])
        lib.refused("get_all_paths to an unknown node", g.get_all_paths, nodes[0], "nowhere")
