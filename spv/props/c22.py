from spv import lib
from spv.core import require
from spv.props import c21

EXAMPLES = {"quick": 2500, "thorough": 80000}
RULE = "acyclic graphs of up to 22 nodes in any insertion and edge order, some nodes removed again; non-trivial = a node has two parents, one of them at a greater depth than the other"


def generate(g, tier):
    if g.bool(0.003):
        return dict(c21.long_case(g), back=None)
    big = g.bool(0.1)
    n = g.int(10, 22) if big else g.int(1, 9)
    names = g.shuffled(["n%d" % i for i in range(n)]) if g.bool() else [str(n - i) for i in range(n)]
    p = g.pick([0.05, 0.15]) if big else g.pick([0.15, 0.3, 0.6])
    edges = [[i, j] for i in range(n) for j in range(i + 1, n) if g.bool(p)]
    return {"names": names, "insert": g.shuffled(list(range(n))), "edges": g.shuffled(edges), "roots": g.subset(list(range(n)), 0.3),
            "removed": [i for i in range(n) if g.bool(0.05)], "then": c21.changes(g, n, edges, g.bool(0.3)) if g.bool(0.4) else []}


def check(case, ctx):
    if "long" in case:
        g, nodes, edges, _ = c21.build_long(case)
        order = lib.guard("sequential_order_of_execution of a chain", g.sequential_order_of_execution)
        require(list(order) == nodes, "the order of a chain of %d nodes is not the chain", len(nodes))
        ctx.label("long chain")
        return ctx.nt()
    g, nodes, edges = c21.build(case)
    inspect(g, nodes, edges, ctx)
    for c in case.get("then", []):
        if c21.apply_change(g, nodes, edges, set(), c):
            if c21.has_cycle(nodes, edges):
                break
            ctx.label("asked again after " + c[0])
            inspect(g, nodes, edges, ctx)


def inspect(g, nodes, edges, ctx):
    before = sorted(edges)
    order = lib.guard("sequential_order_of_execution", g.sequential_order_of_execution)
    require(sorted(order) == sorted(nodes), "the order lists %s, the nodes are %s", order, sorted(nodes))
    pos = {n: i for i, n in enumerate(order)}
    for a, b in before:
        require(pos[a] < pos[b], "%r comes before its parent %r in %s (edges %s)", b, a, order, before)
    again = lib.guard("sequential_order_of_execution", g.sequential_order_of_execution)
    require(list(again) == list(order), "asking for the order again gives %s after %s", again, order)
    require(sorted((p, n) for n in nodes for p in g.get_node(n).parents) == before, "asking for the order changed the links")
    depth = {}

    def d(n):
        if n not in depth:
            depth[n] = 1 + max([d(a) for a, b in edges if b == n] or [-1])
        return depth[n]
    for n in nodes:
        ps = {d(a) for a, b in edges if b == n}
        ctx.nt(len(ps) > 1)
    ctx.label("%d heads" % min(3, sum(1 for n in nodes if d(n) == 0)))
