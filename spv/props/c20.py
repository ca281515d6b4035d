from spv import lib
from spv.core import require

EXAMPLES = {"quick": 2500, "thorough": 80000}
RULE = "sequences of up to 25 graph operations over a pool of colliding ids, three node factories; non-trivial = a node with links was removed or a generated id was needed while numeric ids were taken"
IDS = ["1", "2", "3", "a", "b", "4", "5", "a_SLOT", "", "10", "11", "ü", "01"]
ODD = [None, 1, 0, 2.5, True, ["1"], ("1",), b"1", {"a": 1}]
TYPES = ["BONE", "SLOT", "IK", "ATTACHMENT", "IMAGE"]
FORBIDDEN = {
    "BONE": {"ATTACHMENT"}, "SLOT": {"BONE", "PATH", "IK"}, "IK": {"PATH", "IK", "ATTACHMENT", "IMAGE"},
    "ATTACHMENT": {"PATH", "IK", "ATTACHMENT", "BONE"}, "IMAGE": {"DEFAULT", "BONE", "SLOT", "PATH", "IK", "ATTACHMENT", "IMAGE"},
}
TYPES_OF = {"default": [0, "INPUT_ROOT_NODE_TYPE", 7], "spine": TYPES, "custom": ["X", "Y", "Z"]}
CUSTOM = {"X": {"Y"}, "Y": {"Z", "Y"}, "Z": set()}


class CustomFactory(lib.INodeFactory):
    def create_node(self, node_type, node_id, order, node_data=None, public_id=None):
        # the type is rebuilt so that it is equal to, but not the same object as, the forbidden one
        t = "".join(list(node_type)) if isinstance(node_type, str) else node_type
        return lib.SpamNode(node_id, order, data=node_data, node_type=t, children_types_forbidden=["".join(list(x)) for x in sorted(CUSTOM.get(node_type, ()))])


def generate(g, tier):
    factory = g.pick(["default", "spine", "custom"])
    types = TYPES_OF[factory]
    ids = IDS[: g.int(3, len(IDS))]

    def op(i):
        # several numeric ids first, so that fresh ids have something to collide with
        k = g.weighted([(5, "add"), (8, "edge"), (3, "auto"), (3, "remove"), (2, "unedge"), (1, "fresh"), (1, "odd"), (1, "fan")])
        if k == "add":
            return [k, g.pick(ids), g.pick(types), g.int(0, 3)]
        if k == "auto":
            return [k, g.pick(types), g.int(0, 3)]
        if k == "edge" or k == "unedge":
            return [k, g.int(0, 30), g.int(0, 30), g.bool(0.12)]
        if k == "fan":
            return [k, g.int(0, 30), g.int(3, 13), g.pick(["parents", "children"])]
        if k == "remove":
            return [k, g.int(0, 30), g.bool(0.1)]
        if k == "odd":
            return [k, g.pick(["add", "get", "edge1", "edge2", "remove"]), g.int(0, len(ODD) - 1)]
        return [k]
    first = g.list(0, len(ids), lambda i: ["add", ids[i], g.pick(types), g.int(0, 3)], cont=0.85)
    return {"factory": factory, "ids": ids, "ops": first + g.list(3, 25, op, cont=0.93)}


def name(pool, i):
    """pool: every id known so far and some unknown ones."""
    return pool[i % len(pool)]


def verify(g, nodes, edges, what, universe):
    for i in universe:
        n = lib.guard("get_node(%r)" % i, g.get_node, i)
        require((n is not None) == (i in nodes), "%s: get_node(%r) %s, the model says %s", what, i, "found a node" if n is not None else "found nothing", "present" if i in nodes else "absent")
    for i, (t, data) in nodes.items():
        n = g.get_node(i)
        require(n.id == i and n.node_type == t and n.data == data, "%s: node %r carries id %r, type %r, data %r", what, i, n.id, n.node_type, n.data)
        ch = sorted(b for a, b in edges if a == i)
        pa = sorted(a for a, b in edges if b == i)
        require(sorted(n.children) == ch, "%s: children of %r are %s, expected %s", what, i, sorted(n.children), ch)
        require(sorted(n.parents) == pa, "%s: parents of %r are %s, expected %s", what, i, sorted(n.parents), pa)
        require(n.num_children == len(ch) and n.num_parents == len(pa), "%s: counters of %r", what, i)
        for k, m in list(n.children.items()) + list(n.parents.items()):
            require(m is g.get_node(k), "%s: link %r of node %r does not lead to the node of that id", what, k, i)
    distinct = lib.guard("collecting the nodes in a set", lambda: len({g.get_node(n) for n in nodes}))
    require(distinct == len(nodes), "%s: %d nodes collected in a set are %d", what, len(nodes), distinct)
    heads = lib.guard("get_heads_id", g.get_heads_id)
    require(set(heads) == {i for i in nodes if not any(b == i for _, b in edges)}, "%s: heads %s", what, sorted(heads))


def check(case, ctx):
    fac = {"default": None, "spine": lib.SpineNodeFactory(), "custom": CustomFactory()}[case["factory"]]
    forb = {"default": {}, "spine": FORBIDDEN, "custom": CUSTOM}[case["factory"]]
    g = lib.DAGraph(fac) if fac else lib.DAGraph()
    nodes, edges, generated = {}, set(), set()
    universe = list(case["ids"])
    for n, op in enumerate(case["ops"]):
        k = op[0]
        what = "after operation %d %r" % (n, op)
        pool = sorted(nodes) + (["nowhere"] if op[-1] is True or not nodes or k == "odd" else [])
        if k == "add":
            if op[1] in nodes:
                lib.refused("add_node(%r) again" % op[1], g.add_node, node_id=op[1], node_type=op[2], node_data={"v": op[3]})
                ctx.label("duplicate id")
            else:
                r = lib.guard("add_node(%r)" % op[1], g.add_node, node_id=op[1], node_type=op[2], node_data={"v": op[3]})
                require(r is g.get_node(op[1]), "add_node(%r) did not return the node", op[1])
                nodes[op[1]] = (op[2], {"v": op[3]})
        elif k == "auto":
            r = lib.guard("add_node() without id", g.add_node, node_type=op[1], node_data={"v": op[2]})
            require(isinstance(r.id, str) and r.id not in nodes and r.id not in generated, "generated id %r is not fresh (%s)", r.id, sorted(nodes))
            generated.add(r.id)
            if any(x.isdigit() for x in nodes):
                ctx.label("generated among numeric ids")
                ctx.nt()
            nodes[r.id] = (op[1], {"v": op[2]})
            if r.id not in universe:
                universe.append(r.id)
        elif k == "fresh":
            i = lib.guard("generate_unique_id", g.generate_unique_id)
            require(isinstance(i, str) and i not in nodes and i not in generated, "generate_unique_id gave %r, taken ids are %s", i, sorted(nodes))
            generated.add(i)
        elif k == "fan":
            a = name(pool, op[1])
            for _ in range(op[2]):
                if a not in nodes:
                    break
                # the new node has the type of the hub where that is allowed, else any allowed one
                ok = [t for t in TYPES_OF[case["factory"]] if (t not in forb.get(nodes[a][0], ()) if op[3] == "children" else nodes[a][0] not in forb.get(t, ()))]
                if not ok:
                    break
                r = lib.guard("add_node() without id", g.add_node, node_type=ok[0], node_data={"v": 0})
                require(r.id not in nodes and r.id not in generated, "generated id %r is not fresh (%s)", r.id, sorted(nodes))
                generated.add(r.id)
                nodes[r.id] = (ok[0], {"v": 0})
                universe.append(r.id)
                e = (a, r.id) if op[3] == "children" else (r.id, a)
                lib.guard("add_edge%r" % (e,), g.add_edge, *e)
                edges.add(e)
        elif k == "edge":
            a, b = name(pool, op[1]), name(pool, op[2])
            bad = a not in nodes or b not in nodes or a == b or nodes[b][0] in forb.get(nodes[a][0], ())
            if bad:
                lib.refused("add_edge(%r, %r)" % (a, b), g.add_edge, a, b)
                ctx.label("refused edge: " + ("unknown" if a not in nodes or b not in nodes else "self" if a == b else "type"))
            else:
                lib.guard("add_edge(%r, %r)" % (a, b), g.add_edge, a, b)
                if (a, b) in edges:
                    ctx.label("edge again")
                if (b, a) in edges:
                    ctx.label("both directions")
                edges.add((a, b))
        elif k == "unedge":
            known = sorted(edges)
            if known and op[1] % 4:
                a, b = known[op[2] % len(known)]
                lib.guard("remove_edge(%r, %r)" % (a, b), g.remove_edge, a, b)
                edges.discard((a, b))
                ctx.label("edge removed")
            else:
                a, b = name(pool, op[1]), name(pool, op[2])
                if (a, b) not in edges:
                    try:
                        g.remove_edge(a, b)
                    except lib.Hang:
                        raise
                    except Exception:
                        pass
        elif k == "remove":
            a = name(pool, op[1])
            if a not in nodes:
                lib.refused("remove_node_by_id(%r)" % a, g.remove_node_by_id, a)
                ctx.label("unknown node removed")
            else:
                old = g.get_node(a)
                r = lib.guard("remove_node_by_id(%r)" % a, g.remove_node_by_id, a)
                require(r is old, "remove_node_by_id(%r) did not return the node", a)
                lost = {e for e in edges if a in e}
                if lost:
                    ctx.nt()
                    ctx.label("linked node removed")
                edges -= lost
                del nodes[a]
        else:
            x = ODD[op[2]]
            i = name(pool, op[2])
            call = {"add": lambda: g.add_node(node_id=x), "get": lambda: g.get_node(x), "edge1": lambda: g.add_edge(x, i),
                    "edge2": lambda: g.add_edge(i, x), "remove": lambda: g.remove_node_by_id(x)}[op[1]]
            if op[1] == "add" and x is None:
                continue
            lib.refused("%s with the id %r" % (op[1], x), call)
            ctx.label("non-string id")
        verify(g, nodes, edges, what, universe)
