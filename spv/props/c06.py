import copy

from spv import gen, lib
from spv.core import require, require_same

EXAMPLES = {"quick": 450, "thorough": 15000}
RULE = "one document object, two editors, interleaved edits with mutation of everything returned; non-trivial = both editors edited and a returned document mutated"


def generate(g, tier):
    doc = gen.gen_doc(g, gen.Cfg(slots=(0, 4)))
    ops = [gen.gen_ops(g, doc, kinds=("erase_anims", "erase_skins", "clean", "scale"), lo=g.int(0, 2), hi=3) for _ in range(2)]
    order = g.shuffled([0] * len(ops[0]) + [1] * len(ops[1]))
    return {"doc": doc, "ops": ops, "order": order, "mutate": [g.bool(0.7) for _ in order] + [g.bool(0.7)]}


def scramble(x, depth=0):
    """Change x in place at every level."""
    if isinstance(x, dict):
        for v in list(x.values()):
            scramble(v, depth + 1)
        for k in list(x)[: 1 if depth else 0]:
            del x[k]
        x["scrambled"] = 1
    elif isinstance(x, list):
        for v in x:
            scramble(v, depth + 1)
        x.append("scrambled")
        if len(x) > 2:
            x.reverse()
    elif isinstance(x, tuple):
        for v in x:
            scramble(v, depth + 1)


def check(case, ctx):
    doc = copy.deepcopy(case["doc"])
    eds = [lib.editor(doc), lib.editor(doc)]
    refs = [lib.editor(copy.deepcopy(case["doc"])) for _ in range(2)]
    todo = [list(o) for o in case["ops"]]
    kept = []  # (object returned earlier, its value then)
    for n, w in enumerate(case["order"]):
        op = todo[w].pop(0)
        arg = copy.deepcopy(op)
        other_before = lib.export(eds[1 - w])
        if op[0] == "erase_anims":
            names = list(op[1])
            r = lib.guard("erase_animations", eds[w].erase_animations, names, strict_mode=op[2], is_safe_mode=op[3])
            require(names == op[1], "erase_animations changed the list it was given: %r -> %r", op[1], names)
        elif op[0] == "erase_skins":
            names = list(op[1])
            r = lib.guard("erase_skins", eds[w].erase_skins, names, is_safe_mode=op[2])
            require(names == op[1], "erase_skins changed the list it was given: %r -> %r", op[1], names)
        else:
            _, r = lib.apply_op(eds[w], arg)
        refs[w], _ = lib.apply_op(refs[w], copy.deepcopy(op))
        require_same(case["doc"], doc, "the caller's document changed by %s" % op[0])
        require_same(other_before, lib.export(eds[1 - w]), "an edit (%s) of one editor changed the other" % op[0])
        out = lib.export(eds[w])
        res = [r, out]
        if case["mutate"][n]:
            scramble(res)
            ctx.label("mutated")
            require_same(case["doc"], doc, "changing a returned object changed the caller's document")
            ctx.nt(len(set(case["order"])) == 2)
        else:
            kept.append((res, copy.deepcopy(res), op[0]))
        for i in range(2):
            require_same(lib.export(refs[i]), lib.export(eds[i]), "editor diverged from an editor with the same edits and no outside changes, after %s" % op[0])
            require_same(lib.images(refs[i]), lib.images(eds[i]), "image references diverged from an editor with the same edits and no outside changes, after %s" % op[0])
    if case["mutate"][-1]:
        before = [lib.export(e) for e in eds]
        scramble(doc)
        for b, e in zip(before, eds):
            require_same(b, lib.export(e), "changing the caller's document changed an editor built from it")
            lib.apply_op(e, ["clean"])
        for r, e in zip(refs, eds):
            lib.apply_op(r, ["clean"])
            require_same(lib.export(r), lib.export(e), "changing the caller's document changed the later clean-up of an editor built from it")
        ctx.label("source mutated")
    for obj, value, what in kept:
        require(repr(obj) == repr(value) or obj == value, "an object returned by %s changed later", what)
