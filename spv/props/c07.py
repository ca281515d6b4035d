from spv import gen, lib, model
from spv.core import require, require_same

EXAMPLES = {"quick": 700, "thorough": 20000}
RULE = "documents x 1-3 erase calls with other edits between them and lists mixing present, absent and repeated names; non-trivial = some but not all animations were erased"


def generate(g, tier):
    doc = gen.gen_doc(g, gen.Cfg(anims=(0, 5), slots=(0, 4), big=0.12))
    names = model.anim_names(doc)
    lookalikes = [n + " " for n in names[:1]] + [n[:-1] for n in names[:1]] + [n.upper() for n in names[:1]]
    extra = [x for x in ["none such", "", "None", "anim", "0"] + lookalikes if x not in names]

    def call(_):
        sel = g.subset(names, 0.4)
        for _i in range(g.weighted([(5, 0), (2, 1), (1, 2)])):
            sel.append(g.pick(extra))
        if sel and g.bool(0.1):
            sel.append(g.pick(sel))
        return [g.shuffled(sel), g.bool(0.6), g.bool(0.6), g.weighted([(8, "list"), (1, "tuple"), (1, "str"), (1, "set"), (1, "dict"), (1, "None"), (1, "iter")])]
    def between(_):
        return gen.gen_op(g, [], [], ["scale", "clean", "erase_skins"], True)[0]
    calls = g.list(1, 3, call)
    return {"doc": doc, "calls": calls, "between": [g.list(0, 2, between, cont=0.4) for _ in calls]}


def flags(strict, safe, names):
    """Keyword arguments of a call; values that are the default are left out for every other list of names."""
    kw = {"strict_mode": strict, "is_safe_mode": safe}
    return {k: v for k, v in kw.items() if len(names) % 2 or v != {"strict_mode": True, "is_safe_mode": False}[k]}


def check(case, ctx):
    ed = lib.editor(case["doc"])
    done = []
    for n, (names, strict, safe, kind) in enumerate(case["calls"]):
        for op in (case.get("between") or [[]] * 9)[n]:
            lib.apply_op(ed, op)
            ctx.label("other edits between")
        before = lib.export(ed)
        present = model.anim_names(before)
        if kind != "list":
            arg = {"tuple": lambda: tuple(names), "str": lambda: "".join(names) or "x", "set": lambda: set(names), "dict": lambda: {n: 1 for n in names},
                   "None": lambda: None, "iter": lambda: iter(names)}[kind]()
            e = lib.refused("erase_animations with a %s" % kind, ed.erase_animations, arg, **flags(strict, safe, names))
            require(isinstance(e, TypeError), "erase_animations with a %s raised %s", kind, type(e).__name__)
            require_same(before, lib.export(ed), "a call with a wrong type changed the document")
            ctx.label("wrong type")
            continue
        unknown = [n for n in names if n not in present]
        dup = len(set(names)) != len(names)
        if strict and unknown:
            e = lib.refused("erase_animations(%r, strict)" % names, ed.erase_animations, list(names), **flags(True, safe, names))
            require(isinstance(e, ValueError), "strict erase of unknown animations raised %s", type(e).__name__)
            ctx.label("strict unknown")
            continue
        if strict and dup:
            continue  # repeating a name in strict mode: refusing it is as good as accepting it
        r = lib.guard("erase_animations(%r, strict=%s, safe=%s)" % (names, strict, safe), ed.erase_animations, list(names), **flags(strict, safe, names))
        after = lib.export(ed)
        want = [n for n in present if n not in names]
        require(model.anim_names(after) == want, "erasing %r from %r left %r", names, present, model.anim_names(after))
        require_same(after, r.result_data_json, "returned document differs from the editor's export")
        if safe:
            expect = dict(before)
            expect["animations"] = {n: before["animations"][n] for n in want} if want else {}
            require_same(model.norm(expect, prune=False), model.norm(after, prune=False), "safe mode changed something else")
            summary = [list(x) for x in r.result_summary]
            require(summary == [[], []], "safe mode reported removals: %r", summary)
        if unknown:
            ctx.label("lenient unknown")
        if dup:
            ctx.label("lenient repeated")
        ctx.label("safe" if safe else "unsafe")
        # every document returned earlier is still what it was then
        done.append((r, repr(r)))
        for old, text in done:
            require(repr(old) == text, "a result returned earlier changed")
        ctx.nt(0 < len(want) < len(present))
