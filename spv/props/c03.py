import json
import os
import shutil
import tempfile

from spv import gen, lib
from spv.core import require, require_same

EXAMPLES = {"quick": 450, "thorough": 12000}
RULE = "documents x 0-2 edits x 1-3 saves to generated paths; non-trivial = a save after an edit or to a bare/nested/existing path"
KINDS = ["bare", "existing dir", "new dir", "nested new dir", "absolute", "dot", "over longer file", "over shorter file"]
FILES = ["out.json", "a b.json", "ünï.json", "noext", "x.y.z.json"]


def generate(g, tier):
    doc = gen.gen_doc(g, gen.Cfg(slots=(0, 4)))
    ops = gen.gen_ops(g, doc, kinds=("erase_anims", "erase_skins", "clean", "scale"), lo=0, hi=2)
    saves = g.list(1, 3, lambda i: [g.pick(KINDS), g.pick(FILES), g.bool(), g.int(0, len(ops)), g.weighted([(3, None), (1, "changed"), (1, "removed"), (1, "kept"), (1, "other")])])
    return {"doc": doc, "ops": ops, "saves": saves, "format": [g.pick([None, 0, 2, 4, "\t"]), g.bool(0.7), g.bool(0.3)]}


def check(case, ctx):
    tmp = tempfile.mkdtemp(prefix="spv-c03-")
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        run(case, ctx, tmp)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def read(path):
    try:
        with open(path, encoding="utf-8") as f:
            return json.load(f)
    except Exception as e:
        from spv.core import Violation
        raise Violation("saved file %r does not parse: %s" % (path, e))


def run(case, ctx, tmp):
    with open("input.json", "w", encoding="utf-8") as f:
        indent, ascii_only, newline = case.get("format", [None, True, False])
        json.dump(case["doc"], f, indent=indent, ensure_ascii=ascii_only)
        f.write("\n" if newline else "")
    ed = lib.guard("from_json_file", lib.SpineAnimationEditor.from_json_file, "input.json")
    ed0 = lib.editor(case["doc"])
    require_same(lib.export(ed0), lib.export(ed), "from_json_file differs from building the editor from the parsed document")
    for step in range(len(case["ops"]) + 1):
        if step:
            ed, _ = lib.apply_op(ed, case["ops"][step - 1])
        for n, (kind, name, images, at, then) in enumerate(s + [None] * (5 - len(s)) for s in case["saves"]):
            if at != step:
                continue
            sub = "d%d_%d" % (step, n)
            sub_dir = os.path.join(tmp, sub)
            if kind == "bare":
                path = "%s%s" % (sub, name)
            elif kind == "existing dir":
                os.mkdir(sub)
                path = os.path.join(sub, name)
            elif kind == "new dir":
                path = os.path.join(sub, name)
            elif kind == "nested new dir":
                os.mkdir(sub)
                path = os.path.join(sub, "x", "y z", name)
            elif kind == "absolute":
                path = os.path.join(tmp, sub, name)
            elif kind == "dot":
                path = "./%s%s" % (sub, name)
            else:
                path = os.path.join(tmp, sub + name)
                with open(path, "w") as f:
                    f.write("[1]" if kind == "over shorter file" else "]" * 200000)
            ctx.label(kind)
            save(ed, path, images, kind, "")
            ctx.nt(step > 0 or then is not None or kind not in ("existing dir", "absolute"))
            if then is None:
                continue
            # saved again after somebody else did something to the file
            ctx.label("saved again, file " + then)
            if then == "changed":
                with open(path, "w") as f:
                    f.write("{")
            elif then == "other":
                # another editor saves there in the meantime, or the other kind of file is written
                save(ed0 if ed is not ed0 else ed, path, not images, kind, ", the other kind of file")
            elif then == "removed":
                os.unlink(path)
                if os.path.isdir(sub_dir):
                    shutil.rmtree(sub_dir)
            save(ed, path, images, kind, ", again after the file was " + then)


def save(ed, path, images, kind, when):
    if images:
        lib.guard("save_images_json(%s%s)" % (kind, when), ed.save_images_json, path)
        require_same(lib.images(ed), read(path), "saved image references (%s%s)" % (kind, when))
        return
    lib.guard("to_json(%s%s)" % (kind, when), ed.to_json, path)
    now = lib.export(ed)
    require_same(now, read(path), "saved document (%s%s)" % (kind, when))
    ed2 = lib.guard("from_json_file on the saved file", lib.SpineAnimationEditor.from_json_file, path)
    require_same(now, lib.export(ed2), "export of the editor loaded from the saved file")
    require_same(lib.images(ed), lib.images(ed2), "image references of the editor loaded from the saved file")
