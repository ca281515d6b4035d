import atexit
import copy
import json
import os
import subprocess
import sys

from spv import gen, lib
from spv.core import HarnessError, Violation, require, require_same

EXAMPLES = {"quick": 250, "thorough": 9000}
RULE = ("one or two documents (the second often a variant of the first with the same names) loaded and edited in one process, edits interleaved with queries, refused calls and changes to returned objects, "
        "against each document edited alone in a fresh process and against exporting and reloading before every edit; non-trivial = an edit that changed a document came after another edit and after a query or an edit of the other document")
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
W = []
NOISE = ["export", "nested", "save", "images", "graph", "other graph", "lookup", "refused anims", "refused type", "refused skins", "bad document"]


def worker():
    if not W or W[0].poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1")
        W[:] = [subprocess.Popen([sys.executable, "-B", "-m", "spv.worker31"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=HERE, start_new_session=True)]
        atexit.register(kill, W[0])
    return W[0]


def kill(w):
    try:
        os.killpg(w.pid, 9)
    except OSError:
        pass
    w.wait()


def ask(job):
    w = worker()
    try:
        w.stdin.write(json.dumps(job).encode() + b"\n")
        w.stdin.flush()
        line = w.stdout.readline()
    except lib.Hang:
        kill(w)
        raise
    if not line:
        raise HarnessError("worker died")
    r = json.loads(line.decode())
    require("error" not in r, "%s", r.get("error"))
    return r["obs"]


def variant(g, doc):
    """A valid document with the same names of things but other contents."""
    d = copy.deepcopy(doc)
    if g.bool(0.3):
        d["skeleton"]["images"] = g.pick(["./other/", "", "img"])
    for n, b in enumerate(d["bones"]):
        if n and g.bool(0.3):
            b["parent"] = d["bones"][g.int(0, n - 1)]["name"]
        if not n:
            continue
        if g.bool(0.3):
            b["x"] = g.pick([7, -3.5])
            b["scaleX"] = g.pick([2, 0.5])
    for s in d.get("slots") or []:
        if g.bool(0.3):
            s["color"] = g.pick(["ffffff00", "ffffffff", "11223344"])
        if g.bool(0.2):
            s.pop("attachment", None)
        if g.bool(0.2):
            s["bone"] = g.pick(d["bones"])["name"]
    for sk in d.get("skins") or []:
        for slot, atts in sorted((sk.get("attachments") or {}).items()):
            for key, a in sorted(atts.items()):
                if a.get("type") in (None, "region", "mesh") and g.bool(0.3):
                    a["path"] = g.pick(["img1", "img2", "other image"])
                    a["width"] = g.pick([11, 99])
    anims = d.get("animations") or {}
    for n in sorted(anims):
        if g.bool(0.2):
            anims[n].pop("slots", None)
        if g.bool(0.2):
            anims[n].pop("drawOrder", None)
    names = sorted(anims)
    if len(names) > 1 and g.bool(0.4):
        anims[names[0]], anims[names[1]] = anims[names[1]], anims[names[0]]
    if names and g.bool(0.2):
        del anims[g.pick(names)]
    return d


def generate(g, tier):
    cfg = gen.focused(g, bones=(0, 4), slots=(1, 5), skins=(0, 3), anims=(0, 3), rich=0.05, consts=0.3, other=0.25, tags=0.35)
    docs = [gen.gen_doc(g, cfg)]
    if g.bool(0.6):
        docs.append(variant(g, docs[0]) if g.bool(0.8) else gen.gen_doc(g, cfg))
    todo = []
    for i, d in enumerate(docs):
        ops = gen.gen_ops(g, d, kinds=("erase_anims", "clean", "erase_skins", "scale"), lo=1, hi=3, keep_anim=g.bool(0.8))
        todo.append([[i, o] for o in ops])
    order = g.shuffled([i for i, t in enumerate(todo) for _ in t])
    late = [g.bool(0.4) for _ in docs]
    steps = [[i, "load"] for i in range(len(docs)) if not late[i]]
    loaded = [not x for x in late]
    again = g.bool(0.15)
    for w in order:
        if not loaded[w]:
            steps.append([w, "load"])
            loaded[w] = True
        for _ in range(g.weighted([(4, 0), (4, 1), (2, 2)])):
            x = g.pick([i for i, l in enumerate(loaded) if l])
            steps.append([x, "noise", g.pick(NOISE)])
        op = todo[w].pop(0)
        steps.append(op)
        if again and op[1][0] in ("clean", "scale"):
            steps.append(copy.deepcopy(op))
        if g.bool(0.2):
            steps.append([w, ["erase_anims", [], g.bool(), g.bool(0.7)]])
    return {"docs": docs, "steps": steps}


def check(case, ctx):
    docs = case["docs"]
    together = ask({"docs": docs, "steps": case["steps"], "reload": False})
    for i in range(len(docs)):
        mine = [[0] + s[1:] for s in case["steps"] if s[0] == i and s[1] != "noise"]
        if not mine:
            continue
        for how, reload in (("alone in a fresh process", False), ("with the export reloaded before every edit", True)):
            ref = ask({"docs": [docs[i]], "steps": mine, "reload": reload})[0]
            require(len(ref) == len(together[i]), "harness: observations differ in number")
            for n, (a, b) in enumerate(zip(ref, together[i])):
                what = "step %d (%s) of document %d, against the same edits %s: " % (n, a[0], i, how)
                if a[0] == "erase_anims":
                    require_same(a[1][0], b[1][0], what + "the returned document")
                    require_same(a[1][1], b[1][1], what + "the removals reported")
                else:
                    require_same(a[1], b[1], what + "the removals reported")
                require_same(a[2], b[2], what + "the export")
                require_same(a[3], b[3], what + "the image references")
                require_same(a[4], b[4], what + "the version")
    edits = 0
    for o in together:
        for n, (a, b) in enumerate(zip(o, o[1:])):
            if n and a[2] != b[2]:
                edits += 1
    ctx.nt(edits > 0 and (len(docs) > 1 or any(s[1] == "noise" for s in case["steps"])))
    ctx.label("two documents" if len(docs) > 1 else "one document")
    for s in case["steps"]:
        if s[1] == "noise":
            ctx.label(s[2])
