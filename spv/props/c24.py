import atexit
import json
import os
import subprocess
import sys

from spv import gen, lib
from spv.core import HarnessError, Violation, require

EXAMPLES = {"quick": 260, "thorough": 8000}
RULE = "documents x 1-3 edits, run in this process and in two worker processes with other hash seeds; non-trivial = at least two slots or attachments were removed and attachments of at least two images remain"
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SEEDS = ["1", "4242", "77"]
WORKERS = {}


def worker(seed):
    w = WORKERS.get(seed)
    if w is None or w.poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED=seed, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1")
        w = subprocess.Popen([sys.executable, "-B", "-m", "spv.worker24"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=HERE)
        WORKERS[seed] = w
        atexit.register(w.kill)
    return w


def ask(seed, case):
    w = worker(seed)
    try:
        w.stdin.write(json.dumps(case).encode() + b"\n")
        w.stdin.flush()
        line = w.stdout.readline()
    except lib.Hang:
        w.kill()
        w.wait()
        raise
    if not line:
        raise HarnessError("worker died")
    return json.loads(line.decode())


def generate(g, tier):
    doc = gen.gen_doc(g, gen.focused(g, slots=(2, 6), bones=(0, 3), skins=(0, 2), rich=0.04, consts=0.3, other=0.2))
    return {"doc": doc, "ops": gen.gen_ops(g, doc, kinds=("clean", "erase_anims", "erase_skins", "erase_anims", "scale"), lo=1, hi=3, keep_anim=g.bool(0.9))}


def check(case, ctx):
    from spv import worker24
    here = worker24.run(case)
    for seed in SEEDS:
        there = ask(seed, case)
        for k in here:
            if here[k] != there.get(k):
                raise Violation("%s differs between processes with hash seeds 0 and %s: %s" % (k, seed, first_difference(here[k], there.get(k))))
    require("error" not in here, "%s", here.get("error"))
    removed = sum(len(s) for r in here["reported"] for s in r)
    imgs = json.loads(here["images file"])
    ctx.nt(removed >= 2 and len(imgs) >= 2)
    if removed:
        ctx.label("removals reported")


def first_difference(a, b):
    if isinstance(a, str) and isinstance(b, str):
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        return "%r vs %r" % (a[max(0, i - 40):i + 40], b[max(0, i - 40):i + 40])
    return "%r vs %r" % (a, b)
