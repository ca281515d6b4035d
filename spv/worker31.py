"""Runs sessions for C31, each in a process forked from one that has only imported the library; as a program: JSON lines in, JSON lines out."""
import copy
import io
import json
import os
import shutil
import sys
import tempfile


def plain(x):
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (set, frozenset)):
        return sorted((plain(v) for v in x), key=repr)
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def reported(op, r):
    """What the call returned, sets as sorted lists; the lists of removed names are not ordered."""
    if r is None:
        return None
    if op[0] == "erase_anims":
        return [plain(r[0]), [sorted(map(str, x)) for x in r[1]]]
    if op[0] == "erase_skins":
        return [[sorted(map(str, x)) for x in r[0]], sorted(map(str, r[1]))]
    return [sorted(map(str, x)) for x in r]


def noise(ed, kind, tmp, lib):
    """Things that ask but do not edit, and calls that are refused."""
    if kind == "export":
        d = lib.export(ed)
        d.clear()
    elif kind == "nested":
        d = lib.export(ed)
        for v in d.values():
            if isinstance(v, (list, dict)):
                v.clear()
    elif kind == "save":
        lib.guard("to_json", ed.to_json, os.path.join(tmp, "d.json"))
        lib.guard("save_images_json", ed.save_images_json, os.path.join(tmp, "i.json"))
    elif kind == "images":
        lib.guard("get_images_references", ed.get_images_references)
    elif kind == "graph":
        for t in ("BONE", "SLOT", "ATTACHMENT", "IMAGE", "IK"):
            lib.guard("get_heads_with_type", ed.spine_graph.get_heads_with_type, t)
            lib.guard("get_leafs_of_type", ed.spine_graph.get_leafs_of_type, t)
        lib.guard("sequential_order_of_execution", ed.spine_graph.graph.sequential_order_of_execution)
    elif kind == "other graph":
        c = lib.guard("building a graph", lib.SpineGraphContainer, lib.export(ed))
        lib.guard("remove_leafs_of_type", c.remove_leafs_of_type, "IMAGE")
        lib.guard("remove_heads_of_type", c.remove_heads_of_type, "BONE")
    elif kind == "lookup":
        for n in ("root", "default", "none such"):
            for f in ("get_bone", "get_slot", "get_skin"):
                lib.guard(f, getattr(ed.spine_anim_data.data, f), n)
        lib.guard("get_slots_with_alpha_zero", ed.spine_anim_data.data.get_slots_with_alpha_zero)
    elif kind == "refused anims":
        lib.refused("erase_animations([unknown])", ed.erase_animations, ["no such animation", "none"], strict_mode=True)
    elif kind == "refused type":
        lib.refused("erase_animations(None)", ed.erase_animations, None)
    elif kind == "refused skins":
        lib.refused("erase_skins([unknown])", ed.erase_skins, ["no such skin"])
    elif kind == "bad document":
        d = lib.export(ed)
        d["slots"] = [{"name": "s"}] + list(d.get("slots") or [])
        lib.refused("loading a slot without bone", lib.SpineAnimationEditor, d)


def run(job):
    """job: docs, steps ([which, op] or [which, "noise", kind] or [which, "load"]), reload. Observations per document."""
    from spv import lib
    from spv.core import Violation
    tmp = tempfile.mkdtemp(prefix="spv-c31-")
    obs = [[] for _ in job["docs"]]
    eds = {}

    def see(w, op, r):
        obs[w].append([op[0], reported(op, r), plain(lib.export(eds[w])), plain(lib.images(eds[w])), str(eds[w].spine_version)])
    try:
        try:
            for w, op, *kind in job["steps"]:
                if op == "load":
                    eds[w] = lib.editor(copy.deepcopy(job["docs"][w]))
                    see(w, ["load"], None)
                elif op == "noise":
                    noise(eds[w], kind[0], tmp, lib)
                else:
                    if job["reload"]:
                        eds[w] = lib.guard("reloading the export", lib.SpineAnimationEditor, lib.export(eds[w]))
                    eds[w], r = lib.apply_op(eds[w], copy.deepcopy(op))
                    see(w, op, r)
        except Violation as e:
            if isinstance(e, lib.Hang):
                raise
            return {"error": str(e)}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return {"obs": obs}


def main():
    from spv import lib
    lib.SpineAnimationEditor
    real = os.fdopen(os.dup(1), "w")
    sys.stdout = io.StringIO()
    for line in sys.stdin:
        pid = os.fork()
        if pid == 0:
            try:
                real.write(json.dumps(run(json.loads(line))) + "\n")
                real.flush()
            finally:
                os._exit(0)
        _, status = os.waitpid(pid, 0)
        if status:
            os._exit(3)


if __name__ == "__main__":
    main()
