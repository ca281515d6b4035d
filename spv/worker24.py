"""Runs one edit history and returns everything C24 compares; as a program: JSON lines in, JSON lines out."""
import io
import json
import os
import shutil
import sys
import tempfile


def run(case):
    from spv import lib
    from spv.core import Violation
    tmp = tempfile.mkdtemp(prefix="spv-c24-")
    out = {"reported": [], "results": []}
    try:
        try:
            ed = lib.editor(json.loads(json.dumps(case["doc"])))
            for op in case["ops"]:
                ed, r = lib.apply_op(ed, op)
                if op[0] == "erase_anims":
                    out["results"].append(json.dumps(r[0]))
                    out["reported"].append([sorted(map(str, x)) for x in r[1]])
                elif op[0] == "erase_skins":
                    out["reported"].append([sorted(map(str, x)) for x in r[0]])
                    out["reported"].append([sorted(map(str, r[1]))])
                elif op[0] == "clean":
                    out["reported"].append([sorted(map(str, x)) for x in r])
            lib.guard("to_json", ed.to_json, os.path.join(tmp, "doc.json"))
            lib.guard("save_images_json", ed.save_images_json, os.path.join(tmp, "img.json"))
            for k, f in (("saved file", "doc.json"), ("images file", "img.json")):
                with open(os.path.join(tmp, f), "rb") as h:
                    out[k] = h.read().decode("utf-8")
        except Violation as e:
            if isinstance(e, lib.Hang):
                raise
            out["error"] = str(e)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def main():
    real = os.fdopen(os.dup(1), "w")
    for line in sys.stdin:
        sys.stdout = io.StringIO()
        real.write(json.dumps(run(json.loads(line))) + "\n")
        real.flush()


if __name__ == "__main__":
    main()
