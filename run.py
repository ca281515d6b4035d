#!/usr/bin/env python3-vt
"""Runner: run.py ID [--tier quick|thorough] [--replay FILE] (see DESIGN.md)."""
import argparse
import glob
import hashlib
import importlib
import io
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
CASE_LIMIT_S = 90


def child_env(hashseed="0"):
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = hashseed
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONPYCACHEPREFIX"] = "/nonexistent-pycache"
    env["PYTHONIOENCODING"] = "utf-8"
    env.pop("PYTHONPATH", None)
    return env


def load_prop(pid):
    return importlib.import_module("spv.props." + pid.lower())


def run_case(mod, case, ctx):
    """check(case) with the hang guard.

    The checks never fail on the unchanged tree, so when the evaluation of a result fails (say, because the library
    returned None where it returns a list) the library returned something no property allows.
    """
    from spv.core import Hang, Violation, HarnessError

    def on_alarm(*_):
        raise Hang("a library call did not return within %d s" % CASE_LIMIT_S)

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(CASE_LIMIT_S)
    try:
        mod.check(case, ctx)
    except (Violation, HarnessError, AssertionError, OSError, MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        f = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation("the result could not be evaluated: %s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(f.filename), f.lineno)) from e
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def import_failure(mod_name, e):
    return {"violation": "the library could not be imported: %s: %s" % (type(e).__name__, e), "case": None}


def shard_main(pid, tier, shard, nshards, seed, out):
    from spv.core import Violation, Hang, Ctx, G
    res = {"evaluations": 0, "hashes": [], "labels": {}, "samples": [], "violation": None, "case": None,
           "error": None, "corpus": 0, "recent": []}
    real_stdout = sys.stdout
    sys.stdout = io.StringIO()
    try:
        try:
            mod = load_prop(pid)
        except (ImportError, SyntaxError, AttributeError):
            res["error"] = traceback.format_exc()
            return
        import hypothesis
        import hypothesis.internal.conjecture.engine as eng
        from hypothesis import settings, Phase, HealthCheck
        from hypothesis.strategies import SearchStrategy
        # Hypothesis' mutator copies parts of a case over others; with hand-written draws that mostly misaligns the
        # rest of the choices and degrades documents towards empty ones, so every case is drawn afresh instead.
        eng.ConjectureRunner.generate_mutations_from = lambda self, data: None
        eng.MAX_SHRINKING_SECONDS = 45 if tier == "quick" else 240
        stop_at = time.monotonic() + (420 if tier == "quick" else float(os.environ.get("SPV_THOROUGH_S", "5400")))
        hashes = set()
        last = {}
        shrinking = {"on": False}

        def one(case):
            if sys.stdout.tell() > 1 << 20:
                sys.stdout.seek(0), sys.stdout.truncate(0)
            ctx = Ctx()
            if not shrinking["on"]:
                res["evaluations"] += 1
            try:
                run_case(mod, case, ctx)
            except Hang as e:
                res["violation"], res["case"] = str(e), case
                raise KeyboardInterrupt  # do not shrink a hang
            except Violation as e:
                last["v"], last["case"] = str(e), case
                shrinking["on"] = True
                raise
            if not shrinking["on"]:
                for l in ctx.labels:
                    res["labels"][l] = res["labels"].get(l, 0) + 1
                if ctx.nontrivial:
                    s = json.dumps(case, sort_keys=True, ensure_ascii=False)
                    h = hashlib.blake2b(s.encode("utf-8", "surrogatepass"), digest_size=8).hexdigest()
                    if h not in hashes:
                        hashes.add(h)
                        if len(res["samples"]) < 2 and len(s) < 2500:
                            res["samples"].append(case)

        if shard == 0:
            for f in sorted(glob.glob(os.path.join(HERE, "corpus", pid, "*.json"))):
                case = json.load(open(f))["case"]
                ctx = Ctx()
                res["corpus"] += 1
                try:
                    run_case(mod, case, ctx)
                except Violation as e:
                    res["violation"], res["case"] = "saved input %s: %s" % (os.path.basename(f), e), case
                    return

        class Cases(SearchStrategy):
            def do_draw(self, data):
                return mod.generate(G(data), tier)

            def __repr__(self):
                return "Cases()"

        n = mod.EXAMPLES[tier]
        n = max(1, int(n * float(os.environ.get("SPV_SCALE", "1"))))

        @hypothesis.seed(seed * 1000 + shard)
        @settings(max_examples=n, deadline=None, database=None, phases=(Phase.generate, Phase.shrink),
                  suppress_health_check=list(HealthCheck), report_multiple_bugs=False, print_blob=False)
        @hypothesis.given(Cases())
        def test(case):
            if time.monotonic() > stop_at and not shrinking["on"]:
                res["truncated"] = True
                return
            one(case)

        try:
            test()
        except KeyboardInterrupt:
            if not res["violation"]:
                raise
        except Violation as e:
            res["violation"], res["case"] = last["v"], last["case"]
        except Exception as e:
            if "case" in last:  # history-dependent failure: the library really failed once
                res["violation"] = last["v"] + " [not reproduced in isolation: %s]" % type(e).__name__
                res["case"] = last["case"]
            else:
                res["error"] = traceback.format_exc()
        res["hashes"] = sorted(hashes)
    except BaseException:
        res["error"] = traceback.format_exc()
    finally:
        sys.stdout = real_stdout
        with open(out + ".tmp", "w") as f:
            json.dump(res, f)
        os.replace(out + ".tmp", out)


def write_replay(pid, case, msg, seed, tier):
    d = os.path.join(HERE, "out", "replay")
    os.makedirs(d, exist_ok=True)
    body = {"property": pid, "message": msg, "seed": seed, "tier": tier, "case": case}
    h = hashlib.blake2b(json.dumps(body, sort_keys=True).encode(), digest_size=5).hexdigest()
    path = os.path.join(d, "%s-%s.json" % (pid, h))
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def known_findings(pid):
    """known_findings.txt: lines 'KNOWN-FINDING: property=<id> input=<case file> <what fails>'."""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("KNOWN-FINDING: property=%s " % pid):
                out.append(line.rstrip("\n"))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--shard", type=int)
    ap.add_argument("--nshards", type=int, default=8)
    ap.add_argument("--out")
    a = ap.parse_args()
    pid = a.pid
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"

    if a.shard is not None:
        return shard_main(pid, tier, a.shard, a.nshards, seed, a.out)

    if a.replay:
        if os.environ.get("PYTHONHASHSEED") != "0":
            os.execve(sys.executable, [sys.executable, "-B", os.path.abspath(__file__)] + sys.argv[1:], child_env())
        from spv.core import Violation, Ctx
        mod = load_prop(pid)
        case = json.load(open(a.replay))["case"]
        real, sys.stdout = sys.stdout, io.StringIO()
        try:
            run_case(mod, case, Ctx())
        except Violation as e:
            sys.stdout = real
            print(e)
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
            return 1
        finally:
            sys.stdout = real
        print("OK: %s holds on %s" % (pid, a.replay))
        return 0

    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="spv-%s-" % pid)
    procs = []
    try:
        for k in range(a.nshards):
            out = os.path.join(tmp, "s%d.json" % k)
            log = open(os.path.join(tmp, "s%d.log" % k), "w")
            procs.append((k, out, subprocess.Popen(
                [sys.executable, "-B", os.path.abspath(__file__), pid, "--tier", tier, "--shard", str(k),
                 "--nshards", str(a.nshards), "--out", out],
                env=dict(child_env(), TMPDIR=tmp), stdout=log, stderr=subprocess.STDOUT, cwd=HERE)))
        results, errors, found = {}, [], None
        pending = dict((k, (o, p)) for k, o, p in procs)
        while pending and not found:
            for k in sorted(pending):
                o, p = pending[k]
                if p.poll() is None:
                    continue
                del pending[k]
                if not os.path.exists(o):
                    errors.append("shard %d died (rc %s): %s" % (k, p.returncode, open(os.path.join(tmp, "s%d.log" % k)).read()[-2000:]))
                    continue
                r = json.load(open(o))
                results[k] = r
                if r["violation"]:
                    found = r
                elif r["error"]:
                    errors.append("shard %d: %s" % (k, r["error"][-3000:]))
            time.sleep(0.05)
    finally:
        for _, _, p in procs:
            if p.poll() is None:
                p.kill()
        for _, _, p in procs:
            p.wait()
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)

    if errors and not found:
        sys.stderr.write("HARNESS ERROR in %s\n%s\n" % (pid, "\n".join(errors)))
        return 2
    mod = load_prop(pid)
    labels, hashes, samples, ev = {}, set(), [], 0
    for k in sorted(results):
        r = results[k]
        ev += r["evaluations"]
        hashes.update(r["hashes"])
        for l, c in r["labels"].items():
            labels[l] = labels.get(l, 0) + c
        for s in r["samples"]:
            if len(samples) < 3:
                samples.append(s)
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": len(hashes), "rule": mod.RULE, "samples": samples or [None],
            "labels": dict(sorted(labels.items())), "shards": len(results),
            "saved_inputs_replayed": sum(r["corpus"] for r in results.values()),
            "truncated_shards": sum(1 for r in results.values() if r.get("truncated")),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if found else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev_path = os.path.join(HERE, "evidence", pid + ".json")
    with open(ev_path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(ev_path + ".tmp", ev_path)
    if found:
        path = write_replay(pid, found["case"], found["violation"], seed, tier)
        print(found["violation"])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    for line in known_findings(pid):
        print(line)
    print("OK %s: %d cases, %d distinct non-trivial, %.1f s" % (pid, ev, len(hashes), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
