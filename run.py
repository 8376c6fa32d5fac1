#!/usr/bin/env python3
"""Check one property:  python3-vt run.py C01   (VERIF_TIER=quick|thorough)."""

import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import warnings

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-W", "ignore"] + sys.argv)

warnings.simplefilter("ignore")
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
REAL_PYTHON = "/opt/venv/bin/python"
SITE = "/opt/venv/lib/python3.12/site-packages"
sys.dont_write_bytecode = True


class Replayer:
    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ, VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE="1")
        env.pop("PYTHONHASHSEED", None)
        self.p = subprocess.Popen(
            [REAL_PYTHON, "-W", "ignore", os.path.join(VERIF, "tools", "concrete.py")],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            text=True,
            env=env,
            cwd=VERIF,
        )

    def __call__(self, req):
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = ""
        if not line:
            self.p = None
            return {"status": "error", "msg": "replay server died", "obs": []}
        return json.loads(line)

    def close(self):
        if self.p is not None:
            self.p.stdin.close()
            self.p.wait()


def load_known():
    """id -> (property, text) of open findings."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:"):
                parts = line[len("known:") :].split(None, 2)
                out[parts[1].split("=", 1)[1]] = (parts[0].split("=", 1)[1], parts[2])
    return out


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t_start = time.time()
    known = load_known()

    sys.path.insert(0, VERIF)
    sys.path.append(SITE)
    from symex import instr

    instr.install({"rsm": REPO, "harness": VERIF})
    from symex import shadow

    from symex import logstub

    shadow.install()
    logstub.install()
    from symex.explore import explore

    scratch = tempfile.mkdtemp(prefix="vf_")
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    replay = Replayer()
    violations, known_hit, unreproduced, import_error = [], {}, [], None
    per_harness, funcs, samples = [], set(), []
    tot = {"paths": 0, "branches": 0, "forks": 0, "queries": 0, "solver_s": 0.0,
           "asserts": 0, "wit": 0, "wit_ok": 0, "wit_bad": 0, "states": 0}
    all_exhaustive, vacuous = True, []
    os.chdir(scratch)
    try:
        try:
            # nothing the code under test prints or logs may look like a verdict
            err_fd = os.dup(2)
            if not os.environ.get("SYMEX_DEBUG"):
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 2)
            mod = importlib.import_module("harness." + pid.lower())
        except Exception as ex:
            os.dup2(err_fd, 2)
            print(f"ERROR property={pid} harness or code under test cannot be imported: {ex!r}")
            import_error = ex
            raise
        n_h = len(mod.HARNESSES)
        scale = float(os.environ.get("VERIF_SCALE", "1"))
        for h in mod.HARNESSES:
            name = h["fn"].__name__
            if only and name != only:
                continue
            params = dict(h.get("params", {}))
            params.update(h.get(tier, {}))
            budget = h.get("budget", {}).get(tier, 60 if tier == "quick" else 400) * scale
            req0 = {"property": pid, "module": "harness." + pid.lower(), "fn": name,
                    "params": params, "timeout": h.get("path_timeout", 20)}
            seen = set()

            def on_candidate(msg, assignment):
                key = (name, msg)
                if msg.startswith("[") and "]" in msg:
                    kid = msg[1 : msg.index("]")]
                    if kid in known_hit:
                        return False
                    key = (name, kid)
                if key in seen and len(seen) > 0:
                    if sum(1 for k in seen if k == key) >= 1 and key in confirmed_keys:
                        return False
                seen.add(key)
                res = replay(dict(req0, assignment=assignment))
                if res["status"] != "violation":
                    unreproduced.append({"harness": name, "msg": msg, "replay": res["status"],
                                         "detail": res["msg"], "assignment": assignment})
                    return len(unreproduced) > 40
                return record(res["msg"], assignment)

            confirmed_keys = set()

            def record(msg, assignment):
                if msg.startswith("[") and "]" in msg:
                    kid = msg[1 : msg.index("]")]
                    if kid in known and known[kid][0] == pid:
                        known_hit.setdefault(kid, (msg, assignment))
                        confirmed_keys.add((name, kid))
                        return False
                body = dict(req0, assignment=assignment, msg=msg)
                digest = hashlib.sha1(
                    json.dumps(body, sort_keys=True).encode()
                ).hexdigest()[:10]
                path = os.path.join(replays, f"{pid}-{digest}.json")
                with open(path, "w") as f:
                    json.dump(body, f, indent=1)
                violations.append((path, msg, name))
                return True

            ex = explore(
                h["fn"], params, budget,
                jobs=int(os.environ.get("VERIF_JOBS", "8")),
                path_timeout=h.get("path_timeout", 20),
                batch=h.get("batch", 40), slice_s=h.get("slice", 0.5),
                witness_rate=h.get("witness_rate", 0.1),
                seed=seed, root=REPO, on_candidate=on_candidate,
            )
            # validate sampled passing paths against the real code
            wit_ok = wit_bad = 0
            bad = []
            t_w = time.time()
            wlimit = h.get("witness_limit", 15) if tier == "quick" else 60
            ordered = ex.witnesses[:20] + ex.witnesses[20::max(1, len(ex.witnesses) // 200)]
            for a, obs in ordered:
                if time.time() - t_w > wlimit or violations:
                    break
                res = replay(dict(req0, assignment=a))
                if res["status"] == "violation":
                    if record(res["msg"], a):
                        break
                elif res["status"] == "done" and same(
                    json.loads(json.dumps(obs)), res["obs"]
                ):
                    wit_ok += 1
                else:
                    wit_bad += 1
                    bad.append({"assignment": a, "status": res["status"], "msg": res["msg"]})
                    if os.environ.get("SYMEX_DEBUG"):
                        print("WITNESS MISMATCH", json.dumps(a), res["status"], res["msg"])
                        for x, y in zip(json.loads(json.dumps(obs)), res["obs"]):
                            if x != y:
                                print("  sym:", x, "\n  real:", y)
            done = ex.statuses.get("done", 0)
            if not done and not violations and not any("not encodable" in k for k in ex.incomplete):
                vacuous.append(name)
            exh = ex.exhaustive and not wit_bad
            all_exhaustive &= exh
            funcs |= ex.funcs
            for s in ex.samples[:3]:
                samples.append({"harness": name, "path_model": s})
            st = ex.stats
            tot["paths"] += ex.paths
            for k in ("branches", "forks", "queries", "solver_s"):
                tot[k] += st.get(k, 0)
            tot["asserts"] += st.get("asserts_checked", 0)
            tot["states"] += ex.paths + st.get("forks", 0)
            tot["wit_ok"] += wit_ok
            tot["wit_bad"] += wit_bad
            per_harness.append({
                "harness": name, "bounds": h.get("bounds", ""), "params": params,
                "paths": ex.paths, "path_endings": ex.statuses,
                "branches_decided": st.get("branches", 0), "forks": st.get("forks", 0),
                "queries": st.get("queries", 0), "unknown": st.get("unknown", 0),
                "solver_s": round(st.get("solver_s", 0), 2),
                "assertions_checked": st.get("asserts_checked", 0),
                "assertions_symbolic": st.get("asserts_symbolic", 0),
                "witnesses_replayed_ok": wit_ok, "witness_mismatches": wit_bad,
                "mismatch_examples": bad[:2],
                "unexplored_prefixes": ex.pending, "incomplete_paths": ex.incomplete,
                "crashed_workers": ex.crashed, "exhaustive": exh,
                "max_depth": ex.maxdepth, "max_symbolic_vars": ex.nvars,
                "wall_s": round(ex.wall, 1),
            })
            print(f"{pid}/{name}: paths={ex.paths} {ex.statuses} queries={st.get('queries',0)}"
                  f" solver={st.get('solver_s',0):.1f}s asserts={st.get('asserts_checked',0)}"
                  f" witnesses={wit_ok}/{wit_ok+wit_bad} exhaustive={exh} pending={ex.pending}"
                  f" incomplete={ex.incomplete} wall={ex.wall:.1f}s", flush=True)
            if violations:
                break
    finally:
        replay.close()
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)

    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["states"],
            "transitions": tot["branches"],
            "traces_validated_against_impl": tot["wit_ok"],
            "samples": samples[:12],
            "exhaustive": bool(all_exhaustive and not vacuous),
            "paths": tot["paths"],
            "solver_queries": tot["queries"],
            "solver_seconds": round(tot["solver_s"], 2),
            "assertions_discharged": tot["asserts"],
            "functions_encoded": sorted(f"{a}:{b}" for a, b in funcs),
            "harnesses": per_harness,
            "counterexamples_not_reproduced": unreproduced[:5],
            "witness_mismatches": tot["wit_bad"],
            "vacuous_harnesses": vacuous,
            "known_findings_hit": sorted(known_hit),
            "meaning": "states = nodes of the explored path-condition trees; transitions = "
            "branch decisions taken by the solver on them",
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t_start, 1),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for kid, (msg, a) in sorted(known_hit.items()):
        print(f"KNOWN-FINDING: property={pid} {kid} {known[kid][1]}")
    if unreproduced:
        print(f"INCONCLUSIVE: {len(unreproduced)} counterexample(s) did not reproduce on the "
              f"real code, e.g. {unreproduced[0]['msg'][:200]!r} (not reported)")
        if os.environ.get("SYMEX_DEBUG"):
            for u in unreproduced[:5]:
                print(json.dumps(u))
    if violations:
        path, msg, name = violations[0]
        print(f"{name}: {msg}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if vacuous and not only:
        print(f"ERROR property={pid} no path reached the end of: {', '.join(vacuous)}")
        return 2
    print(f"OK property={pid} tier={tier} exhaustive={evidence['coverage']['exhaustive']}")
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception as ex:
        import traceback

        traceback.print_exc(file=sys.stdout)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
