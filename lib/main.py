"""Runs one check: python lib/main.py <ID> [--replay FILE] [--facet NAME]"""
import importlib.util
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vh  # noqa: E402

EVID = os.path.join(vh.ROOT, "evidence")


def load(pid):
    path = os.path.join(vh.ROOT, "checks", pid.lower() + ".py")
    sys.path.insert(0, os.path.join(vh.ROOT, "checks"))
    spec = importlib.util.spec_from_file_location("check_" + pid.lower(), path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def known_findings(pid):
    """Lines `known: property=<id> facet=<name> match=<text> :: <what fails>`; only listed failures are suppressed."""
    out = []
    path = os.path.join(vh.ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith(f"known: property={pid} "):
                head, _, what = line.partition(" :: ")
                facet = head.split("facet=")[1].split(" match=")[0]
                out.append((facet, head.split(" match=")[1].strip(), what.strip()))
    return out


def replay(pid, path):
    doc = json.load(open(path))
    mod = load(pid)  # noqa: F841
    for f in vh.FACETS:
        if f.name == doc["facet"]:
            try:
                vh.run_case(f, doc["case"])
            except vh.Violation as exc:
                print(f"facet {f.name}: {exc}")
                print(f"VIOLATION property={pid} replay={path}")
                return 1
            print("replay: held")
            return 0
    print("no such facet")
    return 2


def main():
    pid = sys.argv[1]
    args = sys.argv[2:]
    if "--replay" in args:
        return replay(pid, args[args.index("--replay") + 1])
    start = time.monotonic()
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    evid_path = os.path.join(EVID, pid + ".json")
    if os.path.exists(evid_path):
        os.remove(evid_path)
    load(pid)
    facets = list(vh.FACETS)
    if "--facet" in args:
        facets = [f for f in facets if f.name == args[args.index("--facet") + 1]]
    work = os.path.join(EVID, f".work-{pid}-{os.getpid()}")
    os.makedirs(work)
    nproc = min(len(facets), max(1, min(8, os.cpu_count() or 1)))
    pending, running, results = list(enumerate(facets)), {}, {}
    hard = time.monotonic() + 840
    try:
        while pending or running:
            while pending and len(running) < nproc:
                i, f = pending.pop(0)
                out = os.path.join(work, f"{i}.json")
                sys.stdout.flush()
                sys.stderr.flush()
                child = os.fork()
                if child == 0:
                    code = 0
                    try:
                        vh.facet_child(f, vh.SEED, vh.TIER, out)
                    except BaseException:  # noqa: BLE001
                        code = 3
                    os._exit(code)
                running[child] = (i, f, out)
            if running:
                child, _status = os.waitpid(-1, os.WNOHANG)
                if child == 0:
                    if time.monotonic() > hard:
                        for c in running:
                            os.kill(c, 9)
                        print("check ran out of time", file=sys.stderr)
                        return 4
                    time.sleep(0.02)
                    continue
                if child not in running:
                    continue
                i, f, out = running.pop(child)
                if os.path.exists(out):
                    results[i] = json.load(open(out))
                else:
                    results[i] = {"facet": f.name, "rule": f.rule, "evaluations": 0, "distinct_nontrivial": 0, "samples": [],
                                  "violation": None, "error": f"child ended without a result (status {_status})",
                                  "stopped": None, "wall_s": 0}
    finally:
        for name in os.listdir(work):
            os.remove(os.path.join(work, name))
        os.rmdir(work)
    res = [results[i] for i in sorted(results)]
    known = known_findings(pid)
    violations, errors = [], []
    for r in res:
        if r["violation"]:
            msg = r["violation"]["message"]
            hit = next((w for fac, m, w in known if fac == r["facet"] and m in msg), None)
            if hit is not None:
                print(f"KNOWN-FINDING: property={pid} {hit}")
                continue
            path = os.path.join("evidence", "replay", f"{pid}-{r['facet']}.json")
            with open(os.path.join(vh.ROOT, path), "w") as fh:
                json.dump({"property": pid, "facet": r["facet"], "message": msg, "seed": vh.SEED, "tier": vh.TIER,
                           "case": r["violation"]["case"]}, fh, indent=1)
            violations.append((path, r["facet"], msg))
        elif r["error"]:
            errors.append((r["facet"], r["error"]))
    evidence = {
        "property": pid, "tier": vh.TIER, "seed": vh.SEED, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in res),
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in res),
            "rule": "Cases built by Hypothesis strategies, counted distinct by content. " + " | ".join(
                f"{r['facet']}: {r['rule']}" for r in res),
            "samples": [{"facet": r["facet"], "case": s} for r in res for s in r["samples"][:1]],
            "facets": {r["facet"]: {"evaluations": r["evaluations"], "distinct_nontrivial": r["distinct_nontrivial"],
                                    "wall_s": r["wall_s"], "stopped": r["stopped"]} for r in res},
        },
        "wall_s": round(time.monotonic() - start, 2),
        "violations": [{"facet": f, "replay": p, "message": m} for p, f, m in violations],
    }
    with open(evid_path, "w") as fh:
        json.dump(evidence, fh, indent=1)
    for r in res:
        flag = ("VIOLATED" if any(v[1] == r["facet"] for v in violations) else "known finding") if r["violation"] else ("ERROR" if r["error"] else "ok")
        print(f"  {pid}/{r['facet']}: {flag} cases={r['evaluations']} nontrivial={r['distinct_nontrivial']} {r['wall_s']}s")
    for path, fac, msg in violations:
        print(f"  {fac}: {msg}")
        print(f"VIOLATION property={pid} replay={path}")
    if violations:
        return 1
    if errors:
        for fac, e in errors:
            print(f"check error in facet {fac}:\n{e}", file=sys.stderr)
        return 3
    weak = [r["facet"] for r in res if r["evaluations"] and not r["distinct_nontrivial"] and not r["violation"]]
    if weak:
        print("facets without a non-trivial case: " + ", ".join(weak), file=sys.stderr)
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
