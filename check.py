#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decides one property; see DESIGN.md
check.py --replay FILE                       replays a reported violation natively

Exit 0: held on everything explored. Exit 1: `VIOLATION property=<id> replay=<path>`. Exit 2: no answer."""
import json, os, random, re, resource, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
sys.dont_write_bytecode = True
import build
from plan import PLAN, bound

NATIVE_TIMEOUT = 20
OUTCOME = {10: "assertion", 11: "panic"}


def fail(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def native(exe, harness, params, inputs, filt):
    """Runs the real build on concrete inputs. Returns (status, log, covers, outcome line)."""
    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    env = {k: v for k, v in os.environ.items() if not k.startswith("HX_")}
    for k in ("mute", "only"):
        if filt.get(k):
            env["HX_" + k.upper()] = filt[k]
    try:
        p = subprocess.run([exe, harness, params] + [str(i) for i in inputs], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=NATIVE_TIMEOUT, preexec_fn=lim)
    except subprocess.TimeoutExpired:
        return "timeout", None, None, "still running after %d s" % NATIVE_TIMEOUT
    out = p.stdout.decode("utf-8", "replace")
    log = covers = None
    outcome = "no outcome"
    for line in out.split("\n"):
        if line.startswith("log: "):
            log = [int(x) for x in line[5:].split()]
        elif line.startswith("covers:"):
            covers = line[7:].split()
        elif line.startswith("outcome: "):
            outcome = line[9:]
    if p.returncode < 0:
        outcome = "killed by signal %d: %s" % (-p.returncode, p.stderr.decode("utf-8", "replace")[-200:].strip())
    return p.returncode, log, covers, outcome


def reproduced(status):
    return status == "timeout" or status in OUTCOME or status < 0


def symex(exe, ll, h, filt, jobs, deadline, seed, samples):
    pre = os.path.join(build.B, "out-%s-%d" % (h["harness"], os.getpid()))
    cmd = [exe, ll, h["harness"], "--params", h["params"], "--jobs", str(jobs), "--out", pre,
           "--deadline", "%.0f" % deadline, "--seed", str(seed), "--samples", str(samples)] + (["--max-steps", str(h["steps"])] if h["steps"] else [])
    for k in ("mute", "only"):
        if filt.get(k):
            cmd += ["--" + k, filt[k]]
    t = time.time()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    r = {"wall_s": time.time() - t, "covers": {}, "violations": [], "samples": [], "funcs": set(), "lines": {}, "errors": []}
    rows = []
    for line in p.stdout.split("\n"):
        if line.strip():
            try:
                rows.append(json.loads(line))
            except ValueError:
                r["errors"].append("unreadable output of the executor: " + line[:200])
    if not rows:
        r["errors"].append("the executor gave no output: " + p.stderr[-500:])
    for k in ("paths", "paths_with_panics", "assumed_out", "insts", "forks", "asserts", "asserts_symbolic",
              "queries", "sat", "unsat", "cached", "solver_us"):
        r[k] = sum(x.get(k, 0) for x in rows)
    for k in ("max_path_insts", "max_inputs"):
        r[k] = max([x.get(k, 0) for x in rows] or [0])
    for x in rows:
        for c, n in x.get("covers", {}).items():
            r["covers"][c] = r["covers"].get(c, 0) + n
        r["violations"] += x.get("violations", [])
        r["samples"] += x.get("samples", [])
        r["funcs"].update(x.get("funcs", []))
        for f, l in x.get("lines", {}).items():
            r["lines"].setdefault(f, set()).update(l)
        if "error" in x:
            r["errors"].append(x["error"])
    if p.returncode != 0 and not r["errors"]:
        r["errors"].append("executor exit %d: %s" % (p.returncode, p.stderr[-500:]))
    return r


def replay_file(path):
    d = json.load(open(path))
    with build.lock():
        exes = build.replayers()
    bad = False
    for exe in exes:
        s, _, _, o = native(exe, d["harness"], d["params"], d["inputs"], d.get("filter", {}))
        print("%s: %s" % (os.path.basename(os.path.dirname(exe)), o))
        bad |= reproduced(s)
    print("reproduced" if bad else "not reproduced")
    sys.exit(1 if bad else 0)


def demangle(names):
    """Readable names."""
    names = sorted(names)
    try:
        p = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True, check=True)
        out = p.stdout.strip().split("\n")
    except (OSError, subprocess.CalledProcessError):
        out = names
    return {re.sub(r"\[[0-9a-f]{8,}\]", "", n) for n in out}


def main():
    args = sys.argv[1:]
    if args[:1] == ["--replay"]:
        replay_file(args[1])
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    plan = PLAN[pid]
    runs = plan.get(tier) or plan["quick"]
    filt = {k: plan[k] for k in ("mute", "only") if k in plan}
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", "780" if tier == "quick" else "3000"))
    jobs = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
    evid = os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if os.path.exists(evid):
        os.unlink(evid)

    lock = build.lock()
    build.refresh()
    sx = build.symex()
    ll, entries = build.ir()
    exes = build.replayers()
    build_s = time.time() - t0

    errors, confirmed, details = [], [], []
    tot = {k: 0 for k in ("paths", "paths_with_panics", "assumed_out", "insts", "forks", "asserts", "asserts_symbolic",
                          "queries", "sat", "unsat", "cached", "solver_us")}
    funcs, lines, traces, sample_out, unconfirmed = set(), {}, 0, [], []
    for i, h in enumerate(runs):
        left = budget - (time.time() - t0)
        r = symex(sx, ll, h, filt, jobs, max(20.0, left), seed, 4)
        name = h["harness"] + "(" + h["params"] + ")"
        for k in tot:
            tot[k] += r[k]
        funcs |= r["funcs"]
        for f, l in r["lines"].items():
            lines.setdefault(os.path.relpath(f, "/repo"), set()).update(l)
        # Counterexamples: replayed against the real build before they count.
        vs = sorted(r["violations"], key=lambda v: (len(v["inputs"]), v["inputs"]))
        for v in vs[:6]:
            nat = {}
            for exe in exes:
                s, _, _, o = native(exe, h["harness"], h["params"], v["inputs"], filt)
                nat[os.path.basename(os.path.dirname(exe))] = (s, o)
            if any(reproduced(s) for s, _ in nat.values()):
                confirmed.append(dict(v, harness=h["harness"], params=h["params"], filter=filt,
                                      native={k: o for k, (_, o) in nat.items()}))
                break
            unconfirmed.append("%s: %s (%s) on inputs %s does not reproduce: %s" % (name, v["msg"], v["kind"], v["inputs"], nat))
        # Sampled paths: the real build has to behave as the encoding says.
        val = 0
        for k, s in enumerate(r["samples"]):
            for exe in exes[:1] if k % 2 else exes:
                st, log, _, o = native(exe, h["harness"], h["params"], s["inputs"], filt)
                if st != 0 or log != s["log"]:
                    errors.append("%s: the encoding and the real build disagree on inputs %s: %s" % (name, s["inputs"], o))
                else:
                    val += 1
        traces += val
        if r["samples"]:
            s = random.Random(seed).choice(r["samples"])
            sample_out.append({"harness": name, "inputs": s["inputs"], "observed": s["log"][:40]})
        if not r["violations"]:
            errors += ["%s: %s" % (name, e) for e in r["errors"]]
            miss = [c for c in h["covers"] if not r["covers"].get(c)]
            if miss and not r["errors"]:
                errors.append("%s: vacuous: never reached %s" % (name, ", ".join(miss)))
        details.append({"harness": name, "wall_s": round(r["wall_s"], 2), "paths": r["paths"], "paths_with_caught_panics": r["paths_with_panics"],
                        "assumed_out": r["assumed_out"], "instructions": r["insts"], "assertions": r["asserts"],
                        "assertions_decided_by_solver": r["asserts_symbolic"],
                        "queries": r["queries"], "longest_path_instructions": r["max_path_insts"], "symbolic_inputs_max": r["max_inputs"],
                        "reached": r["covers"], "violations": len(r["violations"]), "errors": r["errors"]})
        print("%s: %d paths, %d queries, %d assertions, %.1f s%s" % (
            name, r["paths"], r["queries"], r["asserts"], r["wall_s"], ", %d counterexamples" % len(r["violations"]) if r["violations"] else ""), flush=True)
        if confirmed:
            break
    lock.close()
    if not confirmed:
        errors += unconfirmed

    ours = sorted(f for f in demangle(funcs) if re.match(r"<*(&|&mut )?dendron::", f) or "_7dendron" in f[:60])
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["forks"],
            "transitions": tot["insts"],
            "traces_validated_against_impl": traces,
            "samples": sample_out,
            "states_means": "path forks: points at which the solver found more than one feasible continuation",
            "transitions_means": "LLVM IR instructions executed symbolically",
            "traces_means": "completed symbolic paths re-run in the native dev and release builds with equal observations",
            "paths": tot["paths"], "paths_with_caught_panics": tot["paths_with_panics"], "paths_assumed_out": tot["assumed_out"],
            "assertions_checked": tot["asserts"], "assertions_decided_by_solver": tot["asserts_symbolic"],
            "queries": tot["queries"], "queries_sat": tot["sat"], "queries_unsat": tot["unsat"], "queries_from_cache": tot["cached"],
            "solver": "z3 (z3-new)", "solver_s": round(tot["solver_us"] / 1e6, 3), "build_s": round(build_s, 2),
            "bounds": [h["harness"] + "(" + h["params"] + "): " + bound(h) for h in runs],
            "assertion_filter": filt,
            "harnesses": details,
            "functions_encoded": len(funcs), "functions_encoded_of_dendron": ours,
            "source_lines_executed": {f: len(l) for f, l in sorted(lines.items())},
        },
        "assumptions": [
            "the bounds of each harness (tools/plan.py, DESIGN.md); nothing is claimed outside them",
            "allocation does not fail; one thread; data of type u8 (and the types named in DESIGN.md)",
            "rustc's translation of the crate to LLVM IR (stable toolchain, dev profile, fat LTO); replays also use the release profile",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(confirmed),
    }
    with open(evid, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    if confirmed:
        v = confirmed[0]
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, pid + ".json")
        v["property"] = pid
        v["how"] = "python3 check.py --replay " + os.path.relpath(path, VERIF)
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
            f.write("\n")
        print("%s(%s) inputs %s: %s: %s" % (v["harness"], v["params"], v["inputs"], v["kind"], v["msg"]))
        for k, o in v["native"].items():
            print("  native %s: %s" % (k, o))
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        sys.exit(1)
    if errors:
        for e in errors[:10]:
            print("ERROR: " + e)
        sys.exit(2)
    print("%s held: %d paths, %d queries (%d unsat), %d traces replayed natively, %.1f s" % (
        pid, tot["paths"], tot["queries"], tot["unsat"], traces, time.time() - t0))


main()
