"""check PROPERTY [--tier quick|thorough]: decide one property of /repo's current tree.

Exit 0: held within the stated bounds (known findings are printed, not alarms).
Exit 1: VIOLATION, confirmed by replaying the solver's inputs against the real code.
Exit 2: no answer (build failure, solver limit, unsupported construct, vacuous harness).
"""
import sys, os, json, time, subprocess, fcntl, traceback, multiprocessing as mp
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/engine")
sys.path.insert(0, V + "/bin")
sys.setrecursionlimit(50000)
import props

CPUS = 8


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build(group):
    os.makedirs(V + "/target", exist_ok=True)
    out = V + "/target/%s.ll" % group
    with open(V + "/target/%s.lock" % group, "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh([V + "/engine/build.sh", group, out])
    if r.returncode:
        raise SystemExit("BUILD of %s failed:\n%s" % (group, (r.stdout + r.stderr)[-6000:]))
    return out


def native(group):
    with open(V + "/target/native-%s.lock" % group, "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh([V + "/engine/build.sh", "--native", group])
    if r.returncode:
        raise SystemExit("NATIVE BUILD of %s failed:\n%s" % (group, (r.stdout + r.stderr)[-6000:]))
    return r.stdout.strip()


def write_case(path, prop, group, harness, v):
    with open(path, "w") as f:
        f.write("# property %s harness %s (%s)\n# what: %s %s\n# rerun: %s/bin/replay %s\n" % (prop, harness, group, v.get("kind"), v.get("msg", ""), V, path))
        f.write("harness %s %s\n" % (group, harness))
        for x in v["inputs"]:
            f.write("in %d\n" % (x[1] if isinstance(x, (list, tuple)) else x))
        for tag, a, o in v["ufs"]:
            f.write("uf %s %s -> %s\n" % (tag, " ".join(map(str, a)), " ".join(map(str, o))))


def replay(so, harness, path):
    """1: the violation shows on the real code; 0: it does not; 77: assumptions not met."""
    r = sh([sys.executable, "-c", "import ctypes,sys; getattr(ctypes.CDLL(sys.argv[1]), sys.argv[2])()", so, harness],
           env=dict(os.environ, RSX_INPUT=path), timeout=60)
    rc = r.returncode
    return (1 if rc < 0 or rc == 134 else rc), (r.stdout + r.stderr)[-600:]


def run_rsx(path, jobs, deadline):
    """Harnesses of one module, several at a time, each in its own process (group)."""
    import rsx, llir
    mod = llir.Module(path)
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    pend, live, used, out = list(jobs), {}, 0, {}

    def work(j):
        try:
            left = deadline - time.time()
            r = rsx.run_harness(mod, j["h"], budget=min(j.get("budget", 800), left), hard=j.get("hard", 120), split=j.get("split", 1))
        except BaseException as ex:
            r = dict(harness=j["h"], error="%r\n%s" % (ex, traceback.format_exc()[-1500:]))
        q.put(r)
    while pend or live:
        while pend:
            w = min(pend[0].get("split", 1), CPUS)
            if live and used + w > CPUS:
                break
            j = pend.pop(0)
            p = ctx.Process(target=work, args=(j,))
            p.start()
            live[j["h"]] = (p, w)
            used += w
        try:
            r = q.get(timeout=5)
        except Exception:
            for h, (p, w) in list(live.items()):
                if not p.is_alive():
                    try:
                        r = q.get(timeout=1)
                        break
                    except Exception:
                        r = dict(harness=h, error="process died")
                        break
            else:
                continue
        h = r["harness"]
        out[h] = r
        p, w = live.pop(h)
        p.join()
        used -= w
    return [out[j["h"]] for j in jobs]


def known():
    try:
        return json.load(open(V + "/known_findings.json"))["known"]
    except FileNotFoundError:
        return []


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1].split(",") if "--only" in sys.argv else None
    spec = props.PROPS[prop]
    limit = 840 if tier == "quick" else 6 * 3600
    deadline = t0 + limit
    jobs = [j for j in spec["jobs"] if tier == "thorough" or j.get("tier", "quick") == "quick"]
    if only:
        jobs = [j for j in jobs if j["h"] in only]
    groups = list(dict.fromkeys(j["g"] for j in jobs))
    results, problems, viols, kfs = [], [], [], []
    rdir = V + "/evidence/replay"
    os.makedirs(rdir, exist_ok=True)
    validated, samples = 0, []
    for g in groups:
        gj = [j for j in jobs if j["g"] == g]
        if g.startswith("air"):
            import airjobs
            rs = airjobs.run(g, gj, deadline)
        elif g == "rec":
            import recjobs
            rs = recjobs.run(g, gj, deadline)
        else:
            rs = run_rsx(build(g), gj, deadline)
        so = None
        for j, r in zip(gj, rs):
            h = r["harness"]
            if "error" in r:
                problems.append("%s: %s" % (h, r["error"]))
                continue
            r["group"] = g
            results.append(r)
            if r.get("air"):
                for k, v in enumerate(r["viol"]):
                    path = "%s/%s-%s-%d.txt" % (rdir, prop, h, k)
                    open(path, "w").write(v["text"])
                    if v["confirmed"]:
                        viols.append((h, v, path))
                    else:
                        problems.append("%s: counterexample did not replay, see %s" % (h, path))
                problems += ["%s: %s" % (h, x) for x in r["incon"]]
                validated += r.get("validated", 0)
                samples += r["samples"][:2]
                continue
            if r["viol"] or r["samples"]:
                so = so or native(g)
            for k, v in enumerate(r["viol"]):
                path = "%s/%s-%s-%d.txt" % (rdir, prop, h, k)
                write_case(path, prop, g, h, v)
                rc, txt = replay(so, h, path)
                if rc == 1:
                    viols.append((h, v, path))
                else:
                    problems.append("%s: counterexample did not replay natively (rc %d: %s), see %s" % (h, rc, txt.strip(), path))
            # cross-check of the executor: completed paths must complete natively too
            for k, s in enumerate(r["samples"][:2]):
                path = "%s/ok-%s-%s-%d.txt" % (rdir, prop, h, k)
                write_case(path, prop, g, h, s)
                rc, txt = replay(so, h, path)
                if rc == 0:
                    validated += 1
                    os.unlink(path)
                else:
                    problems.append("%s: a path the executor completed does not complete natively (rc %d: %s), see %s" % (h, rc, txt.strip(), path))
            samples += [dict(harness=h, path=s["kind"], inputs=s["inputs"][:24]) for s in r["samples"][:1]]
            if not r["viol"]:
                problems += ["%s: %s" % (h, x) for x in r["incon"]]
                want = set(j.get("covers", [1] if not r["must_panic"] else []))
                if not want <= set(r["covers"]):
                    problems.append("%s: vacuous, reached covers %s of %s" % (h, r["covers"], sorted(want)))
                if r["must_panic"] and 2 not in r["panicked"]:
                    # no input makes the promised refusal happen: report through the harness' own inputs is impossible
                    problems.append("%s: vacuous, the refusal never happens" % h)
                if r["discharged"] + r["trivial"] == 0 and not r["must_panic"]:
                    problems.append("%s: vacuous, no check reached" % h)
    kn = [k for k in known() if k["property"] == prop]
    fresh = []
    for h, v, path in viols:
        m = [k for k in kn if k["harness"] == h and k["what"] == v["msg"]]
        (kfs.append(m[0]) if m else fresh.append((h, v, path)))
    tot = lambda k: sum(r["stats"].get(k, 0) for r in results)
    fns = {}
    for r in results:
        for f, n in dict(r["functions"]).items():
            fns[f] = max(n, fns.get(f, 0))
    nd, nt = sum(r["discharged"] for r in results), sum(r["trivial"] for r in results)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=spec.get("level", "model_checking"),
              coverage=dict(states=tot("paths"), transitions=tot("forks") + tot("paths"), traces_validated_against_impl=validated, samples=samples[:12],
                            explanation="%d symbolic paths through %d functions of /repo; %d assertion instances closed by an unsat verdict of the solver and %d by term rewriting alone; %d solver queries, %.1f s in the solver (longest %.2f s). states = completed symbolic paths, transitions = satisfiable branch splits." % (tot("paths"), len(fns), nd, nt, tot("queries"), tot("solver_s"), max([r["stats"].get("max_query_s", 0) for r in results] or [0])),
                            assertions_by_solver=nd, assertions_by_rewriting=nt, queries=tot("queries"), solver_s=round(tot("solver_s"), 2), bounds=spec["bounds"],
                            functions={k: v for k, v in sorted(fns.items())},
                            harnesses=[dict(name=r["harness"], group=r["group"], paths=r["ends"], discharged=r["discharged"], trivial=r["trivial"], wall_s=round(r["wall"], 1)) for r in results]),
              assumptions=spec["assumptions"], wall_s=round(time.time() - t0, 1), violations=len(fresh))
    json.dump(ev, open(V + "/evidence/%s.json" % prop, "w"), indent=1)
    for k in {json.dumps(k, sort_keys=True) for k in kfs}:
        k = json.loads(k)
        print("KNOWN-FINDING: property=%s %s" % (prop, k["note"]))
    for p in problems:
        print("PROBLEM", p)
    if fresh:
        h, v, path = fresh[0]
        for h, v, path in fresh:
            print("counterexample: %s %s %s" % (h, v["kind"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, fresh[0][2]))
        return 1
    if problems:
        return 2
    print("HELD property=%s tier=%s: %d paths, %d+%d assertions, %d queries, %.0f s" % (prop, tier, tot("paths"), nd, nt, tot("queries"), time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit as e:
        print(e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
