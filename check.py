#!/usr/bin/env python3
"""Decides one property of /repo's current source by static analysis.

usage: check.py <property> [--replay KEY]
Builds the analyser if needed, has cargo produce the exact compiler invocation of
the crate (with every dependency's MIR available), then runs the analyser as that
compiler, once per part of the property, and reports.
"""
import fcntl, json, os, re, resource, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RESCAN_REPO", "/repo")
SA = os.path.join(HERE, "sa")
BUILD = os.environ.get("SA_BUILD", os.path.join(HERE, "build"))
DRIVER = os.path.join(SA, "target", "release", "rescan-sa")
BUDGET = float(os.environ.get("SA_BUDGET", "840"))
T0 = time.time()

def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], check=True,
                          capture_output=True, text=True).stdout.strip()

def build_driver():
    src = []
    for d, _, fs in os.walk(os.path.join(SA, "src")):
        src += [os.path.join(d, f) for f in fs]
    src.append(os.path.join(SA, "Cargo.toml"))
    if os.path.exists(DRIVER) and os.path.getmtime(DRIVER) >= max(map(os.path.getmtime, src)):
        return
    r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "-q"], cwd=SA,
                       capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stderr)
        raise RuntimeError("the analyser does not build")
    os.utime(DRIVER)

def cargo_env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("SA_") or k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
            e.pop(k)
    e.update(LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"),
             RUSTC_WORKSPACE_WRAPPER=DRIVER,
             CARGO_TARGET_DIR=os.path.join(BUILD, "tgt"),
             RUSTFLAGS="--cap-lints allow -Zalways-encode-mir -Zunstable-options",
             RUST_MIN_STACK="4000000000", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never")
    return e

def forget_crate(tgt):
    """Drops cargo's record of the crate itself, so that it is always compiled anew."""
    for root in (os.path.join(tgt, "debug", "build"), os.path.join(tgt, "debug", ".fingerprint")):
        if os.path.isdir(root):
            for d in os.listdir(root):
                if d == "rescan" or d.startswith("rescan-"):
                    shutil.rmtree(os.path.join(root, d), ignore_errors=True)

def invocation(tmp):
    """The compiler invocation cargo uses for the crate: (cwd, env, args)."""
    env = cargo_env()
    tgt = env["CARGO_TARGET_DIR"]
    os.makedirs(tgt, exist_ok=True)
    out = os.path.join(tmp, "args")
    env["SA_ARGS_OUT"] = out
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for attempt in range(2):
            forget_crate(tgt)
            r = subprocess.run(["cargo", "+nightly", "check", "-q", "--offline", "--lib"],
                               cwd=REPO, env=env, capture_output=True, text=True)
            if r.returncode != 0:
                sys.stderr.write(r.stderr[-4000:])
                raise RuntimeError("the crate does not compile under the analyser")
            if os.path.exists(out):
                break
            shutil.rmtree(tgt, ignore_errors=True)
            os.makedirs(tgt)
    if not os.path.exists(out):
        raise RuntimeError("cargo never compiled the crate")
    cwd, ev, args = REPO, {}, []
    for it in open(out).read().split("\0"):
        if it[:1] == "D":
            cwd = it[1:]
        elif it[:1] == "E":
            k, v = it[1:].split("=", 1)
            ev[k] = v
        elif it[:1] == "A":
            args.append(it[1:])
    return cwd, ev, args

def run_parts(inv, prop, parts, tier, tmp, jobs):
    cwd, ev, args = inv
    env = cargo_env()
    env.pop("RUSTC_WORKSPACE_WRAPPER")
    env.update(ev)
    todo, live, results = list(parts), {}, {}
    while todo or live:
        while todo and len(live) < jobs:
            p = todo.pop(0)
            d = os.path.join(tmp, f"o{p}")
            os.makedirs(d)
            a = list(args)
            for i, x in enumerate(a):
                if i and a[i - 1] == "--out-dir":
                    a[i] = d
                elif x.startswith("--out-dir="):
                    a[i] = f"--out-dir={d}"
            e = dict(env, SA_PROP=prop, SA_OUT=os.path.join(d, "out.json"), VERIF_TIER=tier)
            if parts != [None]:
                e["SA_PART"] = str(p)
                e["SA_PARTS"] = str(len(parts))
            lim = int(28e9 / min(jobs, len(parts))) + int(6e9)
            pr = subprocess.Popen([DRIVER] + a, cwd=cwd, env=e, stdin=subprocess.DEVNULL,
                                  stdout=open(os.path.join(d, "log"), "w"), stderr=subprocess.STDOUT,
                                  preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (lim, lim)))
            live[p] = (pr, d)
        time.sleep(0.05)
        for p in list(live):
            pr, d = live[p]
            rc = pr.poll()
            late = time.time() - T0 > BUDGET
            if rc is None and late:
                pr.kill()
                pr.wait()
                rc = -9
            if rc is not None:
                del live[p]
                res = None
                f = os.path.join(d, "out.json")
                if os.path.exists(f) and rc == 0:
                    try:
                        res = json.load(open(f))
                    except ValueError:
                        res = None
                if res is None:
                    tail = open(os.path.join(d, "log"), errors="replace").read()[-1500:]
                    why = "ran out of time" if late else f"ended with status {rc}"
                    res = {"obligations": 1, "discharged": 0, "violations": [], "undecided": [
                        {"key": f"analysis completes (part {p})", "text": f"the analysis of part {p} {why}; nothing is decided for it. {tail}"}],
                        "rules": [], "assumptions": [], "obligation_names": [], "functions": 0,
                        "local_functions": [], "notes": {}, "blocks": 0, "calls": 0, "asserts": 0, "loops": 0,
                        "bdd_nodes": 0, "bdd_vars": 0}
                results[p] = res
        if time.time() - T0 > BUDGET:
            for p in todo:
                results[p] = {"obligations": 1, "discharged": 0, "violations": [], "undecided": [
                    {"key": f"analysis completes (part {p})", "text": f"no time left for part {p}"}],
                    "rules": [], "assumptions": [], "obligation_names": [], "functions": 0,
                    "local_functions": [], "notes": {}, "blocks": 0, "calls": 0, "asserts": 0, "loops": 0,
                    "bdd_nodes": 0, "bdd_vars": 0}
            todo = []
    return [results[p] for p in parts]

def known(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) key=\[(.*?)\] (.*)", l.rstrip("\n"))
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3)))
    return out

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    conf = json.load(open(os.path.join(HERE, "parts.json")))
    n = conf.get(prop, 1)
    parts = [None] if n == 1 else list(range(n))
    tmp = tempfile.mkdtemp(prefix="rescan-sa-")
    started = True
    try:
        try:
            build_driver()
            inv = invocation(tmp)
            res = run_parts(inv, prop, parts, tier, tmp, 8)
        except (RuntimeError, subprocess.CalledProcessError) as ex:
            started = False
            res = [{"obligations": 1, "discharged": 0, "violations": [], "undecided": [{"key": "analysis starts", "text": str(ex)}],
                    "rules": [], "assumptions": [], "obligation_names": [], "functions": 0, "local_functions": [],
                    "notes": {}, "blocks": 0, "calls": 0, "asserts": 0, "loops": 0, "bdd_nodes": 0, "bdd_vars": 0}]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    viols, seen = [], set()
    for r in res:
        for v in r["violations"]:
            if v["key"] not in seen:
                seen.add(v["key"])
                viols.append(v)
    undec, useen = [], set()
    for r in res:
        for v in r["undecided"]:
            if v["key"] not in useen:
                useen.add(v["key"])
                undec.append(v)
    kn = known(prop)
    new = [v for v in viols if v["key"] not in {k for k, _ in kn}]
    old = [v for v in viols if v["key"] in {k for k, _ in kn}]
    tot = lambda k: sum(r[k] for r in res)
    uniq = lambda k: sorted({x for r in res for x in r[k]})
    notes = {}
    for r in res:
        for k, v in r["notes"].items():
            notes[k] = notes.get(k, 0) + v
    names = uniq("obligation_names")
    cov = {
        "explanation": (
            f"Static analysis of the MIR of /repo's current source (crate and, where called, its dependencies and std): "
            f"{tot('discharged')} of {tot('obligations')} obligations discharged; {tot('blocks')} basic-block transfers in "
            f"{max([r['functions'] for r in res] + [0])} functions, {tot('calls')} calls resolved, {tot('asserts')} compiler-inserted "
            f"checks decided, {tot('loops')} loop analyses. Rules: " + " | ".join(uniq("rules"))),
        "rules": uniq("rules"),
        "obligations": tot("obligations"), "discharged": tot("discharged"),
        "functions_analysed": max([r["functions"] for r in res] + [0]),
        "crate_functions_analysed": uniq("local_functions"),
        "basic_block_transfers": tot("blocks"), "calls_resolved": tot("calls"),
        "panic_checks_decided": tot("asserts"), "loops_analysed": tot("loops"),
        "bdd_nodes": tot("bdd_nodes"), "counts": notes, "samples": names[:40],
        "known_findings_seen": [v["key"] for v in old],
        "undecided": [f"[{v['key']}] {v['text']}"[:400] for v in undec[:40]], "undecided_count": len(undec),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": uniq("assumptions"), "wall_s": round(time.time() - T0, 2), "violations": len(new)}
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    texts = dict(kn)
    for v in old:
        print(f"KNOWN-FINDING: property={prop} {texts[v['key']]}")
    print(f"{prop}: {tot('discharged')}/{tot('obligations')} obligations discharged in {time.time() - T0:.1f}s")
    for v in undec[:20]:
        print(f"  UNDECIDED [{v['key']}] {v['text'][:400]}")
    if new:
        rp = os.path.join(BUILD, f"{prop}.report.txt")
        with open(rp, "w") as f:
            for v in new:
                f.write(f"[{v['key']}] {v['text']}\n")
        for v in new[:20]:
            print(f"  [{v['key']}] {v['text'][:1200]}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    return 0 if started else 2

if __name__ == "__main__":
    sys.exit(main())
