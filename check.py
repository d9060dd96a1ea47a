#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property by symbolic execution of /repo's current code.

Builds the engine and the harness crates (from /repo's working tree), runs the symbolic executor
over each harness of the property, replays counterexamples natively, validates sampled paths
natively, and writes evidence/<PROPERTY>.json.
Exit 0: held on everything explored. 1: violation (replayed natively). 2: the check itself failed.
"""
import json, os, re, subprocess, sys, time, glob
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from registry import PROPS

RSYM = f"{V}/target/engine/release/rsym"
SOFT = ("solver returned unknown", "path exceeded", "heap exhausted")

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def die(msg, ev=None):
    print(f"CHECK-ERROR {msg}")
    sys.exit(2)

def build_engine():
    e = dict(os.environ, CARGO_TARGET_DIR=f"{V}/target/engine", CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="1.97.1")
    e.pop("RUSTFLAGS", None)
    r = sh(["cargo", "build", "--release", "--offline", "-q"], cwd=f"{V}/engine", env=e)
    if r.returncode: die("engine build failed:\n" + r.stdout[-3000:])

def build_harness(c):
    r = sh(["bash", f"{V}/tools/build_harness.sh", c])
    if r.returncode: die(f"harness crate {c} does not build against /repo:\n" + r.stdout[-4000:])

def known_findings():
    out = {}
    p = f"{V}/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l.strip())
            if m: out[(m[1], m[2])] = m[3]
    return out

class Native:
    def __init__(self, crate, entry, params, work):
        self.exe, self.entry, self.work = f"{V}/target/debug/h_{crate}", entry, work
        self.env = dict(os.environ)
        for k, v in params.items():
            if re.fullmatch(r"p\d", k): self.env["VP_P" + k[1]] = str(v)
        self.params = params
    def run(self, hexin, timeout=20):
        os.makedirs(self.work, exist_ok=True)
        f = f"{self.work}/in.hex"
        open(f, "w").write(hexin)
        scratch = f"{self.work}/scratch"
        subprocess.run(["rm", "-rf", scratch]); os.makedirs(scratch)
        try:
            r = subprocess.run([self.exe, self.entry, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(self.env, VP_SCRATCH=scratch, LD_PRELOAD=f"{V}/target/vpfs.so"), cwd=scratch, timeout=timeout)
            return r.returncode, r.stdout.decode("utf8", "replace")
        except subprocess.TimeoutExpired as e:
            return "timeout", (e.stdout or b"").decode("utf8", "replace")
        finally:
            subprocess.run(["rm", "-rf", scratch])

def failed(rc):
    return rc == "timeout" or rc == 1 or rc == 101 or (isinstance(rc, int) and (rc < 0 or rc >= 128))

def save_replay(prop, run, nat, v, out):
    d = f"{V}/out/{prop}"
    os.makedirs(d, exist_ok=True)
    n = len(glob.glob(f"{d}/replay-*.sh"))
    base = f"{d}/replay-{n}"
    open(base + ".hex", "w").write(v["input"])
    envs = " ".join(f"VP_P{k[1]}={x}" for k, x in nat.params.items() if re.fullmatch(r"p\d", k))
    open(base + ".sh", "w").write(
        f"#!/bin/bash\n# {prop}: {v['id']}\n# expected output (native, real code):\n" + "".join(f"#   {l}\n" for l in out.splitlines()[-12:]) +
        f"D=$(mktemp -d); trap 'rm -rf $D' EXIT; cd $D\nfor i in $(seq 1 64); do mkdir $D/$i; LD_PRELOAD={V}/target/vpfs.so VP_SCRATCH=$D/$i {envs} {nat.exe} {nat.entry} {base}.hex || exit 1; done\nexit 0\n")
    os.chmod(base + ".sh", 0o755)
    return base + ".sh"

def demangle(fs):
    r = subprocess.run(["c++filt"], input="\n".join(fs), stdout=subprocess.PIPE, text=True)
    return [re.sub(r"\[[0-9a-f]{6,}\]", "", x) for x in r.stdout.split("\n")]

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    P = PROPS[prop]
    t0 = time.time()
    subprocess.run(["rm", "-rf", f"{V}/out/{prop}"])
    os.makedirs(f"{V}/out/{prop}"); os.makedirs(f"{V}/evidence", exist_ok=True)
    build_engine()
    for c in sorted({r["crate"] for r in P["runs"]}): build_harness(c)
    tb = time.time() - t0
    kf = known_findings()
    tot = dict(paths=0, infeasible=0, instructions=0, queries=0, sat=0, unsat=0, unknown=0, cache_hits=0, solver_ms=0, domain_decisions=0, cross_checked=0)
    maxq = 0; complete = True; funcs = set(); per = []; samples = []; validated = 0
    asserts = {}; viols = []; soft = []; errs = []; kseen = {}
    budget = P.get("budget", {}).get(tier, 420 if tier == "quick" else 14000)
    runs = [r for r in P["runs"] if (only is None or r["entry"] == only) and (tier == "thorough" or not r.get("thorough_only"))]
    te = time.time()
    for i, run in enumerate(runs):
        b = dict(run.get("quick", {}))
        if tier == "thorough": b.update(run.get("thorough", {}))
        left = budget - (time.time() - te)
        lim = b.pop("time", None) or (left if tier == "thorough" else max(20, min(left - 5 * (len(runs) - i - 1), P.get("per_run", 200))))
        out = f"{V}/out/{prop}/{run['entry']}.json"
        cmd = [RSYM, f"{V}/target/ir/{run['crate']}.ll", run["entry"], f"out={out}", f"time={int(lim)}"] + [f"{k}={v}" for k, v in b.items()]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        if r.returncode or not os.path.exists(out):
            errs.append(f"{run['entry']}: engine exit {r.returncode}: {r.stderr[-400:]}"); continue
        d = json.load(open(out))
        for k in tot: tot[k] += d[k]
        maxq = max(maxq, d["max_query_ms"])
        funcs |= {f for f in d["functions"] if "rez_next" in f}
        nat = Native(run["crate"], run["entry"], b, f"{V}/out/{prop}/w")
        # 1. counterexamples
        for v in d["violations"]:
            ok = False
            for _ in range(run.get("tries", 24)):
                rc, o = nat.run(v["input"])
                if failed(rc): ok = True; break
            if ok:
                viols.append((run["entry"], v["id"], save_replay(prop, run, nat, v, o), o))
                break
            else: errs.append(f"{run['entry']}: counterexample for '{v['id']}' ({v['input']}) does not reproduce natively (rc={rc})")
        # 2. paths the engine could not finish: believe only what the real code does
        for m, n, inp in d["errors"]:
            hit = False
            if not viols and inp is not None:
                rc, o = nat.run(inp)
                if failed(rc):
                    hit = True
                    viols.append((run["entry"], "native failure on a path the executor could not finish: " + m, save_replay(prop, run, nat, dict(id=m, input=inp), o), o))
            if not hit:
                (soft if m.startswith(SOFT) else errs).append(f"{run['entry']}: {n} path(s): {m}")
        # 3. known findings
        for k in d["known"]:
            if (prop, k["id"]) not in kf:
                rc, o = nat.run(k["input"])
                viols.append((run["entry"], "unlisted finding " + k["id"], save_replay(prop, run, nat, k, o), o))
            else:
                rc, o = nat.run(k["input"])
                if rc != 4: errs.append(f"{run['entry']}: known finding {k['id']} does not reproduce natively (rc={rc})")
                show = " ".join(l[8:] for l in o.splitlines() if l.startswith("VP-SHOW"))
                kseen[k["id"]] = (k["paths"] + kseen.get(k["id"], (0,))[0], show)
        # 4. translator validation on sampled paths
        for s in d["samples"]:
            rc, o = nat.run(s["input"])
            got = [l for l in o.splitlines() if l.startswith(("VP-OBS", "VP-COVER"))]
            want = s["log"]
            wrc = 4 if s["end"] == "known" else 0
            if rc != wrc or got != want:
                errs.append(f"{run['entry']}: executor and native run disagree on input {s['input']}: rc={rc} native={got[:4]} symbolic={want[:4]}")
                break
            validated += 1
            if len(samples) < 40:
                samples.append(dict(harness=run["entry"], input=s["input"], case=" ".join(l[8:] for l in o.splitlines() if l.startswith("VP-SHOW"))[:300], end=s["end"]))
        # 5. vacuity
        done = d["complete"]
        if not done: complete = False
        if done:
            for c in run.get("covers", []):
                if not d["covers"].get(c): errs.append(f"{run['entry']}: case '{c}' was never reached (vacuous)")
            if not d["asserts"]: errs.append(f"{run['entry']}: no assertion was reached")
        for k, a in d["asserts"].items():
            x = asserts.setdefault(k, [0, 0]); x[0] += a[0]; x[1] += a[1]
        if d["limit"]: soft.append(f"{run['entry']}: {d['limit']}")
        per.append(dict(harness=run["entry"], bounds=run.get("bound", "").format(**{**{f"p{j}": "default" for j in range(8)}, **b}), params=b, complete=done, limit=d["limit"], paths=d["paths"], infeasible=d["infeasible"], instructions=d["instructions"],
                        symbolic_bytes=d["symbolic_bytes"], queries=d["queries"], solver_ms=d["solver_ms"], wall_s=d["wall_s"], covers=d["covers"], assertions=d["asserts"]))
        print(f"{run['entry']}: {'complete' if done else 'INCOMPLETE'} paths={d['paths']} queries={d['queries']} solver_ms={d['solver_ms']} wall={d['wall_s']}s", flush=True)
        if viols and tier == "quick": break
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking", wall_s=round(time.time() - t0, 1), violations=len(viols),
        coverage=dict(states=tot["paths"], transitions=tot["instructions"], traces_validated_against_impl=validated, exhaustive=complete and not errs,
            samples=samples or [dict(note="no path finished")],
            explanation="states = completed symbolic paths (each stands for every input satisfying its path condition); transitions = LLVM instructions of the real code executed symbolically; exhaustive = every path within the bounds was decided",
            infeasible_paths=tot["infeasible"], queries_discharged=tot["queries"], queries_unsat=tot["unsat"], queries_sat=tot["sat"], queries_unknown=tot["unknown"], query_cache_hits=tot["cache_hits"], branches_decided_by_byte_domains=tot["domain_decisions"], of_those_confirmed_by_z3=tot["cross_checked"],
            solver="z3 4.8.12 (C API, QF_BV)", solver_time_s=round(tot["solver_ms"] / 1000, 2), max_query_ms=maxq, build_s=round(tb, 1),
            assertions={k: dict(paths_decided_by_evaluation=a[0], solver_verdicts=a[1]) for k, a in asserts.items()},
            harnesses=per, functions_encoded=sorted(set(x for x in demangle(sorted(funcs)) if "drop_glue" not in x))[:400], functions_encoded_count=len(funcs),
            not_decided=soft[:20], outside_bounds=P.get("outside", ""), known_findings={k: dict(paths=v[0], example=v[1]) for k, v in kseen.items()}),
        assumptions=P.get("assumptions", []) + ["libc, memory and hashing models of the executor (DESIGN.md)", "rustc/LLVM lower the crate as in the native build; z3 is sound"])
    if errs: ev["coverage"]["check_errors"] = errs[:20]
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    for k, v in kseen.items():
        if (prop, k) in kf: print(f"KNOWN-FINDING: property={prop} {k}: {kf[(prop, k)]} [{v[0]} paths; e.g. {v[1]}]")
    for s in soft[:10]: print("NOT-DECIDED", s)
    if viols:
        for e, i, p, o in viols:
            print(f"  harness {e}: {i}")
            for l in o.splitlines()[-8:]: print("    " + l[:300])
            print(f"VIOLATION property={prop} replay={p}")
        sys.exit(1)
    if errs: die("\n  ".join(errs[:10]))
    print(f"OK property={prop} tier={tier} paths={tot['paths']} queries={tot['queries']} solver={tot['solver_ms']/1000:.1f}s validated={validated} wall={time.time()-t0:.0f}s")

main()
