#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough] [--only CONFIG] [--debug]

Decides one property by symbolic execution of /repo's current sources."""

import argparse
import importlib
import json
import multiprocessing as mp
import os
import re
import resource
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)

PYTHON = "/opt/venv/bin/python"


def worker(conn, mod, name, tier, timeout, debug):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
    except Exception:
        pass
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1) if not debug else None
    from symx import engine
    cfg = next(c for c in mod.configs(tier) if c["name"] == name)
    try:
        opts = dict(cfg.get("opts", {}))
        if debug:
            opts["debug"] = True
        # exploration stops early enough for its results to be delivered
        res = engine.explore(cfg["fn"], cfg, opts, cfg.get("max_paths", 400),
                             time.time() + timeout * 0.85, seed=1 + int(os.environ.get("VERIF_SEED", "1") or 1),
                             shims=cfg.get("shims"))
        st = res["stats"].as_dict()
        res["stats"] = st
        res["stubs"] = sorted(res["stubs"])
    except BaseException as e:  # noqa
        if debug:
            traceback.print_exc()
        res = dict(error=f"{type(e).__name__}: {e}")
    conn.send(json.dumps(res, default=str))
    conn.close()


def run_pool(mod, cfgs, tier, jobs, debug):
    todo = list(cfgs)
    # longest first
    todo.sort(key=lambda c: -c.get("weight", 1))
    live = {}
    done = {}
    while todo or live:
        while todo and len(live) < jobs:
            c = todo.pop(0)
            a, b = mp.Pipe(False)
            to = c.get("timeout", 100 if tier == "quick" else 600)
            p = mp.Process(target=worker, args=(b, mod, c["name"], tier, to, debug))
            p.start()
            b.close()
            live[c["name"]] = (p, a, time.time(), to)
        time.sleep(0.01)
        for n, (p, a, t0, to) in list(live.items()):
            msg = None
            if a.poll():
                try:
                    msg = json.loads(a.recv())
                except EOFError:
                    msg = dict(error="worker died")
            elif not p.is_alive():
                msg = dict(error=f"worker exited with {p.exitcode}")
            elif time.time() - t0 > to + 15:
                p.kill()
                msg = dict(error=f"timeout after {to} s")
            if msg is not None:
                msg["wall"] = time.time() - t0
                done[n] = msg
                p.join(2)
                if p.is_alive():
                    p.kill()
                del live[n]
    return done


def replay(hname, items, frameworks, timeout=250):
    """run items on the real code; a hung or crashed item is dropped"""
    if not items:
        return []
    env = dict(os.environ)
    env["TF_CPP_MIN_LOG_LEVEL"] = "3"
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    p = subprocess.Popen([PYTHON, "-m", "symx.replay"], cwd=HERE, env=env, stdin=subprocess.PIPE,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        out, err = p.communicate(json.dumps(dict(harness=hname, items=items, frameworks=frameworks)), timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, err = p.communicate()
    res = [json.loads(l) for l in out.splitlines() if l.strip()]
    if len(res) < len(items) and os.environ.get("VERIF_DEBUG"):
        sys.stderr.write(err[-3000:])
    if not res and err:
        sys.stderr.write("replay: " + err[-1500:] + "\n")
    while len(res) < len(items):
        res.append(dict(status="lost", failures=[], trace=[], passed=0))
    return res


def malformed(c, r):
    """the assertions themselves failed on what the library returned (missing log, wrong length, ...), in the same
    way symbolically and on the real code"""
    if c[1] != "no unexpected exception" or r["status"] != "harness-error" or not r["failures"]:
        return False
    e = r["failures"][0][1]
    kind = e.split(":")[0]
    return (kind in ("TypeError", "IndexError", "KeyError") or "unpack" in e) and "argument" not in e and c[5].split(":")[0] == kind


def load_known():
    known = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("KNOWN-FINDING:"):
                # KNOWN-FINDING: property=Cxx config=<name> goal=<goal> :: text
                head, _, text = line.partition("::")
                f = dict(t.split("=", 1) for t in head.split()[1:] if "=" in t)
                known.append((f.get("property"), f.get("config"), f.get("goal", "").replace("_", " "), text.strip()))
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--debug", action="store_true")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    a = ap.parse_args()
    t0 = time.time()
    pid = a.id
    hname = pid.lower()
    mod = importlib.import_module("harness." + hname)
    import z3  # noqa
    from symx import engine  # noqa
    cfgs = mod.configs(a.tier)
    if a.only:
        cfgs = [c for c in cfgs if re.search(a.only, c["name"])]
    fw = getattr(mod, "FRAMEWORKS", False)
    done = run_pool(mod, cfgs, a.tier, a.jobs, a.debug)
    bycfg = {c["name"]: c for c in cfgs}

    tot = dict(queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, closed=0, goals=0, paths=0, witnessed=0, forks=0,
               assumed_domain=0, confirmed=0, disagree=0)
    inconcl = {}
    cands = []
    wit_items = []
    generic = set()
    stubs = set()
    for n in sorted(done):
        r = done[n]
        if r.get("error"):
            inconcl.setdefault(n, []).append(r["error"])
            continue
        for k in tot:
            tot[k] += r["stats"][k]
        generic |= set(r.get("generic", []))
        stubs |= set(r.get("stubs", []))
        for u in r["unsupported"]:
            inconcl.setdefault(n, []).append(u)
        for u in r.get("unsup_cands", [])[:4]:
            cands.append((n, "(path outside the encoding)", u["values"], u["choices"], "unsupported", ""))
        seen = {}
        for g in r["results"]:
            if g["status"] in ("refuted", "unknown"):
                k = (g["name"], g["status"])
                seen[k] = seen.get(k, 0) + 1
                if seen[k] > 5:
                    continue
                for v in g.get("cands", [])[:8]:
                    cands.append((n, g["name"], v, g.get("choices", {}), g["status"], g.get("info", "")))
                if not g.get("cands"):
                    inconcl.setdefault(n, []).append(f"{g['name']}: {g['status']} without a candidate input")
        if r["witness"]:
            wit_items.append((n, r["witness"]))
        elif any(g["status"] == "proved" for g in r["results"]):
            inconcl.setdefault(n, []).append("no reachability witness")
        if not r["results"] and not r["unsupported"]:
            inconcl.setdefault(n, []).append("no goal was reached")

    # ---- translator validation + candidate replay on the real code
    items = [dict(cfg=n, values=w["values"], choices=w["choices"]) for n, w in wit_items if not bycfg[n].get("noreplay")]
    nval = len(items)
    items += [dict(cfg=c[0], values=c[2], choices=c[3]) for c in cands[:400]]
    res = replay(hname, items, fw)
    validated = 0
    mism = []
    violations = []
    wl = [(n, w) for n, w in wit_items if not bycfg[n].get("noreplay")]
    for (n, w), r in zip(wl, res[:nval]):
        if r["status"] == "ok" and not r["failures"]:
            ok = True
            ct = {}
            for nm, v in r["trace"]:
                ct.setdefault(nm, []).append(v)
            for nm, v in w["trace"]:
                if ct.get(nm):
                    for x, y in zip(v, ct[nm].pop(0)):
                        if all(abs(t) < 1e8 for t in x + y) and abs(complex(*x) - complex(*y)) > 1e-3 * (1 + abs(complex(*y))):
                            ok = False
                            if a.debug:
                                print("mismatch", n, nm, x, y)
            if ok:
                validated += 1
            else:
                mism.append(n)
        elif r["failures"] and r["status"] == "ok":
            violations.append((n, r["failures"][0][0], w["values"], w["choices"], r["failures"][0][1]))
        else:
            mism.append(n + " (" + r["status"] + ")")
    confirmed = {}
    tried = {}
    for c, r in zip(cands[:400], res[nval:]):
        key = (c[0], c[1])
        tried.setdefault(key, []).append((c, r))
        if r["status"] == "ok" and r["failures"] or malformed(c, r):
            confirmed.setdefault(key, (c, r))
    for key, (c, r) in confirmed.items():
        g, info = r["failures"][0]
        for gg, ii in r["failures"]:
            if gg == c[1]:
                g, info = gg, ii
        violations.append((c[0], g, c[2], c[3], info))
    for key, lst in tried.items():
        if key not in confirmed:
            c = lst[0][0]
            what = {"refuted": "solver counterexample not reproduced on the real code",
                    "unknown": "solver gave no verdict",
                    "unsupported": "outside the encoding"}[c[4]]
            if c[4] != "unsupported":
                inconcl.setdefault(key[0], []).append(f"{key[1]}: {what} {c[5]}".strip())

    # ---- fallback on configurations without a verdict: solver-generated inputs on the real code
    fb_runs = 0
    if inconcl and not getattr(mod, "NO_FALLBACK", False):
        items2 = []
        for n in sorted(inconcl):
            w = dict(wit_items).get(n)
            if bycfg[n].get("noreplay"):
                continue
            for k in range(12):
                vals = {} if w is None else {}
                items2.append(dict(cfg=n, values=_perturb(w["values"] if w else {}, k), choices=_pch(w["choices"] if w else {}, k)))
        r2 = replay(hname, items2[:600], fw)
        for it, r in zip(items2, r2):
            if r["status"] == "ok":
                fb_runs += 1
                if r["failures"]:
                    violations.append((it["cfg"], r["failures"][0][0], it["values"], it["choices"], r["failures"][0][1]))

    # ---- known findings
    known = [k for k in load_known() if k[0] == pid]
    out_v, printed = [], set()
    for v in violations:
        hit = next((k for k in known if (k[1] == v[0] or (k[1] or "").endswith("*") and v[0].startswith(k[1][:-1])) and k[2] == v[1]), None)
        if hit:
            if hit not in printed:
                printed.add(hit)
                print(f"KNOWN-FINDING: property={pid} {hit[3]}")
            continue
        out_v.append(v)
    # one violation per (config, goal)
    uniq = {}
    for v in out_v:
        uniq.setdefault((v[0], v[1]), v)
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    lines = []
    for i, ((n, g), v) in enumerate(sorted(uniq.items())):
        path = os.path.join(rdir, f"{pid}-{i}.json")
        json.dump(dict(property=pid, config=n, goal=g, values=v[2], choices=v[3], observed=v[4],
                       how="/opt/venv/bin/python replay_one.py " + path), open(path, "w"), indent=1)
        lines.append((n, g, v[4], path))

    wall = time.time() - t0
    cov = dict(
        functions_encoded=sorted(set(f for r in done.values() for f in r.get("functions", []))),
        configurations=len(cfgs), configurations_decided=len([c for c in cfgs if c["name"] not in inconcl]),
        bounds=getattr(mod, "BOUNDS", ""),
        states=tot["paths"], transitions=tot["goals"],
        paths=tot["paths"], path_witnesses=tot["witnessed"], goals=tot["goals"],
        goals_closed_by_normal_form=tot["closed"], of_these_confirmed_by_solver=tot["confirmed"], solver_disagreements=tot["disagree"], solver_queries=tot["queries"], solver_sat=tot["sat"],
        solver_unsat=tot["unsat"], solver_unknown=tot["unknown"], solver_seconds=round(tot["solver_s"], 2),
        traces_validated_against_impl=validated, validation_mismatch=mism[:20],
        generic_position_assumptions=sorted(generic)[:15], domain_assumptions=tot["assumed_domain"],
        inconclusive={k: sorted(set(v))[:4] for k, v in inconcl.items()}, fallback_runs=fb_runs,
        samples=[dict(config=n, values={k: round(x, 6) for k, x in list(w["values"].items())[:12]}) for n, w in wit_items[:5]],
        explanation=getattr(mod, "EXPLANATION", "symbolic execution of the real sources; z3 decides every goal"),
        per_config={n: dict(wall=round(done[n]["wall"], 1), paths=done[n].get("stats", {}).get("paths"),
                            goals=done[n].get("stats", {}).get("goals")) for n in sorted(done)})
    ev = dict(property=pid, tier=a.tier if a.tier in ("quick", "thorough") else "quick",
              seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=getattr(mod, "LEVEL", "model_checking"),
              coverage=cov, wall_s=round(wall, 2),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + sorted(stubs), violations=len(lines))
    if not a.only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print(f"{pid} {a.tier}: {len(cfgs)} configurations, {tot['paths']} paths, {tot['goals']} goals "
          f"({tot['closed']} closed by normal form, {tot['confirmed']} of them confirmed, {tot['disagree']} disputed by the solver), {tot['queries']} solver queries "
          f"({tot['unsat']} unsat, {tot['sat']} sat, {tot['unknown']} unknown, {tot['solver_s']:.1f} s), "
          f"{validated}/{nval} traces validated, {wall:.1f} s")
    for n in sorted(inconcl):
        print(f"INCONCLUSIVE {n}: " + "; ".join(sorted(set(inconcl[n]))[:3])[:400])
    if mism:
        print("validation mismatch: " + ", ".join(mism[:10]))
    if inconcl:
        print(f"inconclusive configurations were exercised on {fb_runs} solver/sample inputs only")
    for n, g, info, path in lines:
        print(f"  violated: {n}: {g}: {info}")
    for n, g, info, path in lines[:10]:
        print(f"VIOLATION property={pid} replay={path}")
    return 1 if lines else 0


def _perturb(vals, k):
    import random
    rng = random.Random(k)
    if k == 0 or not vals:
        return vals
    out = {}
    for n, v in vals.items():
        if n.startswith("sgn"):
            out[n] = rng.choice([-1.0, 1.0])
        else:
            out[n] = v * rng.uniform(0.5, 1.4) if k % 2 else v * rng.uniform(0.9, 1.1) * (rng.choice([1, 1, -1]))
    return out


def _pch(ch, k):
    return ch


if __name__ == "__main__":
    code = 2
    try:
        code = main()
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
