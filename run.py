"""Decide one property: generate the obligations of its contracts from the current source of /repo, discharge them,
replay counterexamples on the real code.

  python3-vt run.py C02 [--tier quick|thorough] [--only NAME] [-v]
"""
import argparse
import json
import multiprocessing as mp
import os
import random
import re
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
os.environ.setdefault("MPLBACKEND", "Agg")

from engine import core, discharge, lean, registry, smt, state  # noqa: E402
from engine.core import Ctx, Unsupported  # noqa: E402
from engine.harness import SymH  # noqa: E402
from engine.load import REPO, Package  # noqa: E402

REPO_PY = os.environ.get("VERIF_REPO_PYTHON", "/opt/venv/bin/python")
FINDINGS = os.path.join(HERE, "KNOWN_FINDINGS.txt")
TIERS = {"quick": dict(trials=60, budget=10, limit=240, recheck=0, deadline=420),
         "thorough": dict(trials=1500, budget=60, limit=500, recheck=12, deadline=560)}

PKG = None
CONTRACTS = {}
TIER = None
SEED = 1
DEADLINE = 0


TimeUp = core.TimeUp


def _alarm(*a):
    TimeUp.late = True
    signal.alarm(1)
    raise TimeUp()


def verify(name):
    """all paths of one contract, every obligation; runs in a worker process"""
    c = CONTRACTS[name]
    signal.signal(signal.SIGALRM, _alarm)
    t0 = time.time()
    TimeUp.late = False
    signal.alarm(max(1, min(TIER["limit"], int(DEADLINE - t0))))
    discharge.BUDGET.update(z3=8000, samples=400)
    open_, refuted = 0, 0
    stats0 = dict(smt.STATS)
    out = dict(name=name, obls=[], functions=[], unsupported=None, covered=False, paths=0, returned=0, error=None, notes=[],
               assumed=[], hints=[])
    funcs = set()
    root = os.path.join(os.path.realpath(REPO), "conjugate")

    def prof(frame, ev, arg):
        if ev == "call" and frame.f_code.co_filename.startswith(root):
            funcs.add(os.path.basename(frame.f_code.co_filename) + ":" + frame.f_code.co_qualname)

    rng = random.Random(f"{SEED}/{name}")
    done = {}
    try:
        harness = []

        def body(cx):
            h = SymH(PKG, cx, c.opts)
            harness.append(h)
            sys.setprofile(prof)
            try:
                c.fn(h)
            finally:
                sys.setprofile(None)

        print0 = state.package(PKG.mods)
        for cx in core.explore(body, c.opts.get("max_paths", 160)):
            Ctx.cur = None
            if state.difference(print0, state.package(PKG.mods)):
                reload()            # the next path starts from a package that remembers nothing
                print0 = state.package(PKG.mods)
            Ctx.cur = cx
            out["paths"] += 1
            if cx.unsupported is not None:
                out["unsupported"] = out["unsupported"] or cx.unsupported
                if os.environ.get("VERIF_TRACE"):
                    print(cx.trace, file=sys.stderr)
                if len(out["hints"]) < 24:
                    out["hints"] += [{k: num(v) for k, v in e.items()}
                                     for e in (discharge.directed(cx.hyps(), cx.inputs, rng, 3) if cx.hyps() else [])]
            out["returned"] += harness[-1].returned
            for n in cx.notes:
                if n not in out["notes"]:
                    out["notes"].append(n)
            for o in cx.obls:
                key = (o.goal, frozenset(o.hyps))
                t1 = time.time()
                if key in done:
                    r = done[key]
                else:
                    r = done[key] = discharge.prove(o.hyps, o.goal, cx.inputs, rng)
                    if r.status == "proved" and TIER["recheck"] and o.goal.op == "eq":
                        env = discharge.search(o.hyps, o.goal, cx.inputs, rng, TIER["recheck"])
                        if env is not None and not discharge.is_soft([o.goal]):
                            r = done[key] = discharge.Result("refuted", "numeric (contradicts " + r.backend + ")", env)
                row = dict(label=o.label, kind=o.kind, status=r.status, backend=r.backend, why=r.why, soft=bool(r.soft),
                           path=o.path, detail=o.detail, time=time.time() - t1, eq=o.goal.op == "eq")
                if r.status != "proved" and o.kind != "recorded":
                    open_ += 1
                    refuted += r.status == "refuted" and not r.soft and r.env is not None
                    if open_ == 6:          # enough is open for a verdict: less time for each of the others
                        discharge.BUDGET.update(z3=1000, samples=100)
                if r.status != "proved":
                    row["env"] = {k: num(v) for k, v in (r.env or {}).items()}
                    row["goal"] = str(o.goal)[:1500]
                    row["hyps"] = [str(x)[:300] for x in o.hyps][:40]
                    row["choices"] = list(cx.notes)
                    if not r.env and len(out["obls"]) < 400:
                        hint = ("hint", key[1])
                        if hint not in done:
                            done[hint] = discharge.directed(o.hyps, cx.inputs, rng, 3) if o.hyps else []
                        row["hints"] = [{k: num(v) for k, v in e.items()} for e in done[hint]]
                out["obls"].append(row)
            if not out["covered"] and cx.obls and discharge.satisfiable(cx.hyps(), cx.inputs, rng):
                out["covered"] = True
            Ctx.cur = None
            if refuted >= 3 and time.time() - t0 > 10:
                break                       # refuted with inputs to show: the verdict stands
    except Unsupported as ex:
        out["unsupported"] = str(ex) or "unsupported"
        if os.environ.get("VERIF_TRACE"):
            traceback.print_exc()
    except TimeUp:
        signal.alarm(0)
        out["unsupported"] = "time limit"
    except RecursionError:
        out["unsupported"] = "recursion"
    except Exception as ex:
        signal.alarm(0)
        if TimeUp.late:
            out["unsupported"] = "time limit"
        else:
            out["error"] = "".join(traceback.format_exception(ex))[-3000:]
    finally:
        signal.alarm(0)
        sys.setprofile(None)
        Ctx.cur = None
    out["functions"] = sorted(funcs)
    out["wall"] = time.time() - t0
    out["smt"] = {k: smt.STATS[k] - stats0.get(k, 0) for k in smt.STATS}
    return out


def reload():
    global PKG
    PKG = Package()
    PKG.M, PKG.D, PKG.P


def num(v):
    try:
        f = float(v)
        return int(f) if f.is_integer() and abs(f) < 1e15 else f
    except Exception:
        return str(v)


def load_findings():
    known, fixed = [], []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith("known:"):
                head, _, text = line[6:].partition("::")
                d = dict(x.split("=", 1) for x in head.strip().split("; "))
                d["text"] = text.strip()
                known.append(d)
            elif line.startswith("fixed:"):
                fixed.append(line)
    return known, fixed


def conc_cmd(prop, out, trials, budget, only=None, replay=None, seed=1):
    cmd = [REPO_PY, "-m", "engine.conc", prop, "--out", out, "--trials", str(trials), "--budget", str(budget),
           "--seed", str(seed)]
    if only:
        cmd += ["--only", only]
    if replay:
        cmd += ["--replay", replay]
    return cmd


def run_conc(cmd, seconds, grace, **env):
    """executions that end within the given time, or are ended a little later"""
    p = subprocess.Popen(cmd, cwd=HERE, env=dict(conc_env(), VERIF_UNTIL=str(time.time() + seconds), **env),
                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
    try:
        p.wait(timeout=seconds + grace)
    except subprocess.TimeoutExpired:
        end_group(p)


def end_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def conc_env():
    e = dict(os.environ)
    e.update(PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", VERIF_REPO=REPO, OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", VERIF_JOBS=str(max(2, (os.cpu_count() or 4) // 2)))
    return e


def main():
    global PKG, CONTRACTS, TIER, SEED, DEADLINE
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier if a.tier in TIERS else "quick"
    TIER = TIERS[tier]
    DEADLINE = t0 + TIER["deadline"]
    prop = a.prop
    cs = registry.load(prop)
    if a.only:
        cs = [c for c in cs if a.only in c.name]
    CONTRACTS = {c.name: c for c in cs}
    meta = sys.modules[f"contracts.{prop.lower()}"]
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        return decide(a, prop, cs, meta, tier, tmp, t0)
    finally:
        subprocess.run(["rm", "-rf", tmp])


def decide(a, prop, cs, meta, tier, tmp, t0):
    global PKG
    conc_out = os.path.join(tmp, "conc.json")
    conc_err = open(os.path.join(tmp, "conc.err"), "w+")
    proc = subprocess.Popen(conc_cmd(prop, conc_out, TIER["trials"], TIER["budget"], a.only, seed=SEED), cwd=HERE,
                            env=dict(conc_env(), VERIF_UNTIL=str(t0 + TIER["deadline"])), stdout=conc_err, stderr=conc_err,
                            start_new_session=True)
    leans = [lean.Run(f, tmp) for f in getattr(meta, "LEAN", ["Rules.lean"])]
    results, load_error = [], None
    try:
        PKG = Package()
        PKG.M, PKG.D, PKG.P
    except Unsupported as ex:
        load_error = f"outside the verifier's subset: {ex}"
    except Exception as ex:
        load_error = "".join(traceback.format_exception(ex))[-2000:]
    sym = [c for c in cs if not c.opts.get("conc_only")]
    if load_error is None:
        order = sorted(sym, key=lambda c: -c.opts.get("weight", 1))
        with mp.get_context("fork").Pool(min(8, os.cpu_count() or 4), maxtasksperchild=8) as pool:
            results = pool.map(verify, [c.name for c in order], chunksize=1)
    else:
        results = [dict(name=c.name, obls=[], functions=[], unsupported=load_error, covered=False, paths=0, returned=0,
                        error=None, notes=[], wall=0, smt={}) for c in sym]
    try:
        proc.wait(timeout=max(5, TIER["deadline"] + 60 - (time.time() - t0)))
    except subprocess.TimeoutExpired:
        end_group(proc)
    conc = {}
    conc_fail = None
    if os.path.exists(conc_out):
        conc = {r["contract"]: r for r in json.load(open(conc_out))}
    else:
        conc_err.seek(0)
        conc_fail = conc_err.read()[-3000:]

    # operations that leave something behind: executions of every operation after these
    writers = sorted({r["name"] for r in results for o in r["obls"] if o["kind"] == "memory" and o["status"] != "proved"})
    if writers and conc_fail is None:
        ho = os.path.join(tmp, "history.json")
        try:
            run_conc(conc_cmd(prop, ho, TIER["trials"], TIER["budget"], a.only, seed=f"{SEED}h"),
                     max(20, min(200, 650 - (time.time() - t0))), 20, VERIF_HISTORY=json.dumps(writers))
            for r in json.load(open(ho)):
                c = conc.get(r["contract"])
                if c is not None:
                    c["fails"] = {**r["fails"], **c["fails"]}
                    c["trials"] += r["trials"]
        except Exception:
            pass

    known, fixed = load_findings()
    known = [k for k in known if k["property"] == prop]

    # a contract the verifier could not settle: more executions, for as strong a bounded statement as the time allows
    open_ = sorted(r["name"] for r in results if 0 < conc.get(r["name"], {}).get("trials", 0)
                   and all(any(k["contract"] == r["name"] and k["label"] == l for k in known) for l in conc[r["name"]]["fails"])
                   and CONTRACTS[r["name"]].opts.get("trials") != "once"
                   and (r["unsupported"] is not None or r["error"] or
                        not conc[r["name"]]["fails"] and
                        any(o["status"] != "proved" and o["kind"] != "recorded" for o in r["obls"])))
    if open_ and conc_fail is None:
        mo = os.path.join(tmp, "more.json")
        try:
            run_conc(conc_cmd(prop, mo, max(24, min(400, 8000 // len(open_))), 20, a.only, seed=f"{SEED}m"),
                     max(10, min(120, 720 - (time.time() - t0))), 20, VERIF_MORE=json.dumps(open_))
            for r in json.load(open(mo)):
                c = conc.get(r["contract"])
                if c is not None and not r["error"]:
                    c["fails"] = {**r["fails"], **c["fails"]}
                    c["trials"] += r["trials"]
                    for k, v in r["labels"].items():
                        c["labels"][k] = c["labels"].get(k, 0) + v
                    for k, v in r["recorded"].items():
                        c["recorded"][k] = c["recorded"].get(k, True) and v
        except Exception:
            pass

    # theorems the contracts cite and facts the engine uses, by Lean's kernel
    facts, lean_why, trusted = {}, {}, []
    for r in leans:
        ok, why = r.result(max(20, min(150, 820 - (time.time() - t0))))
        facts.update(ok)
        if why:
            lean_why[r.name] = why
    for r in results:
        for n in r["notes"]:
            m = re.match(r"trusted: (.*) \[(.*)\]$", n)
            if not m:
                continue
            if m[2] in facts:
                r["obls"].append(dict(label=f"{m[1]} ({m[2]})", kind="lemma", status="proved", backend="lean", why="",
                                      soft=False, path="", detail="", time=0, eq=True))
            else:
                trusted.append(f"{m[1]} (Lean did not check {m[2]}: {'; '.join(lean_why.values())[:200]})")

    violations, bounded, undecided, known_hits = [], [], [], []
    replays = []
    for r in results:
        c = conc.get(r["name"])
        status = {}
        for o in r["obls"]:
            if o["status"] != "proved" and o["kind"] != "recorded":
                status.setdefault(o["label"], []).append(o)
        r["bad"] = status
        for lab, os_ in status.items():
            for o in os_[:3]:
                if o.get("env"):
                    replays.append(dict(contract=r["name"], label=lab, values=o["env"]))
                for e in o.get("hints", ())[:3]:        # values that reach what stayed open, whether or not they refute it
                    replays.append(dict(contract=r["name"], label=lab, values=e, hint=True))
        for e in r.get("hints", ())[:24]:
            replays.append(dict(contract=r["name"], label="*", values=e, hint=True))
    replay_hits = {}
    left = {}
    replays = [q for q in replays if not q.get("hint") or left.setdefault(q["contract"], []).append(1) or len(left[q["contract"]]) <= 24]
    todo = [q for q in replays if not CONTRACTS[q["contract"]].opts.get("sym_only")]
    if todo and conc_fail is None:
        rq, ro = os.path.join(tmp, "rq.json"), os.path.join(tmp, "ro.json")
        json.dump(todo, open(rq, "w"))
        try:
            run_conc(conc_cmd(prop, ro, 0, 30, replay=rq, seed=SEED), max(15, min(180, 790 - (time.time() - t0))), 10)
            for h in json.load(open(ro)):
                if h["hit"] and h["hint"]:
                    c = conc.get(h["contract"])
                    if c is not None:
                        c["fails"] = {**h["hit"]["labels"], **c["fails"]}
                elif h["hit"]:
                    replay_hits.setdefault((h["contract"], h["label"]), h["hit"])
        except Exception:
            pass

    def known_for(contract, label):
        for k in known:
            if k["contract"] == contract and k["label"] == label:
                return k
        return None

    def requires_ok(r, k):
        """the recorded wrong value is exactly what the code still returns"""
        req = k.get("requires")
        if not req:
            return True
        sym_ok = r is not None and r["unsupported"] is None and any(o["label"] == req for o in r["obls"]) and \
            all(o["status"] == "proved" for o in r["obls"] if o["label"] == req)
        cc = conc.get(k["contract"])
        conc_ok = cc is not None and cc["recorded"].get(req) is True
        if CONTRACTS[k["contract"]].opts.get("conc_only"):
            return conc_ok
        if not sym_ok and r is not None and (r["unsupported"] is not None or r["error"] or all(
                o["status"] == "proved" or o["soft"] or o["eq"] and o["status"] != "refuted" for o in r["obls"] if o["label"] == req)):
            return conc_ok and cc["trials"] >= 20       # out of reach: the executions stand in
        return sym_ok and conc_ok

    by_name = {r["name"]: r for r in results}
    # executions of the real code that broke a postcondition
    for name, c in conc.items():
        for lab, f in c["fails"].items():
            k = known_for(name, lab)
            if k and requires_ok(by_name.get(name), k):
                known_hits.append(k)
                continue
            violations.append(dict(contract=name, obligation=lab, inputs=f["inputs"], detail=f["detail"], found="execution",
                                   trial=f["trial"]))
    for r in results:
        c = conc.get(r["name"])
        opts = CONTRACTS[r["name"]].opts
        trials = (c or {}).get("trials", 0)
        already = {v["obligation"] for v in violations if v["contract"] == r["name"]}
        if r["error"]:
            undecided.append(dict(contract=r["name"], obligation="*", why="contract error: " + r["error"]))
        for lab, os_ in r["bad"].items():
            k = known_for(r["name"], lab)
            if k and requires_ok(r, k):
                known_hits.append(k)
                continue
            if lab in already:
                continue
            if all(o["kind"] == "memory" for o in os_) and trials >= 20:
                # something is kept, which is no harm by itself: histories that could tell are executed
                bounded.append(dict(contract=r["name"], obligation=lab, trials=trials, why=os_[0]["detail"]))
                continue
            hit = replay_hits.get((r["name"], lab))
            base = dict(contract=r["name"], obligation=lab, verifier=os_[0])
            if hit:
                violations.append(dict(base, inputs=hit["inputs"], detail=hit["fails"], found="replay"))
                continue
            worst = [o for o in os_ if o["status"] == "refuted" and not o["soft"]]
            agree = (c or {}).get("labels", {}).get(lab, 0) if o_label_exec(os_) else trials
            if worst:
                violations.append(dict(base, verifier=worst[0], inputs=None, detail=worst[0]["detail"], found="verifier"))
            elif all(o["eq"] or o["soft"] for o in os_) and agree >= 20:
                bounded.append(dict(contract=r["name"], obligation=lab, trials=agree, why=os_[0]["why"]))
            else:
                violations.append(dict(base, inputs=None, detail=os_[0]["why"], found="undischarged"))
        if r["unsupported"] is not None or r["error"]:
            why = r["unsupported"] or r["error"]
            if trials >= 20 or (c and opts.get("trials") == "once" and trials):
                bounded.append(dict(contract=r["name"], obligation="*", trials=trials, why=why))
            elif not any(v["contract"] == r["name"] for v in violations):
                violations.append(dict(contract=r["name"], obligation="*", inputs=None, detail=why, found="undischarged",
                                       verifier=dict(why=why)))
        elif not r["obls"] or not r["covered"]:
            violations.append(dict(contract=r["name"], obligation="*", inputs=None, found="undischarged",
                                   detail="no obligation was generated" if not r["obls"] else
                                   "the precondition could not be shown satisfiable", verifier={}))
    for c in cs:
        cc = conc.get(c.name)
        if c.opts.get("sym_only"):
            continue
        if conc_fail is not None:
            violations.append(dict(contract=c.name, obligation="*", inputs=None, detail=conc_fail, found="undischarged",
                                   verifier=dict(why="the package could not be executed")))
            break
        if cc is None or cc["error"]:
            violations.append(dict(contract=c.name, obligation="*", inputs=None, found="undischarged",
                                   detail=(cc or {}).get("error") or "execution missing", verifier={}))
        elif c.opts.get("conc_only") and not cc["fails"]:
            bounded.append(dict(contract=c.name, obligation="*", trials=cc["trials"], why=c.opts.get("bounded", "declared")))

    # report --------------------------------------------------------------------------------------------
    evd = os.path.join(HERE, "evidence")
    rpd = os.path.join(evd, "replays")
    os.makedirs(rpd, exist_ok=True)
    for f in os.listdir(rpd):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(rpd, f))
    seen = set()
    for k in known_hits:
        if k["text"] not in seen:
            seen.add(k["text"])
            print(f"KNOWN-FINDING: property={prop} {k['text']}")
    # one violation per obligation, those with an input first
    violations.sort(key=lambda v: v.get("inputs") is None)
    shown = violations[:12]
    for i, v in enumerate(shown):
        path = os.path.join(rpd, f"{prop}-{i}.json")
        json.dump(dict(property=prop, tier=tier, seed=SEED, rerun=f"cd {HERE} && python3-vt run.py {prop} --only '{v['contract']}' -v",
                       **v), open(path, "w"), indent=1, default=str)
        tail = "" if v.get("inputs") is not None else " no-failing-input-found"
        print(f"  {v['contract']}: {v['obligation']}: {str(v['detail'])[:300]}")
        print(f"VIOLATION property={prop} replay={path}{tail}")
    for b in bounded:
        if b["contract"] not in {c.name for c in cs if c.opts.get("conc_only")}:
            print(f"UNDECIDED (bounded stand-in agreed on {b['trials']} executions) {b['contract']}: {b['obligation']}: {str(b['why'])[-300:]}")
    for u in undecided:
        print(f"UNDECIDED {u['contract']}: {u['why'][-600:]}")

    for r in results:
        r["obls"] = [o for o in r["obls"] if o["kind"] != "recorded"]
    total = sum(len(r["obls"]) for r in results)
    known_labels = {(k["contract"], k["label"]) for k in known_hits}
    excl = sum(1 for r in results for o in r["obls"] if o["status"] != "proved" and (r["name"], o["label"]) in known_labels)
    good = sum(o["status"] == "proved" for r in results for o in r["obls"])
    by_backend, by_kind = {}, {}
    for r in results:
        for o in r["obls"]:
            if o["status"] == "proved":
                by_backend[o["backend"]] = by_backend.get(o["backend"], 0) + 1
            by_kind[o["kind"]] = by_kind.get(o["kind"], 0) + 1
    st = {}
    for r in results:
        for k, v in r["smt"].items():
            st[k] = round(st.get(k, 0) + v, 3)
    functions = sorted({f for r in results for f in r["functions"]})
    execs = sum(c["trials"] for c in conc.values())
    wall = round(time.time() - t0, 2)
    ev = dict(property=prop, tier=tier, seed=SEED, level="proof", wall_s=wall, violations=len(violations),
              coverage=dict(
                  obligations=total - excl, discharged=good,
                  checker_cmd=f"python3-vt run.py {prop} --tier {tier}",
                  trusted_base=getattr(meta, "TRUSTED", []) + trusted + TRUSTED
                  + (["Lean 4 kernel and Mathlib (axioms: propext, Classical.choice, Quot.sound)"] if facts else []),
                  facts_checked_by_lean=dict(theorems=sorted(facts), files=[r.name for r in leans], problems=lean_why,
                                             what="rewriting rules and lemmas the engine relies on, as statements of "
                                                  "mathematics; that engine/*.py implements them is not proved"),
                  contracts=len(results), paths=sum(r["paths"] for r in results),
                  functions_under_contract=functions,
                  discharged_by_backend=by_backend, obligations_by_kind=by_kind, solver=st,
                  contract_list=[dict(name=r["name"], obligations=len(r["obls"]), paths=r["paths"],
                                      discharged=sum(o["status"] == "proved" for o in r["obls"]),
                                      seconds=round(r["wall"], 2)) for r in results],
                  cpython_cross_check=dict(executions=execs, contracts=len(conc),
                                           note="the same contract text run on the real package; not counted as proof"),
                  bounded_standins=[dict(b, why=str(b["why"])[-500:]) for b in bounded],
                  obligations_excluded_as_known_findings=excl,
                  known_findings=sorted({k["text"] for k in known_hits}),
                  counterexamples_replayed=len(todo)),
              assumptions=getattr(meta, "ASSUMPTIONS", []) + ASSUMPTIONS)
    if total - excl == 0 and load_error is None:
        print("no obligations were generated")
        violations.append({})
        print(f"VIOLATION property={prop} replay={evd}/{prop}.json no-failing-input-found")
    json.dump(ev, open(os.path.join(evd, f"{prop}.json"), "w"), indent=1)
    print(f"{prop} {tier}: {good}/{total - excl} obligations of {len(results)} contracts discharged, {len(functions)} functions, "
          f"{execs} executions, {len(bounded)} bounded, {len(violations)} violations, {wall}s {by_backend}")
    if a.v:
        for r in sorted(results, key=lambda r: -r["wall"]):
            print(f"  {r['wall']:6.2f}s {r['name']}: {len(r['obls'])} obls {r['paths']} paths", r["unsupported"] or "")
            if r["error"]:
                print(r["error"])
        for c in conc.values():
            print(f"  {c['wall']:6.2f}s {c['contract']}: {c['trials']} executions, {c['discarded']} discarded", c["error"] or "")
    return 1 if violations else 0


def o_label_exec(os_):
    """does the executable interpretation judge this label too?"""
    return all(o["kind"] in ("ensures", "lemma", "frame") for o in os_)


TRUSTED = ["engine/: symbolic reading of the Python subset, canonical forms (ring), numeric search",
           "z3, cvc5", "CPython's ast module (the code verified is the text of /repo, mechanically rewritten as engine/load.py states)"]
ASSUMPTIONS = ["machine arithmetic is treated as exact real arithmetic (rounding and overflow are not modelled)",
               "contracts assumed on numpy and scipy (engine/ext_numpy.py, engine/ext_scipy.py): elementwise functions, "
               "linear algebra, densities and sampling laws are the mathematical ones; cross-checked by execution, not proved"]

if __name__ == "__main__":
    sys.exit(main())
