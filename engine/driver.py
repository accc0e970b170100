"""Build harnesses from /repo's working tree, run the symbolic executor, replay
counterexamples on the native build, write evidence, decide the exit code."""
import concurrent.futures as cf
import hashlib
import json
import os
import queue
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SX_REPO", "/repo")
sys.path.insert(0, HERE)
import instrument  # noqa: E402

CXX = "clang++"
BASE = ["-std=c++17", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off",
        "-fno-math-errno", "-Wno-everything", "-DEIGEN_DONT_VECTORIZE",
        "-DEIGEN_DONT_PARALLELIZE", "-DPROXSUITE_NLP_VERIF",
        f"-I{HERE}", f"-I{VERIF}/harness", f"-I{VERIF}/compat", f"-I{VERIF}/stubs", f"-I{REPO}/include", f"-I{REPO}/src",
        "-I/usr/include/eigen3"]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-2000:] + p.stderr[-6000:])
    return p


def _rt(name, flags):
    """compile a run-time object into /verif/.build (rebuilt when its source changes)"""
    src = os.path.join(HERE, name + ".cpp")
    h = hashlib.sha256((open(src).read() + open(os.path.join(HERE, "sx.hpp")).read() + " ".join(flags)).encode()).hexdigest()[:16]
    d = os.path.join(VERIF, ".build")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, f"{name}-{h}.o")
    if not os.path.exists(out):
        tmp = f"{out}.{os.getpid()}.tmp"
        sh([CXX, "-std=c++17", *flags, f"-I{HERE}", "-c", src, "-o", tmp])
        os.replace(tmp, out)
    return out


def rt_objects():
    with cf.ThreadPoolExecutor(2) as ex:
        a = ex.submit(_rt, "rt_sym", ["-O2"])
        b = ex.submit(_rt, "rt_native", ["-O1"])
        return a.result(), b.result()


def build(cpp, wd, defines=(), opt="-O1"):
    """-> (symbolic executable, native executable, info)"""
    t0 = time.time()
    src = os.path.join(VERIF, "harness", cpp)
    tag = re.sub(r"\W", "_", cpp + "_".join(defines))
    stem = os.path.join(wd, tag)
    defs = ["-D" + d for d in defines]
    rt_sym, rt_nat = rt_objects()

    def sym():
        sh([CXX, opt, *BASE, *defs, "-S", "-emit-llvm", src, "-o", stem + ".ll"])
        text, st = instrument.instrument(open(stem + ".ll").read())
        open(stem + ".i.ll", "w").write(text)
        os.unlink(stem + ".ll")
        sh([CXX, "-O1", "-c", stem + ".i.ll", "-o", stem + ".o"])
        sh([CXX, stem + ".o", rt_sym, "-lgmpxx", "-lgmp", "-lfmt", "-o", stem + ".sym"])
        os.unlink(stem + ".i.ll")
        return st

    def nat():
        sh([CXX, opt, *BASE, *defs, "-c", src, "-o", stem + ".n.o"])
        sh([CXX, stem + ".n.o", rt_nat, "-lfmt", "-Wl,--wrap=malloc", "-o", stem + ".nat"])

    with cf.ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(sym), ex.submit(nat)
        b.result()
        st = a.result()
    names = [n for n in st.pop("fns")]
    dem = instrument.demangle_filter(names) if names else []
    fns = sorted({re.sub(r"\(.*", "", d) for d in dem if "proxsuite" in d or "BunchKaufman" in d or "bunch" in d})
    return stem + ".sym", stem + ".nat", {"ops": st["ops"] + st["cmps"] + st["merged"], "functions": fns,
                                         "n_functions": st["functions"], "build_s": round(time.time() - t0, 1),
                                         "bitcasts": sorted(set(st.get("bitcasts", [])))}


class Run:
    """one harness run; params: dict of ints"""

    def __init__(self, cpp, harness, params=None, fp=False, ite=False, tier="quick", defines=(), must_reach=(),
                 obl_ms=20000, feas_ms=3000, path_s=120, deadline=600, max_paths=200000, witnesses=8, note="", jobs=4,
                 opt="-O1", z3=None):
        self.__dict__.update(locals())
        self.params = params or {}

    def key(self):
        p = ",".join(f"{k}={v}" for k, v in sorted(self.params.items()))
        return f"{self.harness}" + (f"[{p}]" if p else "") + ("/fp" if self.fp else "")


def replay(nat, harness, cand, params, timeout=60, fill=True):
    """-> (confirmed, text)"""
    cmd = [nat, "--harness", harness, "--in", cand]
    for k, v in params.items():
        cmd += ["--param", f"{k}={v}"]
    if fill:
        cmd += ["--fill"]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        return "timeout", "timeout"
    if p.returncode == 0:
        return "pass", ""
    if p.returncode == 4:
        return "assume", p.stderr[-200:]
    fl = [l for l in p.stdout.splitlines() if l.startswith("FAILED")]
    return "fail", f"exit {p.returncode}: " + "; ".join(fl[:6]) + (" " + p.stderr[-300:] if p.returncode < 0 else "")


class Proc:
    pass


def stream(run, cmd, nat, accept):
    """run the executor; stop it as soon as a counterexample is confirmed natively"""
    res = Proc()
    out, err = [], tempfile.TemporaryFile("w+", errors="replace")
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=err, text=True, errors="replace", start_new_session=True)
    q = queue.Queue()

    def reader():
        for l in p.stdout:
            q.put(l)
        q.put(None)
    threading.Thread(target=reader, daemon=True).start()
    early, tried, res.found = False, {}, {}
    while True:
        try:
            l = q.get(timeout=1)
        except queue.Empty:
            l = ""
        if l is None:
            break
        if l:
            out.append(l)
        if STOP.is_set():
            early = True
        elif l.startswith('{"t":"obl"'):
            try:
                o = json.loads(l)
            except ValueError:
                o = {}
            if o.get("status") == "violated" and accept(run, o["label"]):
                for c in o.get("cands", [])[:3]:
                    n = tried[o["label"]] = tried.get(o["label"], 0) + 1
                    if n <= 20 and os.path.exists(c) and replay(nat, run.harness, c, run.params)[0] == "fail":
                        early = True
                        res.found[o["label"]] = c
                        STOP.set()
                        break
        if early:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            break
    p.wait()
    while early:
        try:
            l = q.get(timeout=5)
        except queue.Empty:
            break
        if l is None:
            break
        out.append(l)
    res.returncode, res.stdout = p.returncode, "".join(out)
    err.seek(0)
    res.stderr = err.read()
    return res, early


STOP = threading.Event()  # set when a new violation has been confirmed: nothing more to decide


def execute(run, sym, nat, wd, left, accept=lambda run, label: True):
    d = tempfile.mkdtemp(prefix="run_", dir=wd)
    dl = max(5, min(run.deadline, left))
    cmd = [sym, "--harness", run.harness, "--dir", d, "--jobs", str(run.jobs), "--obl-ms", str(run.obl_ms),
           "--feas-ms", str(run.feas_ms), "--path-s", str(run.path_s), "--deadline", str(dl),
           "--max-paths", str(run.max_paths), "--witnesses", str(run.witnesses)]
    if run.fp:
        cmd.append("--fp")
    if run.ite:
        cmd.append("--ite")
    for k, v in run.params.items():
        cmd += ["--param", f"{k}={v}"]
    t0 = time.time()
    p, early = stream(run, cmd, nat, accept)
    r = {"run": run.key(), "paths": 0, "status": {}, "decisions": 0, "obligations": 0, "discharged_syntactic": 0,
         "discharged_smt": 0, "undecided": 0, "violated": 0, "queries": 0, "unknown_feasibility": 0, "solver_s": 0.0,
         "witness_ok": 0, "witness_bad": 0, "reach": {}, "truncated": None, "confirmed": [], "unconfirmed": [],
         "undecided_labels": [], "samples": []}
    if early:
        r["truncated"] = True
        r["stopped_early"] = True
    elif p.returncode != 0 or '"t":"end"' not in p.stdout:
        r["truncated"] = True
        r["error"] = (p.stderr or "")[-500:] + f" rc={p.returncode}"
    viol = {}
    for l in p.stdout.splitlines():
        if not l.startswith("{"):
            continue
        try:
            o = json.loads(l)
        except ValueError:
            continue
        if o["t"] == "obl":
            if o["status"] in ("violated", "undecided"):
                viol.setdefault((o["label"], o["status"]), []).extend(o.get("cands", []))
                if o["status"] == "undecided":
                    r["undecided_labels"].append(o["label"])
        elif o["t"] == "path":
            r["paths"] += 1
            r["status"][o["status"]] = r["status"].get(o["status"], 0) + 1
            if o["status"] in ("unsupported", "died", "toolong", "exception"):
                r.setdefault("msgs", {})
                r["msgs"][o["status"] + ":" + o["msg"]] = r["msgs"].get(o["status"] + ":" + o["msg"], 0) + 1
            r["decisions"] += len(o["dec"])
            r["obligations"] += o["obl"]
            r["discharged_syntactic"] += o["triv"]
            r["discharged_smt"] += o["smt"]
            r["undecided"] += o["undec"]
            r["violated"] += o["viol"]
            r["queries"] += o["queries"]
            r["unknown_feasibility"] += o["unknown"]
            r["solver_s"] += o["solver_s"]
            for x in o["reach"]:
                r["reach"][x] = r["reach"].get(x, 0) + 1
            if o.get("wit"):
                res, txt = replay(nat, run.harness, o["wit"], run.params)
                if res == "pass":
                    r["witness_ok"] += 1
                    if len(r["samples"]) < 2:
                        r["samples"].append({"run": run.key(), "path_decisions": o["dec"][:40], "inputs": open(o["wit"]).read().split("\n")[:24]})
                elif res == "fail":
                    r["witness_bad"] += 1
                    r.setdefault("witness_msgs", []).append(txt[:200])
        elif o["t"] == "end":
            r["truncated"] = o["truncated"]
    # replay counterexamples against the native build of the real code
    nrep = 0
    for (label, st), cands in viol.items():
        ok = None
        tried = []
        cands = [c for c in cands if os.path.exists(c)]
        # spread over the candidates
        step = max(1, len(cands) // 24)
        for c in ([p.found[label]] if label in p.found else []) + cands[::step][:30]:
            nrep += 1
            res, txt = replay(nat, run.harness, c, run.params)
            tried.append(res)
            if res == "fail":
                ok = (c, txt)
                break
        if ok:
            r["confirmed"].append({"label": label, "cand": open(ok[0]).read(), "result": ok[1]})
        elif st == "violated":
            r["unconfirmed"].append({"label": label, "tried": tried})
    r["replays"] = nrep
    r["wall_s"] = round(time.time() - t0, 1)
    r["solver_s"] = round(r["solver_s"], 2)
    shutil.rmtree(d, ignore_errors=True)
    return r


def load_known():
    f = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l and not l.startswith("#"):
                o = json.loads(l)
                if o.get("status") == "known":
                    out.append(o)
    return out


def check(pid, runs, level="model_checking", assumptions=(), budget=780, keep=False):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if tier == "thorough":
        budget = 3600 * 3
    runs = [r for r in runs if r.tier == "quick" or tier == "thorough"]
    sel = os.environ.get("SX_ONLY")
    if sel:
        runs = [r for r in runs if re.search(sel, r.key())]
    wd = tempfile.mkdtemp(prefix=f"sx_{pid}_", dir=os.environ.get("SX_TMP", "/tmp"))
    out_lines = []
    rc = 0
    builds, results, problems, soft = {}, [], [], []
    try:
        # one build per (cpp, defines, opt)
        keys = sorted({(r.cpp, tuple(r.defines), r.opt) for r in runs})
        rt_objects()
        with cf.ThreadPoolExecutor(4) as ex:
            futs = {k: ex.submit(build, k[0], wd, k[1], k[2]) for k in keys}
            for k, f in futs.items():
                try:
                    builds[k] = f.result()
                except (BuildError, SystemExit) as e:
                    print(f"BUILD-ERROR {k[0]}: {str(e)[-3000:]}")
                    problems.append(f"build of {k[0]} failed")
        todo = [r for r in runs if (r.cpp, tuple(r.defines), r.opt) in builds]
        nthreads = 3
        STOP.clear()
        known = load_known()

        def find_known(run_key, label):
            for k in known:
                if k["property"] == pid and re.fullmatch(k["run"], run_key) and re.fullmatch(k["label"], label):
                    return k
            return None

        def accept(run, label):
            return find_known(run.key(), label) is None
        with cf.ThreadPoolExecutor(nthreads) as ex:
            futs = []
            for r in todo:
                b = builds[(r.cpp, tuple(r.defines), r.opt)]

                def job(r=r, b=b):
                    return r, execute(r, b[0], b[1], wd, budget - (time.time() - t0), accept)
                futs.append(ex.submit(job))
            for f in futs:
                r, res = f.result()
                results.append((r, res))
                s = res["status"]
                print(f"[{pid}] {res['run']}: paths={res['paths']} {s} obligations={res['obligations']} "
                      f"(syntactic {res['discharged_syntactic']}, smt {res['discharged_smt']}) undecided={res['undecided']} "
                      f"violated={res['violated']} queries={res['queries']} solver={res['solver_s']}s wall={res['wall_s']}s "
                      f"witness {res['witness_ok']}/{res['witness_ok'] + res['witness_bad']}", flush=True)
        nviol = 0
        seen_known = set()
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        for r, res in results:
            for c in res["confirmed"]:
                kf = find_known(res["run"], c["label"])
                if kf:
                    if kf["id"] not in seen_known:
                        seen_known.add(kf["id"])
                        print(f"KNOWN-FINDING: property={pid} {kf['what']}")
                    continue
                nviol += 1
                fn = os.path.join(VERIF, "evidence", f"replay_{pid}_{nviol}.txt")
                with open(fn, "w") as f:
                    f.write(f"# property {pid}\n# harness {r.cpp} run {res['run']}\n# violated: {c['label']}\n"
                            f"# native replay: {c['result']}\n"
                            f"# reproduce: {VERIF}/check --replay {pid} {fn}\n" + c["cand"])
                if nviol <= 4:
                    print(f"VIOLATION property={pid} replay={fn}")
                    print(f"   {res['run']}: {c['label']}: {c['result'][:300]}")
                rc = 1
            if res["unconfirmed"]:
                ul = [u["label"] for u in res["unconfirmed"]]
                print(f"UNCONFIRMED {res['run']}: solver counterexamples that do not reproduce natively: {ul[:6]} {res['unconfirmed'][0]['tried'][:8]}")
                problems.append(f"{res['run']}: {len(ul)} unconfirmed counterexamples")
            if res["undecided"]:
                soft.append(f"{res['run']}: {res['undecided']} undecided obligations {sorted(set(res['undecided_labels']))[:5]}")
            if res.get("stopped_early"):
                soft.append(f"{res['run']}: stopped, a violation was confirmed")
                continue
            if res["truncated"]:
                (problems if res.get("error") else soft).append(f"{res['run']}: exploration truncated {res.get('error', '')}")
            for st in ("unsupported", "died", "toolong", "timeout"):
                if res["status"].get(st):
                    (problems if 2 * res["status"][st] > res["paths"] else soft).append(f"{res['run']}: {res['status'][st]} paths ended '{st}' {res.get('msgs')}")
            if not res["status"].get("done") and not res["status"].get("stopped") and not res["confirmed"]:
                problems.append(f"{res['run']}: vacuous (no completed path)")
            if res["obligations"] == 0 and not res["confirmed"]:
                problems.append(f"{res['run']}: vacuous (no obligation)")
            for m in r.must_reach:
                if not res["reach"].get(m) and not res["confirmed"]:
                    problems.append(f"{res['run']}: vacuous ({m} not reached)")
            if res["witness_bad"]:
                print(f"NOTE {res['run']}: {res['witness_bad']} path witnesses fail natively: {res.get('witness_msgs')[:2]}")
    finally:
        if not keep:
            shutil.rmtree(wd, ignore_errors=True)
    tot = lambda k: sum(x[1][k] for x in results)
    fns = sorted({f for b in builds.values() for f in b[2]["functions"]})
    samples = [s for _, x in results for s in x["samples"]][:6]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "states": tot("paths"), "transitions": tot("decisions"),
            "traces_validated_against_impl": tot("witness_ok"),
            "samples": samples,
            "explanation": "symbolic execution of the instrumented LLVM IR of the real code; states = symbolic end "
                           "states (paths), transitions = symbolic branch decisions taken on them, traces validated = "
                           "solver models of complete paths replayed on the native build of the same code",
            "functions_encoded": fns, "instrumented_fp_operations": sum(b[2]["ops"] for b in builds.values()),
            "obligations": tot("obligations"), "discharged_by_normalisation": tot("discharged_syntactic"),
            "discharged_by_smt": tot("discharged_smt"), "undecided": tot("undecided"),
            "smt_queries": tot("queries"), "feasibility_unknown": tot("unknown_feasibility"),
            "solver_s": round(tot("solver_s"), 2), "counterexample_replays": tot("replays"),
            "runs": [{k: v for k, v in x.items() if k in ("run", "paths", "status", "obligations", "discharged_syntactic",
                     "discharged_smt", "undecided", "queries", "solver_s", "wall_s", "reach", "truncated")} | {"bounds": r.note}
                     for r, x in results],
            "exhaustive": not problems and not soft,
        },
        "assumptions": list(assumptions) + ["not covered by this run: " + p for p in problems + soft],
        "wall_s": round(time.time() - t0, 1),
        "violations": sum(1 for _, x in results for c in x["confirmed"]) if rc else 0,
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1)
    for p in soft:  # part of the stated space was not decided: reported, and recorded in the evidence
        print(f"INCOMPLETE property={pid} {p}")
    for p in problems:
        print(f"INCONCLUSIVE property={pid} {p}")
    if rc == 0 and problems:
        rc = 2
    print(f"[{pid}] tier={tier} exit={rc} wall={ev['wall_s']}s")
    return rc
