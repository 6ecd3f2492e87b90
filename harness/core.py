"""Shared machinery: run cases on the real code in worker processes, collect the recorded
events, let TLC judge them against the specification, and report.

A property module P (harness/c01.py, ...) provides
  SPEC      : name of the trace-specification module in /verif/spec
  MC        : list of (module, cfg) model-checking runs; those with emit=True print scenarios
  cases(tier, seed, scenarios) -> list of JSON-able cases
  run(case, rec)               -> executes a case on the real code, calling rec(event)
Everything that decides a verdict is in the TLA+ modules; this file only moves data.
"""
import glob, hashlib, importlib, json, math, os, random, re, shutil, subprocess, sys, tempfile, time, traceback
from fractions import Fraction

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"


# ---------------------------------------------------------------- numbers for the specification
def num(x):
    """A Python/torch number as an exact rational string (or nan/inf/-inf)."""
    if hasattr(x, "item"):
        x = x.item()
    if isinstance(x, bool):
        return "1" if x else "0"
    if isinstance(x, int):
        return str(x)
    x = float(x)
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    f = Fraction(x)
    return str(f.numerator) if f.denominator == 1 else f"{f.numerator}/{f.denominator}"


def nums(x):
    """Nested lists / tensors / arrays of numbers."""
    if hasattr(x, "detach"):
        x = x.detach().cpu().tolist()
    elif hasattr(x, "values") and not isinstance(x, dict):
        x = x.values.tolist()
    elif hasattr(x, "tolist"):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        return [nums(y) for y in x]
    return num(x)


def shape(x):
    return [int(s) for s in x.shape]


# ---------------------------------------------------------------- java / TLC
def build_classes():
    src = os.path.join(ROOT, "java", "Rat.java")
    h = hashlib.sha1(open(src, "rb").read()).hexdigest()[:12]
    out = os.path.join(ROOT, "build", "classes-" + h)
    if not os.path.exists(os.path.join(out, "Rat.class")):
        tmp = out + ".%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        subprocess.run(["javac", "-cp", TLA, "-d", tmp, src], check=True)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


class TLCError(Exception):
    pass


def tlc(module, cfg, env=None, workers="1", timeout=800, mem="2g", extra=()):
    """Run TLC; returns (output, generated, distinct)."""
    meta = tempfile.mkdtemp(prefix="tlc-")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-cp", ":".join([build_classes(), TLA, CM]), "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-config", cfg, "-deadlock", *extra, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=os.path.join(ROOT, "spec"), env=e, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    g, d = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return p.returncode, out, g, d


def popen_tlc(module, cfg, env):
    meta = tempfile.mkdtemp(prefix="tlc-")
    e = dict(os.environ)
    e.update(env)
    cmd = ["java", "-Xmx3g", "-Xss64m", "-XX:+UseSerialGC", "-cp", ":".join([build_classes(), TLA, CM]),
           "tlc2.TLC", "-workers", "1", "-metadir", meta, "-config", cfg, "-deadlock", module + ".tla"]
    f = tempfile.TemporaryFile("w+")
    return subprocess.Popen(cmd, cwd=os.path.join(ROOT, "spec"), env=e, stdout=f, stderr=subprocess.STDOUT, text=True), f, meta


# ---------------------------------------------------------------- worker side
def worker(prop, casefile, outfile, k, n):
    import torch
    torch.set_num_threads(1)
    import logging
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module(prop.lower())
    cases = json.load(open(casefile))
    out = open(outfile, "w", buffering=1)
    null = open(os.devnull, "w")
    for i in range(k, len(cases), n):
        case = cases[i]
        out.write(json.dumps({"begin": i}) + "\n")
        evs = []
        seed_all(case.get("seed", 0) + 1000003 * i)
        so = sys.stdout
        sys.stdout = null
        t = time.time()
        try:
            mod.run(case, evs.append)
        except Exception as ex:  # the real code (or its use) raised: the specification has no such step
            tb = traceback.format_exc(limit=-6)
            evs.append({"op": case.get("op", "case"), "err": f"{type(ex).__name__}: {ex}"[:300], "tb": tb[-1500:]})
        finally:
            sys.stdout = so
        for e in evs:
            e.setdefault("err", "")
        out.write(json.dumps({"case": i, "events": evs, "t": round(time.time() - t, 2)}) + "\n")
    out.write(json.dumps({"done": k}) + "\n")


def seed_all(s):
    import torch, numpy
    random.seed(s)
    numpy.random.seed(s % (2 ** 31))
    torch.manual_seed(s)


def guarded(rec, ev, fn):
    """Run fn() -> dict of outputs on the real code; record ev with outputs or the error."""
    try:
        ev.update(fn())
        ev["err"] = ""
    except Exception as ex:
        ev["err"] = f"{type(ex).__name__}: {ex}"[:300]
        ev["tb"] = traceback.format_exc(limit=-5)[-1200:]
    rec(ev)
    return ev


# ---------------------------------------------------------------- driver
def run_cases(prop, cases, workers, case_timeout):
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        cf = os.path.join(tmp, "cases.json")
        json.dump(cases, open(cf, "w"))
        env = dict(os.environ)
        env.update(OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
                   PYTHONHASHSEED="0", CUDA_VISIBLE_DEVICES="", MPLCONFIGDIR=os.path.join(tmp, "mpl"),
                   PYTHONPATH=REPO + ":" + os.path.join(ROOT, "harness"))
        procs = []
        for k in range(workers):
            o = os.path.join(tmp, f"out{k}")
            lg = open(os.path.join(tmp, f"log{k}"), "w")
            procs.append([k, o, subprocess.Popen([PY, os.path.join(ROOT, "harness", "core.py"), "worker", prop, cf, o, str(k), str(workers)],
                                                 env=env, cwd=tmp, stdout=lg, stderr=lg, stdin=subprocess.DEVNULL), 0, time.time()])
        live = list(procs)
        hung = {}
        while live:
            time.sleep(0.1)
            for p in list(live):
                if p[2].poll() is not None:
                    live.remove(p)
                    continue
                sz = os.path.getsize(p[1]) if os.path.exists(p[1]) else 0
                if sz != p[3]:
                    p[3], p[4] = sz, time.time()
                elif time.time() - p[4] > case_timeout:
                    p[2].kill()
                    p[2].wait()
                    hung[p[0]] = True
                    live.remove(p)
        results = {}
        for k, o, p, _, _ in procs:
            begun, done = None, False
            for line in open(o) if os.path.exists(o) else []:
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                if "begin" in r:
                    begun = r["begin"]
                elif "case" in r:
                    results[r["case"]] = r["events"]
                    begun = None
                elif "done" in r:
                    done = True
            if not done:
                if begun is None:
                    # died outside a case (e.g. the package does not import)
                    log = open(os.path.join(tmp, f"log{k}")).read()[-2000:]
                    miss = [i for i in range(k, len(cases), workers) if i not in results]
                    begun = miss[0] if miss else None
                    why = "worker failed: " + log
                else:
                    why = "did not finish" if k in hung else "process died: " + open(os.path.join(tmp, f"log{k}")).read()[-1500:]
                if begun is not None:
                    results[begun] = [{"op": cases[begun].get("op", "case"), "err": why[:1800]}]
        return results
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def judge(spec, batches, parallel=8):
    """batches: list of (case index, events).  Returns (fails, states, transitions, stats).
    A recorded value outside the domain of the specification (TLC cannot evaluate the step) is a
    rejected event: it is reported as clause "outside_domain" and the rest is judged without it."""
    tmp = tempfile.mkdtemp(prefix="verif-tr-")
    try:
        sized = sorted(((len(json.dumps(b[1])), b) for b in batches), key=lambda x: -x[0])
        total = sum(x[0] for x in sized) or 1
        k = max(1, min(parallel, total // 20000 + 1))
        chunks = [[] for _ in range(k)]
        size = [0] * k
        for n, b in sized:
            i = size.index(min(size))
            chunks[i].append(b)
            size[i] += n
        fails, states, trans, stats = [], 0, 0, {}
        todo = [(i, ch, 0) for i, ch in enumerate(chunks) if ch]
        while todo:
            runs = []
            for i, ch, tries in todo:
                path = os.path.join(tmp, f"t{i}.ndjson")
                index = []
                with open(path, "w") as f:
                    for ci, evs in sorted(ch, key=lambda b: b[0]):
                        for j, e in enumerate(evs):
                            e = dict(e)
                            e.pop("tb", None)
                            e["first"] = (j == 0)
                            f.write(json.dumps(e) + "\n")
                            index.append((ci, j, e["op"]))
                runs.append((i, ch, tries, popen_tlc(spec, "Trace.cfg", {"TRACE_FILE": path}), index))
            todo = []
            try:
                for i, ch, tries, (p, f, meta), index in runs:
                    try:
                        p.wait(timeout=850)
                    except subprocess.TimeoutExpired:
                        raise TLCError("TLC timed out on a trace")
                    f.seek(0)
                    out = f.read()
                    f.close()
                    shutil.rmtree(meta, ignore_errors=True)
                    if "Model checking completed. No error has been found." not in out:
                        ls = [int(x) for x in re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)]
                        if tries < 6 and ls and ls[-1] <= len(index) and "OutOfMemory" not in out and "StackOverflow" not in out:
                            ci, j, op = index[ls[-1] - 1]
                            m = re.search(r"Error: (?!TLC threw)(.{0,400})", out, re.S)
                            if os.environ.get("VERIF_DEBUG"):
                                print(out[-3000:])
                            fails.append((ci, j, op, ["outside_domain"]))
                            rest = [b for b in ch if b[0] != ci]
                            if rest:
                                todo.append((i, rest, tries + 1))
                            continue
                        raise TLCError("TLC failed on a trace:\n" + out[-6000:])
                    acc = re.search(r'<<"ACCEPTED", (\d+)>>', out)
                    if not acc or int(acc.group(1)) != len(index):
                        raise TLCError("TLC did not consume the whole trace:\n" + out[-3000:])
                    flat = re.sub(r"\s+", " ", out)
                    for m in re.finditer(r'<< ?"FAIL", (\d+), "([^"]*)", \{([^}]*)\}', flat):
                        ci, j, _ = index[int(m.group(1)) - 1]
                        fails.append((ci, j, m.group(2), re.findall(r'"([^"]*)"', m.group(3))))
                    for m in re.finditer(r'<< ?"STAT", "([^"]*)", (\d+) ?>>', flat):
                        stats[m.group(1)] = stats.get(m.group(1), 0) + int(m.group(2))
                    m = re.findall(r"(\d+) states generated, (\d+) distinct", out)
                    trans += int(m[-1][0]) - 1
                    states += int(m[-1][1])
            finally:
                for _, _, _, (p, f, meta), _ in runs:
                    if p.poll() is None:
                        p.kill()
                    shutil.rmtree(meta, ignore_errors=True)
        return fails, states, trans, stats
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def parse_scenarios(out):
    sc = []
    for m in re.finditer(r'"SCENARIO (.*)"\s*$', out, re.M):
        sc.append(json.loads(json.loads('"' + m.group(1) + '"')))
    # several workers print in any order
    return sorted(sc, key=lambda x: json.dumps(x, sort_keys=True))


def check(prop, tier, seed):
    t0 = time.time()
    sys.path.insert(0, os.path.join(ROOT, "harness"))
    spec_only = importlib.import_module(prop.lower())
    mc_states = mc_trans = 0
    scen = []
    mcinfo = []
    for mc in spec_only.MC:
        module, cfg = mc["module"], mc["cfg"] if tier == "quick" else mc.get("thorough", mc["cfg"])
        rc, out, g, d = tlc(module, cfg, workers=mc.get("workers", "8"), timeout=mc.get("timeout", 600),
                            mem="6g", extra=mc.get("extra", ()), env={"VERIF_SEED": str(seed), "TIER": tier})
        ok = ("No error has been found" in out)
        if mc.get("extra") and "-simulate" in mc["extra"]:
            ok = "Error:" not in out
        if not ok:
            print(out[-5000:])
            raise TLCError(f"model checking of {module}/{cfg} failed")
        s = parse_scenarios(out)
        mcinfo.append({"module": module, "cfg": cfg, "generated": g, "distinct": d, "scenarios": len(s)})
        mc_states += d
        mc_trans += g
        scen.extend(s)
    cases = spec_only.cases(tier, seed, scen)
    workers = min(getattr(spec_only, "WORKERS", 8), max(1, len(cases)))
    results = run_cases(prop, cases, workers, getattr(spec_only, "CASE_TIMEOUT", 240))
    batches = sorted(results.items())
    fails, ts, tt, stats = judge(spec_only.SPEC, [(i, e) for i, e in batches if e])
    known = load_known(prop)
    viol, knownhit = [], {}
    for ci, j, op, clauses in sorted(fails):
        ev = results[ci][j]
        hit = next((k for k in known if k["op"] == op and set(clauses) <= set(k["clauses"]) and all(cases[ci].get(a) == b for a, b in k.get("match", {}).items())), None)
        if hit:
            knownhit[hit["text"]] = 1
        else:
            viol.append((ci, j, op, clauses, ev))
    for text in sorted(knownhit):
        print(f"KNOWN-FINDING: property={prop} {text}")
    validated = len([1 for i, e in batches if e]) - len({v[0] for v in viol})
    missing = len(cases) - len(results)
    samples = []
    for i, e in batches[:: max(1, len(batches) // 3)][:3]:
        s = json.dumps({"case": cases[i], "events": e[:2]})
        samples.append(s if len(s) < 1500 else s[:1500] + "...")
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": mc_states + ts, "transitions": mc_trans + tt, "traces_validated_against_impl": validated,
                       "samples": samples, "model_checking_runs": mcinfo, "trace_states": ts, "events_judged": sum(len(e) for _, e in batches),
                       "cases": len(cases), "cases_from_specification": sum(1 for c in cases if c.get("src") == "spec"), "events_by_operation": stats},
          "assumptions": getattr(spec_only, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    if missing and not viol:
        raise TLCError(f"{missing} cases were not executed")
    if viol:
        rd = os.path.join(ROOT, "build", "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f"{prop}.json")
        json.dump([{"case": cases[ci], "event": j, "op": op, "failing_clauses": cl, "recorded": evt} for ci, j, op, cl, evt in viol[:20]], open(path, "w"), indent=1)
        seen = set()
        for ci, j, op, cl, evt in viol:
            key = (op, tuple(cl))
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 12:
                break
            print(f"  {op}: clauses {', '.join(cl)} fail; case {json.dumps(cases[ci])[:300]}" + (f"; raised {evt.get('err')[:200]}" if evt.get("err") else ""))
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"{prop}: held on {validated} traces ({ev['coverage']['events_judged']} events), {mc_states} model states; {ev['wall_s']} s")
    return 0


def load_known(prop):
    path = os.path.join(ROOT, "KNOWN_FINDINGS.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["known"] if k["property"] == prop]


def replay(prop, path):
    """Re-run the recorded cases of a violation."""
    sys.path.insert(0, os.path.join(ROOT, "harness"))
    mod = importlib.import_module(prop.lower())
    cases = [r["case"] for r in json.load(open(path))]
    results = run_cases(prop, cases, 1, 600)
    fails, *_ = judge(mod.SPEC, sorted(results.items()), 1)
    for ci, j, op, cl in fails:
        print(ci, op, cl, json.dumps(results[ci][j])[:3000])


if __name__ == "__main__":
    if sys.argv[1] == "worker":
        sys.path.insert(0, os.path.join(ROOT, "harness"))
        worker(sys.argv[2], sys.argv[3], sys.argv[4], int(sys.argv[5]), int(sys.argv[6]))
    elif sys.argv[1] == "replay":
        replay(sys.argv[2], sys.argv[3])
    elif sys.argv[1] == "setup":
        build_classes()
        print("ok")
    else:
        tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 2:
            tier = sys.argv[2]
        try:
            sys.exit(check(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1"))))
        except TLCError as ex:
            print("CHECK ERROR:", ex)
            sys.exit(2)
