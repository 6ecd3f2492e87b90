"""Shipped and downloaded data sets: spec/DataSets.tla."""
import io, json, math, os, random, resource, shutil, signal, sys, tempfile, traceback, zipfile
import torch
from core import guarded

SPEC = "DataSetsTrace"
MC = [{"module": "DataSetsMC", "cfg": "DataSetsMC.cfg", "thorough": "DataSetsMCdeep.cfg"},
      {"module": "DataSetsMC", "cfg": "DataSetsMC2.cfg", "thorough": "DataSetsMC2deep.cfg"}]
ASSUMPTIONS = ["the published file is served by a stand-in for urllib.request.urlopen; home and temporary folders are scratch folders",
               "a store fails through a file size limit on the loading process, which then gets an error or is killed"]
CASE_TIMEOUT = 120
EMPTY = 999999999
NAMES = [f"{s}{i}" for s in ("EXT", "EST", "AGR", "CSN", "OPN") for i in range(1, 11)]


def cases(tier, seed, scenarios):
    rng = random.Random(seed)
    k = 1 if tier == "quick" else 10
    out = []
    solo = [s["hist"] for s in scenarios if all(h["who"] <= 1 for h in s["hist"])]
    duo = [s["hist"] for s in scenarios if any(h["who"] == 2 for h in s["hist"])]
    for pool, n in ((solo, 40 * k), (duo, 30 * k)):
        for h in rng.sample(pool, min(n, len(pool))):
            out.append({"src": "spec", "op": "loads", "hist": h, "seed": rng.randrange(10 ** 6)})
    for i in range(4):
        out.append({"src": "random", "op": "sat", "n": 150 if tier == "quick" else 500, "seed": rng.randrange(10 ** 6)})
        out.append({"src": "random", "op": "plain", "n": 60, "seed": rng.randrange(10 ** 6)})
    return out


def run(case, rec):
    globals()["do_" + case["op"]](case, rec, random.Random(case["seed"]))


# ---------------------------------------------------------------- the published file
def mk_rows(rng):
    rows = []
    for _ in range(rng.choice([3, 5, 8])):
        a = [rng.choice([1, 2, 3, 4, 5]) for _ in range(50)]
        for i in range(50):
            if rng.random() < 0.06:
                a[i] = 0
        t = [rng.randint(200, 90000) for _ in range(50)]
        u = rng.random()
        if u < 0.08:
            a = [0] * 50
        elif u < 0.16:
            a[rng.randrange(50)] = EMPTY
        elif u < 0.24:
            t[rng.randrange(50)] = -rng.randint(1, 5000)
        elif u < 0.32:
            t[rng.randrange(50)] = rng.choice([300001, 400000])
        elif u < 0.4:
            t[rng.randrange(50)] = rng.choice([0, 300000])
        elif u < 0.46:
            t[rng.randrange(50)] = EMPTY
        rows.append({"answers": a, "times": t, "ipc": rng.choice([1, 1, 1, 1, 2, 7])})
    # as in the published file, some respondents have no values at all
    rows.insert(rng.randrange(len(rows) + 1), {"answers": [EMPTY] * 50, "times": [EMPTY] * 50, "ipc": 1})
    return rows


def as_zip(rows):
    cols = NAMES + [n + "_E" for n in NAMES] + ["dateload", "screenw", "screenh", "introelapse", "testelapse", "endelapse", "IPC", "country", "lat_appx_lots_of_err", "long_appx_lots_of_err"]
    f = lambda v: "NULL" if v == EMPTY else str(v)
    lines = ["\t".join(cols)]
    for r in rows:
        lines.append("\t".join([f(v) for v in r["answers"]] + [f(v) for v in r["times"]] + ["2016-03-03 02:01:01", "768.0", "1024.0", "9.0", "234.0", "6", str(r["ipc"]), "GB", "51.5448", "0.1991"]))
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        z.writestr("IPIP-FFM-data-8Nov2018/data-final.csv", "\n".join(lines) + "\n")
        z.writestr("IPIP-FFM-data-8Nov2018/codebook.txt", "codebook")
    return b.getvalue()


# ---------------------------------------------------------------- a loader: a process of its own that stops where the network and the parser are
class Loader:
    def __init__(self, home, tmp):
        self.to_r, to_w = os.pipe()
        fr_r, self.fr_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.to_r)
                os.close(self.fr_w)
                child(home, tmp, os.fdopen(fr_r), os.fdopen(to_w, "w"))
            finally:
                os._exit(0)
        os.close(to_w)
        os.close(fr_r)
        self.inp, self.out = os.fdopen(self.to_r), os.fdopen(self.fr_w, "w")

    def wait(self):
        """What the loader says next; nothing when it died."""
        s = self.inp.readline()
        if not s.endswith("\n"):
            self.close()
            return {"said": "dead"}
        m = json.loads(s)
        if m["said"] in ("data", "failed"):
            self.close()
        return m

    def tell(self, **k):
        try:
            self.out.write(json.dumps(k) + "\n")
            self.out.flush()
        except BrokenPipeError:
            pass

    def close(self):
        if self.pid:
            for f in (self.inp, self.out):
                try:
                    f.close()
                except OSError:
                    pass
            try:
                os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(self.pid, 0)
            self.pid = 0


def child(home, tmp, inp, out):
    def say(**k):
        out.write(json.dumps(k) + "\n")
        out.flush()
    os.environ.update(HOME=home, TMPDIR=tmp)
    tempfile.tempdir = None
    import urllib.request, urllib.error, email.message
    import pandas as pd
    from irtorch import load_dataset

    class Body(io.BytesIO):
        def __init__(self, b, size):
            super().__init__(b)
            self.headers = email.message.Message()
            self.headers["Content-Length"] = str(size)
            self.status = self.code = 200

        def info(self):
            return self.headers

    def urlopen(*a, **k):
        say(said="downloading")
        m = json.loads(inp.readline())
        if m["do"] == "unreachable":
            raise urllib.error.URLError("no route to host")
        if m["do"] == "die":
            os._exit(9)
        b = bytes.fromhex(m["body"])
        return Body(b[:len(b) * 2 // 3] if m["do"] == "cut" else b, len(b))
    urllib.request.urlopen = urlopen
    read_csv = pd.read_csv

    def parse(*a, **k):
        d = read_csv(*a, **k)
        say(said="parsed")
        m = json.loads(inp.readline())
        if m["do"] == "limit":
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if m["kill"] else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (m["size"], resource.RLIM_INFINITY))
        return d
    pd.read_csv = parse
    try:
        data, original, items = load_dataset.big_five()
        code = lambda v: -1 if math.isnan(v) else int(v) if v == int(v) and v >= 0 else 77
        o = original.iloc[:, :100].to_numpy(dtype=float).tolist()
        msg = {"said": "data", "data": [[code(v) for v in r] for r in data.tolist()], "kind": str(data.dtype).replace("torch.", ""),
               "original": [[EMPTY if math.isnan(v) else int(v) if v == int(v) else -77 for v in r] for r in o], "width": int(original.shape[1]), "items": list(items), "letters": [s[0] for s in items]}
    except BaseException as ex:
        msg = {"said": "failed", "why": f"{type(ex).__name__}: {ex}"[:200]}
    say(**msg)


def do_loads(case, rec, rng):
    import irtorch.load_dataset, pandas  # before forking
    top = tempfile.mkdtemp(prefix="c17-")
    home, tmp = os.path.join(top, "home"), os.path.join(top, "tmp")
    os.mkdir(home)
    os.mkdir(tmp)
    w, got, body = {}, {}, None
    blank = {"data": [], "kind": "", "original": [], "width": 0, "items": [], "letters": []}
    try:
        def publish():
            nonlocal body
            rows = mk_rows(rng)
            body = as_zip(rows).hex()
            rec({"op": "publish", "rows": rows})

        def report(op, who, m, how="", killed=False):
            e = {"op": op, "who": who, "how": how, "killed": killed, "outcome": "data" if m["said"] == "data" else "downloading" if m["said"] == "downloading" else "failed", "why": m.get("why", "")}
            e.update({k: m.get(k, v) for k, v in blank.items()})
            rec(e)
            if m["said"] != "downloading":
                w.pop(who, None)
        publish()
        for h in case["hist"]:
            who, what = h["who"], h["what"]
            if what == "republish":
                publish()
            elif what == "start":
                w[who] = Loader(home, tmp)
                report("start", who, w[who].wait())
                if who in w:
                    got[who] = body
            elif who not in w:
                continue          # it ended earlier than the specification's loader
            elif what == "fetch":
                w[who].tell(do="serve", body=got[who])
                m = w[who].wait()
                if m["said"] != "parsed":
                    report("end", who, m, "finish")
            elif what == "store":
                w[who].tell(do="go")
                report("end", who, w[who].wait(), "finish")
            elif what == "fail_download":
                do = rng.choice(["unreachable", "cut", "die"])
                w[who].tell(do=do, body=got[who])
                report("end", who, w[who].wait(), "fail_download", do == "die")
            elif what == "fail_store":
                kill = rng.random() < 0.5
                w[who].tell(do="limit", size=rng.choice([0, 100, 900, 4000]), kill=kill)
                report("end", who, w[who].wait(), "fail_store", kill)
            if not w:
                rec({"op": "rest", "left": len(os.listdir(tmp))})
    finally:
        for p in w.values():
            p.close()
        shutil.rmtree(top, ignore_errors=True)


# ---------------------------------------------------------------- shipped data
def ints(t):
    return [[-1 if math.isnan(v) else int(v) if v == int(v) and v >= 0 else -5 for v in r] for r in t.tolist()]


def do_sat(case, rec, rng):
    from irtorch import load_dataset as L

    def get():
        (q, kq), (v, kv), (b, kb), z = L.swedish_sat_quantitative(), L.swedish_sat_verbal(), L.swedish_sat(), L.swedish_sat_binary()
        idx = sorted(rng.sample(range(q.shape[0]), case["n"]))
        low = lambda t: [int(c[~c.isnan()].min()) for c in t.T]
        top = lambda t: [int(c[~c.isnan()].max()) for c in t.T]
        return {"quant": ints(q[idx]), "verb": ints(v[idx]), "both": ints(b[idx]), "binary": ints(z[idx]), "keyq": list(kq), "keyv": list(kv), "keyb": list(kb),
                "lowq": low(q), "lowv": low(v), "topq": top(q), "topv": top(v)}
    guarded(rec, {"op": "sat"}, get)


def do_plain(case, rec, rng):
    from irtorch import load_dataset as L
    for f in (L.swedish_national_mathematics_1, L.swedish_national_mathematics_2):
        def get():
            d = f()
            idx = sorted(rng.sample(range(d.shape[0]), case["n"]))
            return {"rows": ints(d[idx]), "lows": [int(c.min()) for c in d.T]}
        guarded(rec, {"op": "plain"}, get)

    def again():
        same = True
        for g in (L.swedish_national_mathematics_1, L.swedish_sat_verbal, L.swedish_sat_binary):
            a = g()
            a0, k0 = (a if isinstance(a, tuple) else (a, None))
            keep, kkeep = a0.clone(), list(k0 or [])
            a0 += 1
            if k0:
                k0[0] = 99
            b = g()
            b0, l0 = (b if isinstance(b, tuple) else (b, None))
            same = same and torch.equal(b0.nan_to_num(-1), keep.nan_to_num(-1)) and list(l0 or []) == kkeep
        return {"same": same}
    guarded(rec, {"op": "again"}, again)
