"""Pipeline shared by every check: corpus -> Rust harness -> recorded executions -> TLC verdicts."""
import json, os, re, subprocess, sys, time, threading, resource, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import render

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TOOLCHAIN = "1.88.0-x86_64-unknown-linux-gnu"

class CheckError(Exception):
    """the check could not be carried out (exit 2): never a verdict"""

def env(extra=None):
    e = dict(os.environ)
    e.update({"RUSTUP_TOOLCHAIN": TOOLCHAIN, "CARGO_NET_OFFLINE": "true", "CARGO_INCREMENTAL": "0",
              "RUSTFLAGS": "-Awarnings", "CARGO_TERM_COLOR": "never"})
    e.pop("RUSTC_WRAPPER", None)
    if extra: e.update(extra)
    return e

class Work:
    def __init__(s, name):
        s.name = name.lower()
        s.dir = os.path.join(ROOT, ".work", s.name)
        shutil.rmtree(s.dir, ignore_errors=True)
        os.makedirs(s.dir)
        s.target = os.path.join(ROOT, ".work", "target")
        s.t0 = time.time()
        s.stats = {}
    def path(s, *a): return os.path.join(s.dir, *a)
    def log(s, *a):
        print("[%s %6.1fs]" % (s.name, time.time() - s.t0), *a, flush=True)

# ------------------------------------------------------------------ build
def write_crate(w, sub, features=None, default_features=True):
    d = w.path(sub)
    os.makedirs(os.path.join(d, "src", "bin"), exist_ok=True)
    dep = 'nom-derive = { path = "%s"%s%s }' % (REPO, "" if default_features else ", default-features = false",
          ", features = %s" % json.dumps(features) if features else "")
    nomdep = 'nom = { version = "8.0"%s%s }' % ("" if default_features else ", default-features = false",
          ", features = %s" % json.dumps(features) if features else "")
    open(os.path.join(d, "Cargo.toml"), "w").write(
        '[package]\nname = "h-%s-%s"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n%s\n%s\n'
        '[profile.dev]\nopt-level = 0\ndebug = 0\nincremental = false\noverflow-checks = true\ndebug-assertions = true\n'
        % (w.name, sub.replace("_", "-"), dep, nomdep))
    for c in (os.path.join(REPO, "Cargo.lock"), "/opt/vp/Cargo.lock"):
        if os.path.exists(c):
            shutil.copy(c, os.path.join(d, "Cargo.lock")); break
    return d

def cargo(w, d, args, timeout=700, target=None):
    p = subprocess.Popen(["cargo"] + args + ["--message-format=json", "--target-dir", target or w.target], cwd=d, env=env(),
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    try: out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill(); raise CheckError("cargo timed out")
    msgs = []
    for l in out.splitlines():
        if l.startswith("{"):
            try: msgs.append(json.loads(l))
            except ValueError: pass
    return p.returncode, msgs, err

def err_locs(m):
    """(file, line) pairs of an error, expansion sites included"""
    r = []
    def walk(sp):
        r.append((sp["file_name"], sp["line_start"]))
        if sp.get("expansion"): walk(sp["expansion"]["span"])
    for sp in m.get("spans", []): walk(sp)
    for c in m.get("children", []): r += err_locs(c)
    return r

NB = 8
def build_harness(w, progs, idxs, sub="crate", features=None, default_features=True, pre="pre.rs", target=None):
    """returns (list of executables, {bad program index: compiler message})"""
    bad = {}
    alive = list(idxs)
    d = write_crate(w, sub, features, default_features)
    shutil.copy(os.path.join(ROOT, "harness", pre), os.path.join(d, "src", "pre.rs"))
    for attempt in range(6):
        groups = [alive[k::NB] for k in range(NB)]
        where = {}
        for f in os.listdir(os.path.join(d, "src", "bin")): os.remove(os.path.join(d, "src", "bin", f))
        for k, g in enumerate(groups):
            if not g: continue
            name = "h%d.rs" % k
            out = "#![allow(warnings)]\n#[path = \"../pre.rs\"]\nmod pre;\nuse pre::*;\n"
            for ix in g:
                src = render.module(ix, progs[ix])
                a = out.count("\n") + 1
                out += src
                for ln in range(a, out.count("\n") + 1): where[("src/bin/" + name, ln)] = ix
            out += "fn main() { pre::main_loop(&[%s]); }\n" % ", ".join("(%d, p%d::run as RunFn)" % (ix, ix) for ix in g)
            open(os.path.join(d, "src", "bin", name), "w").write(out)
        rc, msgs, err = cargo(w, d, ["build", "--bins", "--keep-going"], target=target)
        errs = [m for m in msgs if m.get("reason") == "compiler-message" and m["message"]["level"].startswith("error")]
        if rc == 0:
            exes = [m["executable"] for m in msgs if m.get("reason") == "compiler-artifact" and m.get("executable")]
            return exes, bad
        newbad = {}
        for m in errs:
            if "h-%s" % w.name not in m.get("package_id", "") and "/%s" % sub not in m.get("package_id", ""):
                raise CheckError("/repo does not build:\n" + (m["message"].get("rendered") or "")[:3000])
            for loc in err_locs(m["message"]):
                if loc in where:
                    newbad.setdefault(where[loc], (m["message"].get("rendered") or "")[:1500]); break
        if not newbad:
            raise CheckError("harness does not build:\n" + "\n".join((m["message"].get("rendered") or "") for m in errs)[:4000] + err[-2000:])
        bad.update(newbad)
        alive = [x for x in alive if x not in newbad]
        w.log("build attempt %d: %d programs do not compile" % (attempt, len(newbad)))
        if not alive: return [], bad
    raise CheckError("too many rounds of compile errors")

# ------------------------------------------------------------------ run
DBG = re.compile(r"^(?:r#)?(\w+): Error\((Incomplete|Error|Failure)")
def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def run_exe(exe, casefile, outfile, ncases, obs, dbg, tmo):
    """runs the cases of one executable; a case that makes no progress for tmo seconds is a hang"""
    frm, hangs = 0, 0
    for _ in range(40):
        so_path = outfile + ".stdout"
        with open(so_path, "wb") as so:
            p = subprocess.Popen([exe, casefile, outfile, str(frm)], stdout=so, stderr=subprocess.DEVNULL, preexec_fn=_limits)
            killed, last_size, idle = False, -1, 0.0
            while True:
                try: p.wait(timeout=1); break
                except subprocess.TimeoutExpired: pass
                sz = os.path.getsize(outfile) if os.path.exists(outfile) else 0
                idle = 0 if sz != last_size else idle + 1
                last_size = sz
                if idle >= tmo:
                    p.kill(); p.wait(); killed = True; break
        cur = None
        for l in open(so_path, "rb").read().decode("utf-8", "replace").splitlines():
            if l.startswith("\x01CASE "):
                cur = int(l[6:]); dbg[cur] = []
            elif l.startswith("\x01END"): cur = None
            elif cur is not None:
                g = DBG.match(l)
                if g: dbg[cur].append([g.group(1), {"Incomplete": "inc", "Error": "err", "Failure": "fail"}[g.group(2)]])
        last = None
        if os.path.exists(outfile):
            for l in open(outfile):
                try: j = json.loads(l)
                except ValueError: continue
                if "start" in j: last = j["start"]
                else: obs[j["cid"]] = j; last = None
        if p.returncode == 0: return
        if last is None: raise CheckError("harness %s stopped (%s) outside a case" % (exe, p.returncode))
        obs[last] = {"cid": last, "r": "hang" if killed else "abort", "pos": 0, "n": 0, "v": [], "ch": [], "log": []}
        frm = last + 1
        hangs += killed
        if hangs >= 2: return
    # too many crashes: the remaining cases are not run

def hexs(b): return "".join("%02x" % x for x in b)
ENTRY = {"parse": 0, "be": 1, "le": 2}

def run_cases(w, exes, cases, tmo=25):
    w.runs = getattr(w, "runs", 0) + 1
    cf = w.path("cases%d.txt" % w.runs)
    with open(cf, "w") as f:
        for k, c in enumerate(cases):
            f.write("%d %d %d %s %s\n" % (k, c["p"], ENTRY[c["e"]], ",".join(hexs(a) for a in c["args"]) or "-", hexs(c["input"]) or "-"))
    obs, dbg, ths, errs = {}, {}, [], []
    def go(k, e):
        try: run_exe(e, cf, w.path("out%d-%d.jsonl" % (w.runs, k)), len(cases), obs, dbg, tmo)
        except Exception as x: errs.append(x)
    for k, e in enumerate(exes):
        t = threading.Thread(target=go, args=(k, e)); t.start(); ths.append(t)
    for t in ths: t.join()
    if errs: raise errs[0]
    for c, o in obs.items(): o["dbg"] = dbg.get(c, [])
    return obs

# ------------------------------------------------------------------ TLC
def tlc(w, module, cfg, envv, workers=8, timeout=800, extra=(), tag="tlc", heap="8g"):
    md = w.path("md-" + tag)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-DTLA-Library=" + os.path.join(ROOT, "spec"),
           "-Dtlc2.tool.impl.Tool.cdot=false", "-Djava.io.tmpdir=" + w.dir, "-cp", TLAJAR, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
           "-config", os.path.join(ROOT, "spec", cfg)] + list(extra) + [os.path.join(ROOT, "spec", module + ".tla")]
    e = dict(os.environ); e.update(envv)
    e["JAVA_TOOL_OPTIONS"] = ""
    out = w.path(tag + ".out")
    with open(out, "w") as f:
        p = subprocess.Popen(cmd, env=e, stdout=f, stderr=subprocess.STDOUT, cwd=w.dir)
        try: p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill(); raise CheckError("TLC timed out")
    shutil.rmtree(md, ignore_errors=True)
    return p.returncode, open(out, errors="replace").read()

STATES = re.compile(r"(?m)^([\d,]+) states generated, ([\d,]+) distinct states found")
VER = re.compile(r'^<<"(GOOD|BAD)", (\d+)(?:, (.*))?>>$')
NOTRUN = {"r": "notrun", "pos": 0, "n": 0, "v": [], "ch": [], "log": [], "dbg": []}

def spec_progs(progs):
    """what the specification needs of the programs"""
    return [{"defs": p["defs"], "main": p["main"], "err": p["err"], "cfg": p["cfg"]} for p in progs]

def corrupted(o, j):
    """the recorded execution o with one observation changed"""
    o = {f: list(o[f]) if isinstance(o[f], list) else o[f] for f in o}
    ways = ["log+", "dbg", "r"]
    if o["log"]: ways += ["log-", "logv"]
    if o["r"] == "ok": ways += ["pos"] + (["v"] if o["v"] else [])
    elif o["r"] == "inc": ways += ["n"]
    elif o["r"] in ("err", "fail") and o["ch"]: ways += ["code", "at"]
    way = ways[j % len(ways)]
    if way == "log+": o["log"] = o["log"] + [[424242]]
    elif way == "log-": o["log"] = o["log"][:-1]
    elif way == "logv": o["log"][-1] = o["log"][-1][:-1] + [o["log"][-1][-1] + 1]
    elif way == "dbg": o["dbg"] = o["dbg"] + [["nobody", "err"]]
    elif way == "r": o["r"] = "err" if o["r"] == "ok" else "ok"
    elif way == "pos": o["pos"] += 1
    elif way == "v": o["v"][j % len(o["v"])] += 1
    elif way == "n": o["n"] += 1
    elif way == "code": o["ch"][0] = ["Nothing", o["ch"][0][1]]
    elif way == "at": o["ch"][0] = [o["ch"][0][0], o["ch"][0][1] + 1]
    return o
CANARIES = 60

def conform(w, progs, cases, obs, tag="conform"):
    """every recorded execution against the specification; returns {case index: detail} of the bad ones"""
    keep = [k for k in range(len(cases)) if k in obs]
    corpus = {"progs": spec_progs(progs),
              "cases": [{"p": cases[k]["p"] + 1, "e": cases[k]["e"], "args": cases[k]["args"], "input": cases[k]["input"]} for k in keep]}
    trace = [{f: obs[k][f] for f in ("r", "pos", "n", "v", "ch", "log", "dbg")} for k in keep]
    # executions that did not happen: the specification has to reject every one
    import random
    rr = random.Random(len(keep))
    base = [j for j in rr.sample(range(len(keep)), min(CANARIES, len(keep))) if trace[j]["r"] in ("ok", "inc", "err", "fail")]
    for n, j in enumerate(base):
        corpus["cases"].append(corpus["cases"][j]); trace.append(corrupted(trace[j], n))
    cf, tf = w.path(tag + "-corpus.json"), w.path(tag + "-trace.json")
    json.dump(corpus, open(cf, "w")); json.dump(trace, open(tf, "w"))
    t = time.time()
    rc, out = tlc(w, "Conform", "Conform.cfg", {"CORPUS": cf, "TRACE": tf}, tag=tag)
    good, bad, fake = set(), {}, set(range(len(base)))
    for l in out.splitlines():
        g = VER.match(l)
        if g:
            k = int(g.group(2)) - 1
            if k >= len(keep):
                if g.group(1) == "BAD": fake.discard(k - len(keep))
                continue
            k = keep[k]
            if g.group(1) == "GOOD": good.add(k)
            else: bad[k] = g.group(3)
    st = STATES.findall(out)
    if st:
        a, b = (int(x.replace(",", "")) for x in st[-1])
        w.stats["transitions"] = w.stats.get("transitions", 0) + a
        w.stats["states"] = w.stats.get("states", 0) + b
    missing = [k for k in keep if k not in good and k not in bad]
    if bad and (missing or rc != 0):
        w.log("%d executions were not decided" % len(missing))
        return bad
    if missing or rc != 0:
        raise CheckError("TLC gave no verdict for %d cases (rc %d), e.g. %s\n%s" % (len(missing), rc,
            json.dumps({**cases[missing[0]], "prog": progs[cases[missing[0]]["p"]]["defs"]})[:1500] if missing else "-", "\n".join(x for x in out.splitlines() if not x.startswith('<<"GOOD"'))[-3500:]))
    fake = [n for n in fake if keep[base[n]] in good]
    if fake: raise CheckError("TLC accepted an execution that did not happen: %s" % json.dumps([corpus["cases"][base[fake[0]]], trace[len(keep) + fake[0]]])[:2000])
    w.stats["rejected"] = w.stats.get("rejected", 0) + len(base)
    w.stats["validated"] = w.stats.get("validated", 0) + len(keep)
    w.stats["tlc_s"] = round(w.stats.get("tlc_s", 0) + time.time() - t, 1)
    return bad
