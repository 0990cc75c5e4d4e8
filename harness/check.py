#!/usr/bin/env python3
"""check.py <property id>: decide one property.
  1. TLC checks the design models of the property (and prints the inputs they enumerate);
  2. the driver feeds those and seeded inputs to the code in /repo and records what it did;
  3. TLC judges every recorded history with the trace specification;
  4. verdict, known findings, evidence file.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Anything else: machinery failure."""
import concurrent.futures as cf
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
sys.path.insert(0, HERE)
from props import PROPS
JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
CORES = os.cpu_count() or 4


def build_override():
    out = os.path.join(VERIF, "build")
    src = sorted(glob.glob(os.path.join(VERIF, "java", "*.java")))
    stamp = os.path.join(out, "stamp")
    if not (os.path.exists(stamp) and all(os.path.getmtime(stamp) >= os.path.getmtime(s) for s in src)):
        tmp = tempfile.mkdtemp(prefix="vb")
        subprocess.run(["javac", "-cp", JAR, "-d", tmp] + src, check=True)
        os.makedirs(out, exist_ok=True)
        for f in os.listdir(tmp):
            shutil.move(os.path.join(tmp, f), os.path.join(out, f))
        shutil.rmtree(tmp)
        open(stamp, "w").close()
    return out


class TlcError(Exception):
    pass


def tlc(module, cfg, work, tag, env=None, workers=1, heap="3g", timeout=840, extra=()):
    meta = os.path.join(work, "meta_" + tag)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % min(4, max(1, workers)), "-Xmx" + heap, "-Xss64m",
           "-cp", ":".join([JAR, CM, os.path.join(VERIF, "build")]), "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta,
           "-workers", str(workers), "-config", cfg, *extra, module + ".tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    t0 = time.time()
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        # TLC rewrites progress lines; take the last match of the alternative form
        m = None
        for m in re.finditer(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out):
            pass
    st = tuple(int(x.replace(",", "")) for x in m.groups()) if m else (0, 0)
    return {"rc": p.returncode, "out": out, "generated": st[0], "distinct": st[1], "wall": time.time() - t0,
            "ok": p.returncode == 0 and "No error has been found" in out}


def run_models(models, work):
    """design models: must all pass, independently of /repo"""
    res, gen = [], {}

    def one(k_m):
        k, m = k_m
        cfg = m[1]
        return m, tlc(m[0], cfg, work, "m%d" % k, workers=m[2] if len(m) > 2 else 2, timeout=m[3] if len(m) > 3 else 600)
    with cf.ThreadPoolExecutor(4) as ex:
        for m, r in ex.map(one, enumerate(models)):
            if not r["ok"]:
                sys.stderr.write(r["out"][-4000:])
                raise TlcError(f"design model {m[0]}/{m[1]} failed")
            lines = []
            for ln in r["out"].splitlines():
                if ln.startswith('"GEN '):
                    lines.append(json.loads(json.loads(ln)[4:]))
            gen[m[1].replace(".cfg", "")] = sorted(lines, key=lambda x: json.dumps(x))
            res.append({"model": m[0], "config": m[1], "generated": r["generated"], "distinct": r["distinct"], "wall_s": round(r["wall"], 1), "emitted": len(lines)})
    return res, gen


def run_driver(prop, p, work, genfile):
    trace = os.path.join(work, "trace.ndjson")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               VERIF_GEN=genfile, VERIF_TRACE=trace, VERIF_SEED=str(SEED), VERIF_TIER=TIER, VERIF_WORK=work, MPLCONFIGDIR=work, TMPDIR=work)
    if p.get("native"):
        env["VERIF_NATIVE"] = str(p["native"])
    r = subprocess.run([PY, "-W", "ignore", os.path.join(HERE, "drive.py"), p["driver"]], env=env, cwd=work, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, timeout=800)
    return r, trace


def judge(p, work, trace):
    """-> (per-history results {index: [(event, {clauses})]}, stats)"""
    lines = open(trace).read().splitlines()
    n = len(lines)
    chunks = min(p.get("chunks", 6), max(1, n))
    idx = [list(range(c, n, chunks)) for c in range(chunks)]
    stats = {"generated": 0, "distinct": 0}
    bad, done = {}, set()

    def run_chunk(ci, ids, tag):
        f = os.path.join(work, f"chunk_{tag}.ndjson")
        with open(f, "w") as o:
            for i in ids:
                o.write(lines[i] + "\n")
        r = tlc(p["trace"], p.get("trace_cfg", "Trace.cfg"), work, tag, env={"TRACE_FILE": f}, workers=1, heap=p.get("heap", "3g"))
        os.unlink(f)
        return r

    def parse(r, ids):
        out = re.sub(r"\n\s+", " ", r["out"])      # TLC wraps long values
        for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*(\{.*?\})\s*>>(?=\n|$)', out):
            cl = re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(3))
            v = (int(m.group(2)), cl)
            if v not in bad.setdefault(ids[int(m.group(1)) - 1], []):
                bad[ids[int(m.group(1)) - 1]].append(v)
        for m in re.finditer(r'<<\s*"DONE",\s*(\d+),\s*(\d+)\s*>>', out):
            done.add(ids[int(m.group(1)) - 1])

    def full(ci):
        ids, rounds = idx[ci], 0
        g = d = 0
        errs = []
        while ids:
            r = run_chunk(ci, ids, f"c{ci}_{rounds}")
            parse(r, ids)
            g += r["generated"]
            d += r["distinct"]
            if r["ok"]:
                miss = [i for i in ids if i not in done]
                if miss:
                    raise TlcError(f"histories without verdict: {miss[:5]}\n" + r["out"][-3000:])
                break
            # evaluation error: some history holds a value no clause can be evaluated on
            m = re.findall(r"/\\ h = (\d+)", r["out"]) or re.findall(r"\bh = (\d+)", r["out"])
            if not m:
                raise TlcError(r["out"][-3500:])
            k = ids[int(m[-1]) - 1]
            errs.append((k, r["out"]))
            rounds += 1
            if rounds > 4:
                break
            ids = [i for i in ids if i != k and i not in done]
        return g, d, errs
    with cf.ThreadPoolExecutor(min(chunks, CORES)) as ex:
        for g, d, errs in ex.map(full, range(chunks)):
            stats["generated"] += g
            stats["distinct"] += d
            for k, out in errs:
                msg = re.search(r"Error: (.*(?:\n.*){0,6})", out)
                bad.setdefault(k, []).append((0, ["result outside the specification's value domain"]))
                stats.setdefault("errors", []).append((msg.group(0)[:800] if msg else out[-800:]))
    return lines, bad, stats


def known(prop):
    out = []
    fn = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fn):
        for ln in open(fn):
            m = re.match(r"known: property=(\S+) history=(\S+) event=(\S+) clause=\"(.*?)\" (.*)", ln.strip())
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


def main():
    prop = sys.argv[1]
    p = PROPS[prop]
    t0 = time.time()
    ev_file = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev_file), exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"vc_{prop}_")
    try:
        build_override()
        models = list(p.get("models", [])) + (list(p.get("models_thorough", [])) if TIER == "thorough" else [])
        mres, gen = run_models(models, work)
        genfile = os.path.join(work, "gen.json")
        json.dump(gen, open(genfile, "w"))
        viol, kf = [], []
        r, trace = run_driver(prop, p, work, genfile)
        if r.returncode == 3:      # the package under test does not import
            viol.append(("import", "gpytoolbox cannot be imported: " + r.stderr[-300:].replace("\n", " "), None))
            lines, bad, stats = [], {}, {"generated": 0, "distinct": 0}
        elif r.returncode == 4:
            at = [x.strip() for x in r.stderr.splitlines() if x.strip()]
            viol.append(("preparation", "a call made to prepare inputs raised: " + " / ".join(at[-3:])[-400:], None))
            lines, bad, stats = judge(p, work, trace)
        elif r.returncode != 0:
            sys.stderr.write(r.stdout[-2000:] + r.stderr[-6000:])
            sys.exit(2)
        else:
            lines, bad, stats = judge(p, work, trace)
        t_judge = time.time()
        info = {}
        info_f = os.path.join(work, "driver.json")
        if os.path.exists(info_f):
            info = json.load(open(info_f))
        kn = known(prop)
        hit = set()
        for i in sorted(bad):
            hist = json.loads(lines[i])
            for (l, cls) in bad[i]:
                for c in cls:
                    m = [k for k in kn if k[0] == hist["id"] and k[1] in ("*", str(l)) and k[2] == c]
                    if m:
                        hit.add(m[0])
                    else:
                        viol.append((hist["id"], f"event {l}: {c}", {"history": hist, "event": l, "clause": c}))
        for k in kn:
            if k in hit:
                print(f"KNOWN-FINDING: property={prop} history={k[0]} {k[2]}: {k[3]}")
        nviol = len(viol)
        if nviol:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, f"{prop}.json")
            json.dump([{"id": a, "what": b, "replay": c} for a, b, c in viol[:20]], open(path, "w"), indent=1)
            for e in stats.get("errors", [])[:3]:
                print("  TLC:", e[:600].replace("\n", " "))
            shown = {}
            for a, b, c in viol:          # one line per clause, with the first history that breaks it
                cl = b.split(": ", 1)[-1]
                shown.setdefault(cl, [a, b, 0])[2] += 1
            for a, b, k in list(shown.values())[:20]:
                print(f"  {a}: {b}  (x{k})")
            print(f"VIOLATION property={prop} replay={path}")
        samples = []
        for i in list(range(0, len(lines), max(1, len(lines) // 3)))[:3]:
            s = lines[i]
            samples.append(json.loads(s) if len(s) < 1500 else {"id": json.loads(s)["id"], "ops": [e["op"] for e in json.loads(s)["ev"]][:30], "text_head": s[:600]})
        evs = sum(ln.count('"exc":') for ln in lines)
        ev = {"property": prop, "tier": TIER, "seed": SEED, "level": "model_checking",
              "coverage": {"states": stats["distinct"] + sum(m["distinct"] for m in mres),
                           "transitions": stats["generated"] + sum(m["generated"] for m in mres),
                           "traces_validated_against_impl": len(lines), "events_judged": evs, "calls_into_code": info.get("calls", 0),
                           "design_models": mres, "histories_by_kind": info.get("kinds", {}),
                           "spec": p["trace"] + ".tla", "samples": samples or ["package import failed"]},
              "assumptions": p.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": nviol}
        json.dump(ev, open(ev_file, "w"), indent=1)
        print(f"{prop} {TIER}: {len(lines)} histories, {evs} events, {ev['coverage']['states']} states, {nviol} violations, {ev['wall_s']} s")
        sys.exit(1 if nviol else 0)
    except TlcError as e:
        sys.stderr.write(str(e) + "\n")
        sys.exit(2)
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    main()
