#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only verus|harness]

Decides one property on /repo's current working tree:
  1. vx extracts the functions under contract from /repo and lays the contracts over them,
  2. Verus must discharge every obligation (plus a canary run that must fail everywhere),
  3. the replay harness runs the same contracts, executed, against the real crates.
Outcome rules: see DESIGN.md ("How a check decides").
"""
import json, os, re, resource, subprocess, sys, time, hashlib, fcntl
from pathlib import Path
V = Path(__file__).resolve().parent
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, str(V))
from registry import PROPS  # noqa

def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = e["RUST_LIB_BACKTRACE"] = "0"
    for k in ("CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTFLAGS", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    return e

def run(cmd, timeout, cwd=None, extra_env=None, mem_gb=None):
    t = time.time()
    e = env()
    if extra_env:
        e.update(extra_env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=e,
                           preexec_fn=(lambda: resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))) if mem_gb else None)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace"), time.time() - t
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b"").decode("utf-8", "replace"), (x.stderr or b"").decode("utf-8", "replace"), time.time() - t

class Lock:
    def __init__(self, name):
        (V / "build").mkdir(exist_ok=True)
        self.f = open(V / "build" / (name + ".lock"), "w")
    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)

def build_vx():
    with Lock("vx"):
        rc, o, e, t = run(["cargo", "build", "--offline", "--quiet"], 600, cwd=V / "tools/vx")
    if rc != 0:
        return None, o + e
    return V / "tools/vx/target/debug/vx", ""

TRUST = re.compile(r"external_body|assume_specification|external_type_specification|\bassume\s*\(|\badmit\s*\(|external_fn_specification|\buninterp\b|\baxiom\b|verifier::external\b|exec_allows_no_decreases_clause|assume_termination")

def scan_trust(text):
    """names of everything in a generated file that is assumed, not proved"""
    out = []
    lines = text.split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("//"):
            continue
        mm = TRUST.search(s)
        if mm:
            sig = ""
            for k in range(i, min(i + 6, len(lines))):
                x = re.search(r"(?:fn|struct|assume_specification\S*)\s*(\S[^({;]*)", lines[k])
                if x:
                    sig = x.group(0).strip()
                    break
            out.append(f"{mm.group(0)}: {sig}")
    return sorted(set(out))

def fn_of_line(text, n):
    """the extracted function or the lemma around line n of a generated file"""
    lines = text.split("\n")
    for i in range(min(n, len(lines)) - 1, -1, -1):
        x = re.match(r"// >>> extracted: (.*)", lines[i])
        if x:
            return x.group(1)
        if lines[i].startswith("// <<<"):
            break
    for i in range(min(n, len(lines)) - 1, -1, -1):
        x = re.search(r"\bfn\s+(\w+)", lines[i])
        if x:
            return x.group(1)
    return "?"

def verus_unit(vx, unit, tier, log):
    """-> dict(status= ok|failed|undecided, ...)"""
    res = dict(unit=unit, status="undecided", reason="", verified=0, errors=0, fns=[], trust=[], failed=[], time=0.0, cmd="")
    tmpl = V / "contracts" / (unit + ".rs")
    d = V / "build"
    d.mkdir(exist_ok=True)
    out = d / (unit + ".rs")
    rc, o, e, t = run([str(vx), REPO, str(tmpl), str(out)], 120)
    if rc == 3:
        res["reason"] = "lost anchor: " + o.strip()
        return res
    if rc != 0:
        res["reason"] = "extraction failed: " + (o + e)[-600:]
        return res
    res["fns"] = [l[3:] for l in o.splitlines() if l.startswith("FN ")]
    text = out.read_text()
    res["trust"] = scan_trust(text)
    rl = "30" if tier == "quick" else "120"
    cmd = ["verus", "--edition", "2024", "--rlimit", rl, "--output-json", "--time", "--multiple-errors", "3", str(out)]
    res["cmd"] = " ".join(cmd)
    rc, o, e, t = run(cmd, 400 if tier == "quick" else 1200, cwd=d)
    res["time"] = t
    res["output"] = e[-6000:]
    if rc is None:
        res["reason"] = "verifier timeout"
        return res
    try:
        j = json.loads(o[o.index("{"):])
        vr = j["verification-results"]
    except Exception:
        res["reason"] = "no verifier result (does not compile in the verifier's dialect): " + e[-1500:]
        return res
    try:
        res["smt_ms"] = j["times-ms"]["smt"]["total"]
    except Exception:
        pass
    res["verified"], res["errors"] = vr.get("verified", 0), vr.get("errors", 0)
    if vr.get("encountered-vir-error") or ("verified" not in vr):
        res["reason"] = "not in the verifier's dialect: " + e[-1500:]
        return res
    if re.search(r"[Rr]esource limit|rlimit", e):
        res["reason"] = "resource limit: " + e[-800:]
        return res
    if vr.get("success") and res["errors"] == 0:
        if res["verified"] == 0:
            res["reason"] = "no obligations generated"
            return res
        res["status"] = "ok"
    elif res["errors"] > 0:
        for x in re.finditer(r"^error(?:\[\w+\])?: (.*)\n\s*--> \S+?:(\d+):\d+", e, re.M):
            res["failed"].append(dict(obligation=x.group(1), where=fn_of_line(text, int(x.group(2)))))
        res["status"] = "failed"
    else:
        res["reason"] = "verifier error: " + e[-1500:]
        return res
    # vacuity canary: with assert(false) first in every extracted function, each one must fail
    if res["status"] == "ok":
        cout = d / (unit + "_canary.rs")
        run([str(vx), REPO, str(tmpl), str(cout), "--canary"], 120)
        rc, o, e, t2 = run(["verus", "--edition", "2024", "--rlimit", rl, "--output-json", "--multiple-errors", "0", str(cout)], 400, cwd=d)
        res["time"] += t2
        ctext = cout.read_text()
        hit = set()
        for x in re.finditer(r"^error(?:\[\w+\])?: .*\n\s*--> \S+?:(\d+):\d+", e, re.M):
            hit.add(fn_of_line(ctext, int(x.group(1))))
        res["canary_failed_as_expected"] = len(hit & set(res["fns"]))
        vac = [f for f in res["fns"] if f not in hit]
        res["vacuous"] = vac
        if vac:
            res["status"] = "undecided"
            res["reason"] = "vacuous contract (canary not refuted): " + ", ".join(vac)
    return res

def build_harness(pkg):
    with Lock("harness"):
        rc, o, e, t = run(["cargo", "build", "--offline", "--quiet", "-p", pkg], 850, cwd=V / "harness", extra_env=dict(RUSTFLAGS="--cfg zuban_verif -Awarnings"))
    if rc != 0:
        return None, (o + e)[-3000:], t
    return V / "harness/target/debug" / pkg, "", t

def run_harness(binary, pid, seed, tier, budget, shards):
    """Runs the harness in `shards` processes (an enumeration is split over them) and merges."""
    from concurrent.futures import ThreadPoolExecutor
    def one(i):
        sc = V / "build" / f"scratch_{pid}_{i}"
        sc.mkdir(exist_ok=True, parents=True)
        ee = dict(VERIF_SCRATCH=str(sc), RUST_MIN_STACK="67108864", VERIF_SHARD=f"{i}/{shards}")
        for attempt in (0, 1):
            rc, o, e, t = run([str(binary), pid, str(seed), tier, str(budget)], budget * 3 + 120, cwd=sc, extra_env=ee, mem_gb=4)
            bad = False
            for l in o.split("\n"):
                if l.startswith("RESULT "):
                    try:
                        return json.loads(l[7:])
                    except ValueError:
                        bad = True
            if not bad:
                break
        # it died: run again, recording each input before it is tried
        tr = sc / "trace.txt"
        tr.unlink(missing_ok=True)
        if rc is not None:
            run([str(binary), pid, str(seed), tier, str(budget * 2), str(tr)], budget * 3 + 120, cwd=sc, extra_env=ee, mem_gb=4)
        inp = tr.read_text(errors="replace") if tr.exists() else "?"
        what = "the process died (rc %s): %s" % (rc, e[-400:])
        return dict(evaluations=0, distinct_nontrivial=0, rule="", samples=[], violations=[dict(input=inp, what=what)], violation_count=1, notes=[], enumerated=[])
    with ThreadPoolExecutor(shards) as ex:
        rs = list(ex.map(one, range(shards)))
    m = rs[0]
    for r in rs[1:]:
        for k in ("evaluations", "distinct_nontrivial", "violation_count"):
            m[k] += r[k]
        m["violations"] += r["violations"]
        m["samples"] = m["samples"][:6] + r["samples"][:2]
        m["notes"] += [n for n in r["notes"] if n not in m["notes"]]
        m["enumerated"] = [x for x in m["enumerated"] if x in r["enumerated"]]
        m["rule"] = m["rule"] or r["rule"]
    m["violations"].sort(key=lambda v: len(v["input"]))
    return m

def known_findings(pid):
    out = []
    f = V / "known_findings.txt"
    if f.exists():
        for l in f.read_text().splitlines():
            x = re.match(r"known: property=(\S+) match=(/.*/) (.*)", l)
            if x and x.group(1) == pid:
                out.append((re.compile(x.group(2)[1:-1], re.S), x.group(3)))
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[pid]
    t0 = time.time()
    log = []
    units, undecided, failed = [], [], []
    if only != "harness" and P["units"]:
        vx, err = build_vx()
        if vx is None:
            print("extractor does not build:", err)
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex:
            fut = [ex.submit(verus_unit, vx, u, tier, log) for u in P["units"]] if vx else []
            hb = ex.submit(build_harness, P["harness"]) if P.get("harness") and only != "verus" else None
            units = [f.result() for f in fut]
            hres = hb.result() if hb else None
    else:
        hres = build_harness(P["harness"]) if P.get("harness") and only != "verus" else None
    for u in units:
        print(f"unit {u['unit']}: {u['status']} verified={u['verified']} errors={u['errors']} {u['time']:.1f}s {u['reason'][:3000]}")
        for f in u["failed"]:
            print(f"   failed obligation in {f['where']}: {f['obligation']}")
        if u["status"] == "undecided":
            undecided.append(u)
        elif u["status"] == "failed":
            failed.append(u)
    H, herr = None, ""
    if hres is not None:
        binary, herr, tb = hres
        if binary is None:
            print("harness does not build against the current tree:\n" + herr)
        else:
            budget = P.get("budget", 40) if tier == "quick" else P.get("thorough_budget", 400)
            if failed or undecided:
                budget *= 2
            H = run_harness(binary, pid, seed, tier, budget, P.get("shards", 6))
    known = known_findings(pid)
    viol, seen_known = [], {}
    if H:
        for v in H["violations"]:
            s = "input=" + v["input"] + " what=" + v["what"]
            k = next((d for r, d in known if r.search(s)), None)
            if k is None:
                viol.append(v)
            else:
                seen_known[k] = seen_known.get(k, 0) + 1
    for r, d in known:
        print(f"KNOWN-FINDING: property={pid} {d}")
    rc = 0
    msg = ""
    (V / "out").mkdir(exist_ok=True)
    replay = V / "out" / f"{pid}.replay.json"
    if viol or failed:
        rep = dict(property=pid, seed=seed, tier=tier, failing_inputs=viol,
                   failed_obligations=[dict(unit=u["unit"], obligations=u["failed"], verifier_output=u["output"], command=u["cmd"]) for u in failed],
                   rerun=f"VERIF_SEED={seed} python3 {V}/check.py {pid} --tier {tier}")
        replay.write_text(json.dumps(rep, indent=1, ensure_ascii=False))
        rc = 1
        if viol:
            v = viol[0]
            print("failing input:", json.dumps(v["input"], ensure_ascii=False)[:2000])
            print("what:", v["what"][:2000])
            msg = f"VIOLATION property={pid} replay={replay}"
        else:
            msg = f"VIOLATION property={pid} replay={replay} no-failing-input-found"
    if rc == 0 and H is None and P.get("harness") and only is None and undecided:
        print("neither the verifier nor the harness could be built against this tree: no answer")
        rc = 2
    if rc == 0 and H is None and only is None and not P["units"]:
        rc = 2
    # evidence
    obl = sum(u["verified"] + u["errors"] for u in units)
    dis = sum(u["verified"] for u in units if u["status"] != "undecided")
    ev = dict(property=pid, tier=tier, seed=seed, level=P["level"], wall_s=round(time.time() - t0, 2), violations=len(viol) + len(failed),
        assumptions=P.get("assumptions", []),
        coverage=dict(
            obligations=obl, discharged=dis,
            checker_cmd="; ".join(u["cmd"] for u in units) or "none",
            trusted_base=["verus 0.2026.09.13 and its bundled z3 4.x", "rustc/rustfmt", "the extractor /verif/tools/vx"] + sorted({x for u in units for x in u["trust"]}),
            functions_under_contract=sorted({f for u in units for f in u["fns"]}),
            backend="Verus/Z3 (unbounded)",
            units=[dict(unit=u["unit"], status=u["status"], verified=u["verified"], errors=u["errors"], reason=u["reason"][:400], wall_s=round(u["time"], 2), smt_ms=u.get("smt_ms"), canary=u.get("canary_failed_as_expected")) for u in units],
            not_under_contract=P.get("outside", []),
            bounded_standin=dict(label="bounded, not counted as proved", **{k: H[k] for k in ("evaluations", "distinct_nontrivial", "rule", "samples", "enumerated", "notes")}) if H else dict(label="not run", reason=herr[-400:]),
            evaluations=H["evaluations"] if H else 0,
            distinct_nontrivial=H["distinct_nontrivial"] if H else 0,
            rule=(H or {}).get("rule", ""), samples=(H or {}).get("samples", []),
            known_findings_hit=seen_known,
            **(dict(explanation=P["note"]) if P["level"] == "other" else {}),
        ))
    (V / "evidence").mkdir(exist_ok=True)
    (V / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1, ensure_ascii=False))
    if H:
        print(f"harness: {H['evaluations']} evaluations, {H['distinct_nontrivial']} distinct non-trivial, {H['violation_count']} violations")
    print(f"{pid}: {'held' if rc == 0 else 'NOT held' if rc == 1 else 'no answer'}; {obl} obligations, {dis} discharged, {time.time()-t0:.1f}s")
    if msg:
        print(msg)
    sys.exit(rc)

main()
