#!/usr/bin/env python3
"""Kani code generation + CBMC discharge of one harness at a time."""
import glob, json, os, re, shutil, subprocess, sys, time

KB = None


HERE = os.path.dirname(os.path.abspath(__file__))


def kani_bin():
    global KB
    if KB is None:
        base = os.path.expanduser("~/.kani")
        KB = sorted(glob.glob(os.path.join(base, "kani-*")))[-1]
    return KB


SIMD_FLAGS = '-C target-feature=+avx2 --cfg target_feature="avx2" -Aexplicit_builtin_cfgs_in_flags'


def codegen(ov, tgt, harnesses=None, simd=False, timeout=600):
    """Compile the overlay with Kani; returns {pretty harness name: info}."""
    tgt = os.path.abspath(tgt)
    for d in glob.glob(os.path.join(tgt, "kani", "*", "debug", "build", "yasai")):
        shutil.rmtree(d)
    env = dict(os.environ)
    env["CARGO_NET_OFFLINE"] = "true"
    env["RUSTFLAGS"] = "-Awarnings" + (" " + SIMD_FLAGS if simd else "")
    cmd = ["cargo", "kani", "-Z", "stubbing", "--no-assertion-reach-checks", "--target-dir", tgt, "--only-codegen"]
    if simd:
        cmd += ["--features", "simd"]
    for h in harnesses or []:
        cmd += ["--harness", h]
    t0 = time.time()
    r = subprocess.run(cmd, cwd=ov, env=env, capture_output=True, text=True, timeout=timeout)
    log = r.stdout + r.stderr
    if r.returncode:
        return None, log, time.time() - t0
    res = {}
    metas = glob.glob(os.path.join(tgt, "kani", "**", "*.kani-metadata.json"), recursive=True)
    for m in metas:
        d = json.load(open(m))
        for h in d["proof_harnesses"]:
            res[h["pretty_name"]] = h
    return res, log, time.time() - t0


def sh(cmd, timeout, cancel=None, tmp=None):
    """Run in its own process group; (None, "") when out of time or cancelled."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True,
                         env=dict(os.environ, TMPDIR=tmp, KANI_BIN=os.path.join(kani_bin(), "bin")) if tmp else None)
    end = time.time() + timeout
    while True:
        try:
            o, _ = p.communicate(timeout=min(1.0, max(0.05, end - time.time())))
            return p.returncode, o
        except subprocess.TimeoutExpired:
            if time.time() >= end or (cancel is not None and cancel.is_set()):
                os.killpg(p.pid, 9)
                p.communicate()
                return None, ""


LOOP = re.compile(r"^Loop (\S+):\n  file (.+) line (\d+)", re.M)


def discharge(info, bounds=None, default=90, timeout=600, solver="kissat", extra=(), keep_log=None, cancel=None):
    """bounds: list of (regex on 'file function-loop-name', n); first match wins.
    Returns dict(status, obligations, failed, solver_s, wall_s, symex_s, vars, clauses)."""
    t0 = time.time()
    bins = os.path.join(kani_bin(), "bin")
    src = info["goto_file"]
    f = src.replace(".symtab.out", ".run.out")
    fn = info["mangled_name"]
    gi = os.path.join(bins, "goto-instrument")
    steps = [
        [os.path.join(bins, "goto-cc"), src, os.path.join(kani_bin(), "library/kani/kani_lib.c"), "-o", f],
        [os.path.join(bins, "goto-cc"), f, "--function", fn, "-o", f],
        [gi, "--add-library", "--no-malloc-may-fail", f, f],
        [gi, "--generate-function-body-options", "assert-false-assume-false", "--generate-function-body", ".*", "--drop-unused-functions", f, f],
        [gi, "--ensure-one-backedge-per-target", f, f],
    ]
    for s in steps:
        rc, o = sh(s, 120)
        if rc != 0:
            return dict(status="error", detail=f"{s[0]}: {o[-500:]}", wall_s=time.time() - t0)
    cbmc = os.path.join(bins, "cbmc")
    rc, o = sh([cbmc, "--show-loops", f], 120)
    us = []
    for m in LOOP.finditer(o or ""):
        name, file, line = m.groups()
        n = default
        for rx, b in bounds or []:
            if re.search(rx, file + " " + name):
                n = b
                break
        us.append(f"{name}:{n}")
    cmd = [cbmc, "--unwinding-assertions", "--no-malloc-may-fail", "--no-undefined-shift-check", "--no-signed-overflow-check", "--nan-check",
           "--no-self-loops-to-assumptions", "--no-pointer-primitive-check", "--object-bits", "16",
           *(["--external-sat-solver", os.path.join(HERE, "kissat.sh")] if solver == "kissat" else ["--sat-solver", solver]),
           "--slice-formula", "--unwind", str(default), *extra]
    if us:
        cmd += ["--unwindset", ",".join(us)]
    cmd += [f, "--verbosity", "8", "--json-ui"]
    rem = max(1, timeout - (time.time() - t0))
    rc, o = sh(cmd, rem, cancel, tmp=os.path.dirname(f))
    if keep_log:
        open(keep_log, "w").write(" ".join(cmd) + "\n" + o)
    res = dict(wall_s=round(time.time() - t0, 2), cmd=" ".join(os.path.basename(x) for x in cmd[:14]), full_cmd=cmd, goto=f)
    if rc is None:
        res.update(status="skipped" if cancel is not None and cancel.is_set() else "timeout", obligations=0, discharged=0)
        return res
    for k, rx in (("symex_s", r"Runtime Symex: ([\d.e-]+)s"), ("vars", r"(\d+) variables"), ("clauses", r"(\d+) clauses"), ("steps", r"size of program expression: (\d+)")):
        m = re.search(rx, o)
        res[k] = float(m.group(1)) if m else 0
    res["solver_s"] = round(sum(float(x) for x in re.findall(r"Runtime decision procedure: ([\d.e-]+)s", o)), 3)
    props = None
    try:
        for item in json.loads(o):
            if "result" in item:
                props = item["result"]
    except json.JSONDecodeError:
        pass
    if props is None:
        msg = re.findall(r'"messageText": "((?:[^"\\]|\\.)*)"', o)
        res.update(status="error", detail=(" | ".join(msg[-5:]) or o[-500:])[-800:])
        return res
    res["obligations"] = 0
    res["discharged"] = 0
    failed, covers, undecided = [], {}, []
    for p in props:
        name, desc, st = p["property"], p.get("description", ""), p["status"]
        loc = p.get("sourceLocation", {})
        cls = name.rsplit(".", 2)[-2] if name.count(".") >= 2 else name
        rec = dict(property=name, cls=cls, description=re.sub(r"^\[?KANI_CHECK_ID[^\]]*\]?\s*", "", desc), file=loc.get("file"), line=loc.get("line"), function=loc.get("function"))
        if cls == "cover":
            covers[desc] = st == "FAILURE"
            continue
        if "reachability_check" in cls:
            continue
        res["obligations"] += 1
        if st == "SUCCESS":
            res["discharged"] += 1
        elif cls in ("unwind", "recursion") or cls.startswith("unwind") or "unsupported" in cls or "unwinding assertion" in desc or "recursion unwinding" in desc:
            undecided.append(rec)
        elif st == "FAILURE":
            failed.append(rec)
        else:
            undecided.append(rec)
    res["covers"] = covers
    res["failed"] = failed
    res["undecided"] = undecided
    if failed and not [u for u in undecided if 1]:
        res["status"] = "failed"
    elif undecided:
        # with an unwinding/unsupported obligation open, other failures are not trustworthy
        res["status"] = "undecided"
    else:
        res["status"] = "proved" if res["obligations"] else "vacuous"
    return res


CEX = re.compile(r"cex::(CEX_\w+)((?:\[\d+l*\])*)$")


def counterexample(res, timeout=120):
    """Rerun for one failed obligation with a trace; the symbolic position and
    move of the harness, as noted in kharness::cex."""
    if not res.get("failed") or not res.get("full_cmd"):
        return None
    name = res["failed"][0]["property"]
    cmd = [c for c in res["full_cmd"] if c != "--slice-formula"]
    if "--external-sat-solver" in cmd:
        i = cmd.index("--external-sat-solver")
        cmd[i:i + 2] = ["--sat-solver", "cadical"]
    cmd += ["--trace", "--property", name]
    rc, o = sh(cmd, timeout, tmp=os.path.dirname(res["goto"]))
    if rc is None:
        return None
    vals = {}
    try:
        items = json.loads(o)
    except json.JSONDecodeError:
        return None
    for it in items:
        for pr in it.get("result", []) if isinstance(it, dict) else []:
            if pr.get("property") != name:
                continue
            for st in pr.get("trace", []):
                if st.get("stepType") != "assignment":
                    continue
                m = CEX.search(st.get("lhs", ""))
                if not m:
                    continue
                collect(vals, m.group(1), [int(x) for x in re.findall(r"\d+", m.group(2))], st.get("value", {}))
    if not vals:
        return None
    board = [vals.get(("CEX_BOARD", i), 0) for i in range(81)]
    hands = [[vals.get(("CEX_HANDS", c, k), 0) for k in range(7)] for c in range(2)]
    mv = [vals.get(("CEX_MOVE", i), 0) for i in range(4)]
    return dict(obligation=name, board=board, hands=hands, side=vals.get(("CEX_SIDE",), 0), move=mv)


def collect(vals, name, idx, v):
    if "data" in v and "binary" in v:
        vals[(name, *idx)] = int(v["binary"], 2)
    for e in v.get("elements", []):
        collect(vals, name, idx + [e["index"]], e["value"])


if __name__ == "__main__":
    ov, tgt = sys.argv[1], sys.argv[2]
    import concurrent.futures as cf
    pats = sys.argv[3].split(",")
    b = json.loads(sys.argv[4]) if len(sys.argv) > 4 else []
    hs, log, dt = codegen(ov, tgt, pats, simd="--simd" in sys.argv)
    if hs is None:
        print(log[-3000:])
        sys.exit(1)
    print("codegen %.1fs" % dt)
    sel = [h for h in hs if any(p in h for p in pats)]

    def one(h):
        r = discharge(hs[h], b, timeout=int(os.environ.get("T", "800")), keep_log="/tmp/w/%s.log" % h.split("::")[-1], extra=os.environ.get("X", "").split())
        return h, r

    with cf.ThreadPoolExecutor(8) as ex:
        for fu in cf.as_completed([ex.submit(one, h) for h in sel]):
            h, r = fu.result()
            print(h, r["status"], "obl", r.get("discharged"), "/", r.get("obligations"), "wall", r.get("wall_s"), "symex", r.get("symex_s"), "solve", r.get("solver_s"), "clauses", r.get("clauses"), r.get("detail", ""))
            for x in (r.get("failed") or [])[:6]:
                print("   FAIL", x["description"][:150], x["file"], x["line"])
            for x in (r.get("undecided") or [])[:6]:
                print("   UNDEC", x["property"][-80:], x["description"][:100], x["file"], x["line"])
            for k, v in (r.get("covers") or {}).items():
                print("   COVER", k, v)
