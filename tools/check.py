#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property of /repo.

Exit 0: every obligation that was decided holds and no failing input is known.
Exit 1: a VIOLATION line names the property and a replay file.
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import overlay, prove, registry

REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))
EVID = os.environ.get("VERIF_EVID", os.path.join(VERIF, "evidence"))
T0 = time.time()
LIMIT = 780  # seconds, for everything


def left(reserve=20):
    return max(5, LIMIT - (time.time() - T0) - reserve)


def say(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


# ---------------------------------------------------------------- native
def native_build(dst, simd=False):
    """The differential engine linked against REPO's current source."""
    src = os.path.join(dst, "native")
    if not os.path.isdir(src):
        shutil.copytree(os.path.join(VERIF, "native"), src, ignore=shutil.ignore_patterns("target"))
        os.makedirs(os.path.join(dst, "harness"), exist_ok=True)
        shutil.copy(os.path.join(VERIF, "harness", "spec.rs"), os.path.join(dst, "harness", "spec.rs"))
        p = os.path.join(src, "Cargo.toml")
        s = open(p).read().replace('path = "/repo"', "path = " + json.dumps(REPO))
        open(p, "w").write(s)
        lock = os.path.join(REPO, "Cargo.lock")
        if not os.path.exists(os.path.join(src, "Cargo.lock")):
            shutil.copy(os.path.join(HERE, "Cargo.lock.repo") if not os.path.exists(lock) else lock, os.path.join(src, "Cargo.lock"))
    env = dict(os.environ)
    env["CARGO_NET_OFFLINE"] = "true"
    env["RUSTFLAGS"] = "-Awarnings" + (" -C target-feature=+avx2" if simd else "")
    env["CARGO_TARGET_DIR"] = os.path.join(dst, "nt_simd" if simd else "nt")
    cmd = ["cargo", "build", "--release", "--offline", "-q"] + (["--features", "simd"] if simd else [])
    r = subprocess.run(cmd, cwd=src, env=env, capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr[-3000:]
    return os.path.join(env["CARGO_TARGET_DIR"], "release", "ydiff"), ""


class Native:
    """Searches for a failing input; results of several searches add up."""

    def __init__(self, prop, work, seed):
        self.prop, self.work, self.seed = prop, work, seed
        self.bin = {}
        self.case = self.why = None
        self.evaluations = self.nontrivial = 0
        self.samples, self.notes = [], []
        self.secs = 0.0
        self.simd_case = False

    def build(self, simd=False):
        b, e = native_build(self.work, simd)
        if b is None:
            self.notes.append(("simd " if simd else "") + "native build failed: " + e)
        self.bin[simd] = b
        return b

    def replay(self, case, simd=False, timeout=30):
        """'holds' | 'fails: why' | 'invalid' | 'crash' """
        if not self.bin.get(simd):
            return "invalid", ""
        try:
            r = subprocess.run([self.bin[simd], "replay", self.prop, case], capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return "fails", "does not terminate within %d s" % timeout
        if r.returncode == 1:
            return "fails", r.stdout.strip()[:2000]
        if r.returncode == 0:
            return "holds", ""
        if r.returncode == 2:
            return "invalid", r.stdout.strip()[:300]
        return "fails", "the process is ended by status %d" % r.returncode

    def search(self, secs, threads, seed, simd=False, near=None):
        if not self.bin.get(simd) or self.case:
            return
        tr = os.path.join(self.work, "trace")
        shutil.rmtree(tr, ignore_errors=True)
        os.makedirs(tr)
        t = time.time()
        cmd = [self.bin[simd], "search", self.prop, "--seed", str(seed), "--secs", str(secs), "--threads", str(threads), "--trace", tr] + (["--near", near] if near else [])
        out, rc = "", None
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        try:
            out, _ = p.communicate(timeout=secs + 45)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
        self.secs += time.time() - t
        case = why = None
        for line in out.splitlines():
            k, _, v = line.partition(" ")
            if k == "evaluations":
                self.evaluations += int(v)
            elif k == "nontrivial":
                self.nontrivial += int(v)
            elif k == "sample":
                self.samples.append(v)
            elif k == "case":
                case = v
            elif k == "why":
                why = v
        if rc == 1 and case:
            self.case, self.why, self.simd_case = case, why, simd
        elif rc != 0:
            # crashed or hung: the case being evaluated by some thread
            for f in sorted(os.listdir(tr)):
                c = open(os.path.join(tr, f)).readline().strip()
                if not c:
                    continue
                st, why = self.replay(c, simd)
                if st == "fails":
                    self.case, self.why, self.simd_case = c, why, simd
                    return
            self.notes.append("search ended abnormally (status %s) without a reproducible case" % rc)

    def digest(self, n, seed):
        """portable against SIMD, case by case"""
        outs = []
        for simd in (False, True):
            if not self.bin.get(simd):
                return
            r = subprocess.run([self.bin[simd], "digest", "--n", str(n), "--seed", str(seed)], capture_output=True, text=True, timeout=240)
            outs.append(r.stdout.splitlines())
            if r.returncode:
                self.notes.append("digest ended with %d (simd=%s)" % (r.returncode, simd))
        for a, b in zip(*outs):
            self.evaluations += 1
            if a != b:
                self.case = a.split(" ", 2)[2]
                self.why = "the portable and the SIMD build observe different things: " + a.split(" ", 2)[1] + " / " + b.split(" ", 2)[1]
                return


# ---------------------------------------------------------------- proofs
def overlay_files(files):
    """harness files and what they need -> {src rel: appended text}"""
    need, todo = [], list(files)
    while todo:
        f = todo.pop()
        if f not in need:
            need.append(f)
            todo += registry.FILES[f][1]
    app = {"lib.rs": '\n#[path="../harness/kharness.rs"] #[macro_use] mod kharness;\n'}
    for f in need:
        rel = registry.FILES[f][0]
        # a file under src/a/b.rs sees ../harness relative to the module directory
        up = "../" * (rel.count("/") + 1)
        app[rel] = app.get(rel, "") + f'\n#[cfg(kani)] #[path="{up}harness/{f}.rs"] pub(crate) mod {registry.FILES[f][2] if len(registry.FILES[f]) > 2 else "kproofs"};\n'
    return need, app


class Proofs:
    def __init__(self, prop, work, tier):
        self.prop, self.work, self.tier = prop, work, tier
        self.res = {}  # (harness, variant) -> result
        self.notes = []
        self.info = {}
        self.codegen_s = 0.0
        self.finished = False

    def run(self, names, variant, workers, cancel):
        sel = [n for n in names if variant in registry.H[n]["variants"]]
        if not sel:
            return
        simd = variant == "simd"
        wk = os.path.join(self.work, variant)
        os.makedirs(wk, exist_ok=True)
        files = sorted({registry.H[n]["file"] for n in sel})
        hs, dropped = None, []
        cut, hist, norm = registry.CUT, registry.HIST, True
        for attempt in range(7):
            need, app = overlay_files(files)
            try:
                ov, info = overlay.build(REPO, wk, simd, app, pick=registry.PICK, cut=cut if "kp_movegen" in need else (), hist=hist if "kp_position" in need else (), norm=norm)
            except Exception as e:
                self.notes.append("extraction failed: " + str(e)[-1500:])
                break
            self.info[variant] = info
            hs, log, dt = prove.codegen(ov, os.path.join(wk, "kt"), [n for n in sel if registry.H[n]["file"] in files], simd, timeout=left())
            self.codegen_s += dt
            open(os.path.join(wk, "codegen.log"), "w").write(log)
            if hs is not None:
                break
            bad = {f for f in need if re.search(r"-->\s*\S*harness/" + f + r"\.rs", log)}
            drop = [f for f in files if f in bad or set(overlay_files([f])[0]) & bad]
            err = re.findall(r"^error(?:\[\w+\])?: .*", log, re.M)
            self.notes.append("compile failure (%s): %s" % (", ".join(drop) or "source", " | ".join(err[:4])))
            say(self.notes[-1])
            # what the extraction replaced may not fit the code: go without it
            where = set(re.findall(r"-->\s*(\S*src/\w+\.rs)", log))
            if not drop and norm and info.get("chains_as_loops"):
                norm = False
                continue
            if not drop and cut and info.get("loops_cut") and not (hist and any(w.endswith("position.rs") for w in where)):
                cut = ()
                continue
            if not drop and hist and info.get("history"):
                hist = ()
                continue
            if not drop and cut:
                cut = ()
                continue
            if not drop:
                break
            dropped += drop
            files = [f for f in files if f not in drop]
            if not files:
                break
        if hs is None:
            hs = {}
        by = {k.split("::")[-1]: v for k, v in hs.items()}
        say("codegen", variant, len(by), "of", len(sel), "harnesses in %.1fs" % self.codegen_s)

        def one(n):
            H = registry.H[n]
            if n not in by:
                return n, dict(status="undecided", detail="not compiled against the current source", obligations=0, discharged=0)
            if cancel.is_set():
                return n, dict(status="skipped", obligations=0, discharged=0)
            to = min(H["timeout"] * (3 if self.tier == "thorough" else 1), left())
            r = prove.discharge(by[n], H["bounds"], timeout=to, solver=H["solver"], keep_log=os.path.join(wk, n + ".log"), cancel=cancel)
            return n, r

        order = sorted(sel, key=lambda n: -registry.H[n]["weight"])
        with cf.ThreadPoolExecutor(workers) as ex:
            for fu in cf.as_completed([ex.submit(one, n) for n in order]):
                n, r = fu.result()
                self.classify(n, r, info if hs else {})
                self.res[(n, variant)] = r
                say(n, variant, r["status"], "%s/%s" % (r.get("discharged"), r.get("obligations")), "%ss" % r.get("wall_s"), (r.get("detail") or "")[:200])
                for x in (r.get("failed") or [])[:3]:
                    say("    open:", x["description"][:160], x["file"], x["line"])

    def classify(self, n, r, info):
        """A failed obligation decides only if the anchors of the harness hold."""
        if r["status"] == "proved":
            dead = [k for k, v in (r.get("covers") or {}).items() if not v]
            if dead:
                r["status"] = "undecided"
                r["detail"] = "vacuous: " + "; ".join(dead)[:300]
        if r["status"] == "failed":
            anch = [f for f in r["failed"] if "ANCHOR" in f["description"]]
            if anch:
                r["status"] = "undecided"
                r["detail"] = "shape of the code not recognised: " + anch[0]["description"][:200]
            elif registry.H[n]["uses_lists"] and info.get("list_use"):
                r["status"] = "undecided"
                r["detail"] = "the move list is filled in a way the loop rule does not cover: " + info["list_use"]

    def by_status(self, st):
        return [k for k, r in self.res.items() if r["status"] == st]


def main():
    prop = sys.argv[1]
    tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(WORK, exist_ok=True)
    work = os.path.join(WORK, "%s.%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        rc = decide(prop, tier, seed, work)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append(m.group(2).strip())
    return out


def decide(prop, tier, seed, work):
    conf = registry.PROPS[prop]
    nat = Native(prop, work, seed)
    pr = Proofs(prop, work, tier)
    cancel = threading.Event()
    thorough = tier == "thorough"
    secs = (120 if thorough else 15)
    need_simd = conf.get("simd_native", False)

    def native_thread():
        nat.build()
        if need_simd:
            nat.build(True)
        say("native engine built")
        nat.search(secs, 7, seed)
        if need_simd:
            nat.digest(60000 if thorough else 6000, seed)
            nat.search(secs, 7, seed + 1, simd=True)
        say("native search: %d evaluations" % nat.evaluations, nat.case or "")
        # with a failing input in hand the proofs go on for a while, to name the
        # obligation that fails
        while nat.case and not cancel.is_set():
            if pr.by_status("failed") or time.time() - T0 > (600 if thorough else 110) or pr.finished:
                cancel.set()
            time.sleep(0.3)

    th = threading.Thread(target=native_thread)
    th.start()
    names = conf["harnesses" if thorough else "quick"]
    vs = [v for v in ("portable", "simd") if any(v in registry.H[n]["variants"] for n in names)]
    vt = [threading.Thread(target=pr.run, args=(names, v, 7 if len(vs) == 1 else 4, cancel)) for v in vs]
    for t in vt:
        t.start()
    for t in vt:
        t.join()
    pr.finished = True
    th.join()
    failed = pr.by_status("failed")
    und = pr.by_status("undecided") + pr.by_status("timeout") + pr.by_status("error")
    cexs = []
    if failed and not nat.case:
        # replay of the verifier's counterexample, then a longer search
        for (n, v) in failed:
            if left() < 60:
                break
            c = prove.counterexample(pr.res[(n, v)], timeout=min(150, left(60)))
            if c:
                cexs.append((n, c))
                nat.search(20, 8, seed + 31, simd=v == "simd" and need_simd, near=",".join(str(x) for x in c["board"] + c["hands"][0] + c["hands"][1] + [c["side"]] + c["move"]))
                say("search around the counterexample of", n, ":", nat.case or "no failing input")
            if nat.case:
                break
    if (failed or und) and not nat.case:
        extra = min(left(30), 300 if thorough else (90 if failed else 30))
        if need_simd:
            nat.search(extra / 2, 8, seed + 7919, simd=True)
            extra /= 2
        nat.search(extra, 8, seed + 104729)
        say("extended native search: %d evaluations" % nat.evaluations, nat.case or "")
    kn = known(prop)
    rc = 0
    replay = os.path.join(EVID, prop + ".replay.json")
    if os.path.exists(replay):
        os.unlink(replay)
    violations = 0
    listed = nat.case is not None and any(k.split(" :: ")[0] == nat.case for k in kn)
    for k in kn:
        print(f"KNOWN-FINDING: property={prop} {k}")
    obl = [dict(harness=n, variant=v, contract=registry.H[n]["states"], failed=pr.res[(n, v)].get("failed", [])[:20], verifier_cmd=pr.res[(n, v)].get("cmd")) for n, v in failed]
    if nat.case and not listed:
        rc, violations = 1, 1
        json.dump(dict(property=prop, kind="failing input", case=nat.case, why=nat.why, simd=nat.simd_case,
                       replay_cmd=f"python3 {HERE}/replay.py {replay}", failed_obligations=obl, counterexamples=cexs), open(replay, "w"), indent=1)
        print("failing input:", nat.case)
        print("because:", nat.why)
        for o in obl:
            print("failed obligation:", o["harness"], "-", "; ".join(f["description"] for f in o["failed"][:3]))
        print(f"VIOLATION property={prop} replay={replay}")
    elif failed:
        rc, violations = 1, 1
        logs = {}
        for n, v in failed:
            p = os.path.join(work, v, n + ".log")
            if os.path.exists(p):
                logs[n] = open(p, errors="replace").read()[-6000:]
        json.dump(dict(property=prop, kind="failed obligation, no failing input found", failed_obligations=obl, counterexamples=cexs, verifier_output=logs,
                       searched=nat.evaluations), open(replay, "w"), indent=1)
        for o in obl:
            print("failed obligation:", o["harness"], "-", "; ".join(f["description"] for f in o["failed"][:3]))
        print(f"VIOLATION property={prop} replay={replay} no-failing-input-found")
    write_evidence(prop, tier, seed, conf, nat, pr, violations)
    say("exit", rc)
    return rc


def write_evidence(prop, tier, seed, conf, nat, pr, violations):
    per, fns, trusted = [], [], list(registry.TRUSTED)
    ob = di = 0
    solver = 0.0
    cmd = ""
    for (n, v), r in sorted(pr.res.items()):
        H = registry.H[n]
        if H["bounded"] is None:
            ob += r.get("obligations", 0) or 0
            di += r.get("discharged", 0) or 0
        solver += r.get("solver_s", 0) or 0
        cmd = r.get("cmd") or cmd
        per.append(dict(harness=n, variant=v, status=r["status"], contract=H["states"], functions=H["fns"], obligations=r.get("obligations", 0), discharged=r.get("discharged", 0),
                        bounded=H["bounded"], solver=H["solver"], wall_s=r.get("wall_s"), solver_s=r.get("solver_s"), symex_s=r.get("symex_s"), clauses=r.get("clauses"),
                        reachable=r.get("covers"), detail=(r.get("detail") or "")[:500]))
        fns += H["fns"]
        for a in H["anchors"]:
            if a not in trusted:
                trusted.append(a)
    info = pr.info.get("portable") or pr.info.get("simd") or {}
    ev = dict(
        property=prop, tier=tier, seed=seed, level=conf["level"],
        coverage=dict(
            obligations=ob, discharged=di, checker_cmd="cargo kani --only-codegen (kani 0.68.0), then: " + cmd, trusted_base=trusted,
            back_end="CBMC 6.11 with Kissat or CaDiCaL; one run per harness", solver_time_s=round(solver, 2), codegen_s=round(pr.codegen_s, 1),
            harnesses=per, functions_under_contract=sorted(set(fns)),
            loop_rule=info.get("loop_rule", []), iterator_chains_written_as_loops=info.get("chains_as_loops", 0), loops_by_invariant=info.get("loops_cut", []), history=info.get("history", "Vec<State> as it is: one earlier state"), loops_not_under_the_rule=info.get("loops_left", []), extraction=info.get("rewritten_statics", []),
            undecided=["%s (%s): %s" % (n, v, pr.res[(n, v)].get("detail") or pr.res[(n, v)]["status"]) for (n, v) in pr.res if pr.res[(n, v)]["status"] not in ("proved", "failed")],
            bounded_stand_in=conf.get("stand_in", ""),
            left_to_other_runs=[] if tier == "thorough" else ["%s: discharged by %s" % (n, ", ".join(p + " quick" for p, q in registry.PROPS.items() if n in q["quick"]) or prop + " thorough") for n in conf["harnesses"] if n not in conf["quick"]],
            evaluations=nat.evaluations, distinct_nontrivial=nat.nontrivial,
            rule="native differential search beside the proofs: random valid positions and legal histories with undo, executable specification against the crate; an evaluation is one node of a history, non-trivial as counted by native/src/props.rs for this property",
            samples=nat.samples[:3] or ["none"], search_s=round(nat.secs, 1), notes=pr.notes + nat.notes,
        ),
        assumptions=registry.ASSUMPTIONS + conf.get("assumptions", []),
        wall_s=round(time.time() - T0, 1), violations=violations,
    )
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)


if __name__ == "__main__":
    main()
