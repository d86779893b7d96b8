#!/usr/bin/env python3
"""check.py PROP: decide one property of /repo's current tree.

1. govc (the verifier in /verif/govc) loads /repo with the contracts of the property laid over it,
   generates the proof obligations of every contract and discharges them.
2. The same contracts are executed on generated inputs against the real code (bounded; it supplies
   failing inputs for failed obligations and guards against vacuous contracts).
"""
import json, os, re, subprocess, sys, time, tempfile, shutil, glob, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off", GOWORK="off")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
LIMIT = 780
OUT = os.environ.get("VERIF_SCRATCH_OUT", VERIF)  # where evidence and replays go
T0 = time.time()


def build_govc():
    b = os.path.join(VERIF, "bin", "govc")
    srcs = glob.glob(os.path.join(VERIF, "govc", "*.go"))
    h = hashlib.sha1()
    for f in sorted(srcs) + [os.path.join(VERIF, "govc", "go.mod")]:
        h.update(open(f, "rb").read())
    stamp = b + ".sum"
    if os.path.exists(b) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return b
    os.makedirs(os.path.dirname(b), exist_ok=True)
    tmp = b + ".%d" % os.getpid()
    subprocess.run(["go", "build", "-o", tmp, "."], cwd=os.path.join(VERIF, "govc"), env=ENV, check=True)
    os.replace(tmp, b)
    open(stamp, "w").write(h.hexdigest())
    return b


def contract_files(prop):
    root = os.path.join(VERIF, "contracts", prop)
    r = []
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(".go"):
                r.append((os.path.relpath(d, root), os.path.join(d, f)))
    return sorted(r)


def contracts(prop):
    """package dir -> [(name, directives)]"""
    r = {}
    for d, f in contract_files(prop):
        src = open(f).read()
        for m in re.finditer(r"((?:^//[^\n]*\n)*)^func (%s_\w+)\(" % prop, src, re.M):
            dirs = re.findall(r"^//govc:(\w+)", m.group(1), re.M)
            r.setdefault(d, []).append((m.group(2), dirs))
    return r


def package_name(d):
    for f in sorted(glob.glob(os.path.join(REPO, d, "*.go"))):
        if f.endswith("_test.go"):
            continue
        m = re.search(r"^package (\w+)", open(f, errors="replace").read(), re.M)
        if m:
            return m.group(1)
    return os.path.basename(d)


def dictionary(dirs):
    ints, strs, fl = set(), set(), set()
    for d in dirs:
        for f in glob.glob(os.path.join(REPO, d, "*.go")):
            if f.endswith("_test.go") or f.endswith(".pb.go"):
                continue
            src = open(f, errors="replace").read()
            for s in re.findall(r'"((?:[^"\\\n]|\\.)*)"', src):
                if len(s) < 20 and "%" not in s and "/" not in s:
                    strs.add(s)
            nos = re.sub(r'"(?:[^"\\\n]|\\.)*"', "", src)
            for n in re.findall(r"(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])", nos):
                n = int(n, 0) if not (len(n) > 1 and n[0] == "0" and n[1].isdigit()) else int(n, 8) if n.isdigit() and not set(n) & set("89") else 0
                if 2 < n < 1 << 62:
                    ints.add(n)
            for n in re.findall(r"(?<![\w.])(\d+\.\d+)", nos):
                fl.add(float(n))
    return {"Ints": sorted(ints)[:200], "Strs": sorted(strs)[:200], "Floats": sorted(fl)}


class Run:
    """execution of the contracts against the real code"""

    def __init__(self, prop, scratch):
        self.prop, self.scratch = prop, scratch
        self.pkgs = {}
        ov = {os.path.join(REPO, "verifspec", "v.go"): os.path.join(VERIF, "spec", "v.go")}
        for d, f in contract_files(prop):
            ov[os.path.join(REPO, d, "zz_%s_%s" % (prop.lower(), os.path.basename(f)))] = f
        for d, cs in contracts(prop).items():
            names = [n for n, dirs in cs if "norun" not in dirs]
            if not names:
                continue
            t = os.path.join(scratch, d.replace("/", "_") + "_zz_verif_test.go")
            with open(t, "w") as o:
                o.write("//go:build verif && go1.21\n\npackage %s\n\nimport (\n\t\"testing\"\n\n\tv \"github.com/LogicalOverflow/music-sync/verifspec\"\n)\n\n" % package_name(d))
                o.write("func TestZZVerif(t *testing.T) {\n\tv.Main(%s, []v.Entry{\n" % json.dumps(d))
                for n in names:
                    o.write("\t\t{%s, %s},\n" % (json.dumps(n), n))
                o.write("\t})\n}\n")
            ov[os.path.join(REPO, d, "zz_verif_test.go")] = t
            self.pkgs[d] = names
        self.ov = os.path.join(scratch, "overlay.json")
        json.dump({"Replace": ov}, open(self.ov, "w"))
        self.dict = os.path.join(scratch, "dict.json")
        json.dump(dictionary(self.pkgs), open(self.dict, "w"))
        self.bins = {}
        self.err = ""

    def build(self):
        for d in self.pkgs:
            b = os.path.join(self.scratch, d.replace("/", "_") + ".test")
            p = subprocess.run(["go", "test", "-c", "-vet=off", "-tags=verif", "-overlay", self.ov, "-o", b, "./" + d], cwd=REPO, env=ENV, capture_output=True, text=True)
            if p.returncode != 0 or not os.path.exists(b):
                self.err += p.stdout + p.stderr
            else:
                self.bins[d] = b

    def run(self, runs, limit_ms, only=None, seed=SEED, timeout=120):
        out = {}
        for d, b in self.bins.items():
            names = self.pkgs[d]
            if only is not None:
                names = [n for n in names if n in only]
            if not names:
                continue
            o = os.path.join(self.scratch, "res")
            f = o + "." + d.replace("/", "_") + ".json"
            if os.path.exists(f):
                os.remove(f)
            work = os.path.join(self.scratch, "work")
            os.makedirs(work, exist_ok=True)
            env = dict(ENV, VERIF_OUT=o, VERIF_SEED=str(seed), VERIF_RUNS=str(runs), VERIF_LIMIT_MS=str(limit_ms), VERIF_ONLY=",".join(names), VERIF_DICT=self.dict, TMPDIR=work)
            try:
                p = subprocess.run([b, "-test.run", "^TestZZVerif$", "-test.timeout", "0"], cwd=work, env=env, capture_output=True, text=True, timeout=timeout, errors="replace")
                txt = p.stdout + p.stderr
            except subprocess.TimeoutExpired as e:
                txt = "timeout"
            if os.path.exists(f):
                for k, r in json.load(open(f)).items():
                    out[k] = r
            elif "panic:" in txt or "fatal error:" in txt:
                ran = re.findall(r"VERIF-RUN (\w+)", txt)
                m = re.search(r"(panic:|fatal error:).*", txt, re.S)
                if ran:
                    out[ran[-1]] = {"Failure": "crash of a goroutine: " + m.group(0)[:3000], "Seed": seed, "Args": "", "Runs": 1, "Checked": 0, "Skipped": 0, "Blocked": 0, "Covers": {}, "Crash": True}
        return out

    def confirm(self, name, r):
        """the same input must fail again"""
        if r.get("Crash"):
            o = self.run(100000, 3000, only=[name])
            return bool(o.get(name, {}).get("Failure"))
        for d, b in self.bins.items():
            if name in self.pkgs[d]:
                for _ in range(2):
                    o = os.path.join(self.scratch, "rep")
                    f = o + "." + d.replace("/", "_") + ".json"
                    if os.path.exists(f):
                        os.remove(f)
                    work = os.path.join(self.scratch, "work")
                    env = dict(ENV, VERIF_OUT=o, VERIF_ONLY=name, VERIF_REPLAY=str(r["Seed"]), VERIF_DICT=self.dict, TMPDIR=work)
                    try:
                        subprocess.run([b, "-test.run", "^TestZZVerif$"], cwd=work, env=env, capture_output=True, timeout=60)
                        x = json.load(open(f))[name]["Failure"]
                    except Exception:
                        return False
                    if x in ("", "skip", "blocked"):
                        return False
                return True
        return False


def known_findings(prop):
    r = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) contract=(\S+) obligation=\"([^\"]*)\" (.*)", l.strip())
            if m and m.group(1) == prop:
                r.append({"contract": m.group(2), "obligation": m.group(3), "what": m.group(4)})
    return r


def main():
    prop = sys.argv[1]
    thorough = TIER == "thorough"
    viol = []  # (text, replay data, has input)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop.lower())
    try:
        return decide(prop, thorough, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, thorough, scratch):
    rdir = os.path.join(OUT, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    replay = os.path.join(rdir, prop + ".txt")
    govc = build_govc()
    res = os.path.join(scratch, "govc.json")
    budget = "600s" if thorough else "300s"
    cmd = [govc, "-repo", REPO, "-verif", VERIF, "-prop", prop, "-out", res, "-budget", budget]
    proc = subprocess.Popen(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=VERIF, start_new_session=True)
    run = Run(prop, scratch)
    run.build()
    try:
        gout, _ = proc.communicate(timeout=LIMIT - 150)
    except subprocess.TimeoutExpired:
        os.killpg(proc.pid, 9)
        gout, _ = proc.communicate()
        gout += "\nverifier timed out"
    rep = json.load(open(res)) if os.path.exists(res) else {"LoadError": "the verifier ended without a result:\n" + gout[-3000:], "Contracts": None}
    cts = rep.get("Contracts") or []
    ran = run.run(4000 if thorough else 400, 8000 if thorough else 600, timeout=200 if thorough else 90)

    known = known_findings(prop)
    def is_known(c, o):
        for k in known:
            if k["contract"] == c and k["obligation"] == o:
                k["seen"] = True
                return True
        return False

    failed = {}   # contract -> [text]
    notes = []
    if rep.get("LoadError"):
        failed["(load)"] = [rep["LoadError"][:4000]]
    if not cts and not rep.get("LoadError"):
        failed["(load)"] = ["no contracts found"]
    for c in cts:
        if c["Unsupported"]:
            failed.setdefault(c["Name"], []).append("not decided: " + c["Unsupported"])
        for o in c["Failed"] or []:
            if is_known(c["Name"], o["Name"]):
                continue
            failed.setdefault(c["Name"], []).append("obligation '%s' (%s) at %s: %s\n%s" % (o["Name"], o["Kind"], o["Pos"], o["Status"], o["Model"]))
    inputs = {}
    def take(out):
        for n, r in out.items():
            if n in inputs or r["Failure"] in ("", "skip", "blocked"):
                continue
            if any(k["contract"] == n for k in known):
                if is_known(n, r["Failure"].split("\n")[0]) or n not in failed:
                    continue
            if run.confirm(n, r):
                inputs[n] = r
    take(ran)
    if failed and not inputs and run.bins:
        names = [n for n in failed if any(n in ns for ns in run.pkgs.values())] or None
        take(run.run(1000000, 25000 if not thorough else 60000, only=names, seed=SEED + 77, timeout=240))
    if run.err and not failed:
        notes.append("contracts could not be executed: " + run.err[:500])

    def evidence():
        assumed, inl, ens = set(), set(), []
        solvers = {}
        st = 0.0
        nobl = ndis = nsimp = ninv = 0
        for c in cts:
            assumed.update(c["Assumptions"] or [])
            inl.update(c["Inlined"] or [])
            nobl += c["Obligations"]; ndis += c["Discharged"]; nsimp += c["Simplified"]; ninv += c["LoopInv"]
            st += c["SolverTime"]
            for k, n in (c["Solvers"] or {}).items():
                solvers[k] = solvers.get(k, 0) + n
            for e in c["Ensures"] or []:
                ens.append(c["Name"] + ": " + e)
        return dict(assumed=sorted(assumed), inl=sorted(inl), ens=sorted(ens), solvers=solvers, st=st, nobl=nobl, ndis=ndis, nsimp=nsimp, ninv=ninv)

    e = evidence()
    base = [
        "govc (this repository's own verification-condition generator, /verif/govc) and golang.org/x/tools/go/ssa",
        "z3 and cvc5",
        "partial correctness: loops and blocking operations that do not end are not excluded",
        "slices are at most 2^48 elements long and loops run at most 2^48 times",
        "memory exhaustion is not modelled",
        "a goroutine started by the code runs at the point where it is started unless a contract states otherwise",
    ]
    boundedonly = sorted(n for d, cs in contracts(prop).items() for n, dirs in cs if "bounded" in dirs)
    bounded = {n: {k: r[k] for k in ("Runs", "Checked", "Skipped", "Blocked")} for n, r in ran.items()}
    ev = {
        "property": prop,
        "tier": TIER,
        "seed": SEED,
        "level": "proof",
        "result": "violation" if (failed or inputs) else "held",
        "coverage": {
            "obligations": e["nobl"],
            "discharged": e["ndis"],
            "checker_cmd": " ".join(cmd),
            "trusted_base": base + e["assumed"],
            "contracts": len(cts),
            "postconditions": e["ens"],
            "functions_under_contract": e["inl"],
            "loop_invariants_proved": e["ninv"],
            "obligations_by_back_end": e["solvers"],
            "solver_seconds": round(e["st"], 2),
            "unchecked_assumptions": e["assumed"],
            "bounded_executions": {"label": "bounded: contracts executed on generated inputs, never counted as proved", "per_contract": bounded, "only_bounded": boundedonly},
            "notes": notes,
        },
        "wall_s": round(time.time() - T0, 2),
    }
    ev = finish_evidence(ev)
    json.dump(ev, open(os.path.join(OUT, "evidence", prop + ".json"), "w"), indent=1)

    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if not failed and not inputs:
        print("%s: %d contracts, %d obligations discharged, %.1fs" % (prop, len(cts), e["ndis"], time.time() - T0))
        return 0
    with open(replay, "w") as o:
        o.write("property %s violated on the current tree of %s\n\n" % (prop, REPO))
        for n, r in inputs.items():
            o.write("FAILING INPUT for contract %s (executed on the real code)\n  obligation: %s\n  input: %s\n  seed %s (deterministic; re-run: VERIF_REPLAY=%s of the overlay test in %s/tools/check.py)\n\n" % (n, r["Failure"], r["Args"], r["Seed"], r["Seed"], VERIF))
        for n, ts in failed.items():
            o.write("FAILED PROOF of contract %s\n" % n)
            for t in ts:
                o.write("  " + t.replace("\n", "\n  ") + "\n")
            o.write("\n")
        o.write("verifier output:\n" + gout[-4000:] + "\n")
    for n, ts in failed.items():
        for t in ts[:6]:
            print("failed: %s: %s" % (n, t.split("\n")[0][:300]))
    for n, r in inputs.items():
        print("failing input: %s: %s with %s" % (n, r["Failure"].split("\n")[0], r["Args"][:300]))
    print("VIOLATION property=%s replay=%s%s" % (prop, replay, "" if inputs else " no-failing-input-found"))
    return 1


def finish_evidence(ev):
    return ev


if __name__ == "__main__":
    try:
        rc = main()
    except Exception as ex:  # the check itself broke: the property is not shown to hold
        import traceback
        traceback.print_exc()
        p = sys.argv[1]
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        f = os.path.join(OUT, "replays", p + ".txt")
        open(f, "w").write(traceback.format_exc())
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (p, f))
        rc = 1
    sys.exit(rc)
