#!/usr/bin/env python3
"""check.py <property>: decides one property of /repo.

1. gover translates the functions the property depends on, from the current
   source of /repo, together with the contracts of /verif/spec, into a Verus crate.
2. Verus must discharge every obligation of the crate.
3. A second crate, with an assertion that must fail at the entry, the exit and
   in every loop of each function, guards against vacuous contracts.
4. A search for failing inputs on the compiled code runs alongside: it gives a
   failed proof its failing input and cross-checks what the proof assumes.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
os.environ["REFUTE_REPO"] = REPO
PID = sys.argv[1]
TIER = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
T0 = time.time()
CONF = json.load(open(os.path.join(HERE, "checks.json")))
C = CONF["properties"][PID]
OUTDIR = os.path.join(HERE, "evidence")
os.makedirs(OUTDIR, exist_ok=True)
scratch = tempfile.mkdtemp(prefix="vchk_%s_" % PID, dir="/tmp")

env = dict(os.environ)
if not env.get("HOME"):
    env["HOME"] = "/root"
env.setdefault("GOCACHE", os.path.join(env["HOME"], ".cache", "go-build"))
env["GOFLAGS"] = "-mod=mod"
env["GOPROXY"] = "off"
env["GOTOOLCHAIN"] = "local"


def say(*a):
    print(*a, flush=True)


def sh(cmd, cwd=None, timeout=None, **kw):
    return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


def go_build(src, out, extra=()):
    r = sh(["go", "build", *extra, "-o", out, "."], cwd=src)
    if r.returncode != 0:
        # a read-only or missing cache
        env["GOCACHE"] = os.path.join(scratch, "gocache")
        r = sh(["go", "build", *extra, "-o", out, "."], cwd=src)
    return r


class Broken(Exception):
    pass


def build_gover():
    out = os.path.join(scratch, "gover")
    r = go_build(os.path.join(HERE, "gover"), out)
    if r.returncode != 0:
        raise Broken("cannot build gover:\n" + r.stderr)
    return out


def build_refute(race=False):
    src = os.path.join(HERE, "refute")
    mod = os.path.join(scratch, "refute.mod")
    t = open(os.path.join(src, "go.mod")).read()
    t = re.sub(r"(?m)^replace .*$", "replace github.com/TooManySugar/ll1parser => " + REPO, t)
    open(mod, "w").write(t)
    out = os.path.join(scratch, "refute_race" if race else "refute")
    r = go_build(src, out, ["-modfile", mod] + (["-race"] if race else []))
    if r.returncode != 0:
        raise Broken("cannot build the search:\n" + r.stderr)
    return out


class Crate:
    """One generated crate: a group of contracts."""

    def __init__(self, idx, spec, smoke):
        self.idx, self.spec, self.smoke = idx, spec, smoke
        self.dir = os.path.join(scratch, "c%d%s" % (idx, "s" if smoke else ""))
        os.makedirs(self.dir)
        self.stub = {}
        self.fail = {}  # obligation id -> list of verifier messages
        self.other = []  # failures outside obligations (lemmas)
        self.obl = None
        self.summary = None
        self.error = None
        self.solver_s = 0.0
        self.attempts = 0
        self.cmd = ""

    def gen(self, gover):
        s = self.spec
        S = os.path.join(HERE, "spec")
        stub = os.path.join(self.dir, "stub.json")
        json.dump(self.stub, open(stub, "w"))
        cmd = [gover, "-repo", REPO, "-names", os.path.join(S, "names.json"),
               "-specs", ",".join(os.path.join(S, x + ".gspec") for x in s["specs"]),
               "-mods", ",".join(os.path.join(S, x + ".rs") for x in s["mods"]),
               "-prelude", os.path.join(S, "prelude.rs"),
               "-roots", ",".join(s["roots"]), "-traits", CONF["traits"],
               "-stub", stub, "-out", os.path.join(self.dir, "c.rs"), "-obl", os.path.join(self.dir, "o.json")]
        if s.get("types"):
            cmd += ["-types", ",".join(s["types"])]
        if s.get("only"):
            cmd += ["-only", ",".join(s["only"])]
        if self.smoke:
            cmd.append("-smoke")
        r = sh(cmd, timeout=120)
        if r.returncode != 0:
            raise Broken("gover: " + r.stderr)
        self.obl = json.load(open(os.path.join(self.dir, "o.json")))
        self.lines = open(os.path.join(self.dir, "c.rs")).read().split("\n")

    def verus(self, extra=()):
        s = self.spec
        opts = ["--multiple-errors", "1000" if self.smoke else "20", "--output-json", "--time-expanded", "--error-format=json"]
        opts += s.get("verus", []) + list(extra)
        if "--rlimit" not in opts:
            opts += ["--rlimit", str(s.get("rlimit", 60))]
        cmd = ["verus", "c.rs"] + opts
        self.cmd = " ".join(cmd)
        self.attempts += 1
        r = sh(cmd, cwd=self.dir, timeout=s.get("timeout", 700))
        try:
            self.summary = json.loads(r.stdout)
        except Exception:
            raise Broken("verus gave no result: " + r.stdout[-1000:] + r.stderr[-3000:])
        self.solver_s += self.summary.get("times-ms", {}).get("smt", {}).get("total", 0) / 1000.0
        self.fail, self.other, hard = {}, [], []
        for ln in r.stderr.split("\n"):
            if not ln.startswith("{"):
                continue
            try:
                d = json.loads(ln)
            except Exception:
                continue
            if d.get("level") != "error" or d["message"].startswith("aborting due to"):
                continue
            self.place(d, hard)
        return r.returncode, hard

    def tag(self, n):
        m = re.search(r"/\*@O (\d+)\*/", self.lines[n - 1]) if 0 < n <= len(self.lines) else None
        return int(m.group(1)) if m else None

    def enclosing(self, n):
        """(function key, its smallest obligation) of a line"""
        for i in range(min(n, len(self.lines)) - 1, -1, -1):
            m = re.match(r"\s*pub mod (\w+)", self.lines[i])
            if m:
                return m.group(1)
        return None

    def place(self, d, hard):
        spans = []

        def walk(x):
            for s in x.get("spans", []):
                spans.append(s)
            for c in x.get("children", []):
                walk(c)
        walk(d)
        own = [s for s in d.get("spans", [])]
        isverus = not d.get("code") and any(k in d["message"] for k in (
            "not satisfied", "assertion failed", "decreases", "invariant", "Resource limit", "rlimit", "overflow", "underflow", "divide", "termination",
            "unreachable", "recommendation", "could not be proved", "cannot prove", "may be", "possible", "bitvector", "bit-vector"))
        kind = "proof" if isverus else "hard"
        prim = [s for s in own if s["is_primary"]] or own
        for s in prim + [s for s in own if s not in prim]:
            for n in range(s["line_start"], s["line_end"] + 1):
                t = self.tag(n)
                if t is not None and kind == "proof":
                    self.fail.setdefault(t, []).append(d["rendered"])
                    return
                if s["line_end"] - s["line_start"] > 40:
                    break
        mod = self.enclosing(prim[0]["line_start"]) if prim else None
        if kind == "hard":
            hard.append((mod, d["rendered"]))
        else:
            self.other.append((mod, d["rendered"]))

    def modfunc(self, mod):
        if mod is None:
            return None
        for k in self.obl["functions"]:
            if "f_" + re.sub(r"[^A-Za-z0-9]", "_", k) == mod:
                return k
        return None

    def run(self, gover):
        try:
            hard = []
            for _ in range(12):
                self.gen(gover)
                rc, hard = self.verus()
                if not hard:
                    break
                new = False
                for mod, msg in hard:
                    k = self.modfunc(mod)
                    if k and k not in self.stub:
                        self.stub[k] = "the contract does not fit the code: " + msg.strip()[:600]
                        new = True
                if not new:
                    raise Broken("verus: " + "\n".join(m for _, m in hard)[:4000])
            else:
                raise Broken("verus: " + "\n".join(m for _, m in hard)[:4000])
            if not self.smoke and (self.fail or self.other):
                # a failed proof gets two more chances
                for extra in (["--rlimit", str(4 * self.spec.get("rlimit", 60)), "--smt-option", "smt.random_seed=%d" % (SEED + 7)],
                              ["--rlimit", str(4 * self.spec.get("rlimit", 60)), "-V", "spinoff-all"]):
                    keep = (self.fail, self.other, self.summary)
                    if time.time() - T0 > 420:
                        break
                    try:
                        rc, hard = self.verus(extra)
                    except (Broken, subprocess.TimeoutExpired):
                        self.fail, self.other, self.summary = keep
                        continue
                    if hard:
                        self.fail, self.other, self.summary = keep
                    if not self.fail and not self.other:
                        break
            if not self.smoke and TIER == "thorough" and not (self.fail or self.other):
                for sd in (SEED + 1, SEED + 2, SEED + 3):
                    keep = (self.fail, self.other, self.summary)
                    rc, hard = self.verus(["--smt-option", "smt.random_seed=%d" % sd])
                    unstable = sorted(self.fail) + [m for m, _ in self.other]
                    if unstable:
                        self.spec.setdefault("unstable", []).append({"seed": sd, "failed": [str(x) for x in unstable]})
                    self.fail, self.other, self.summary = keep
        except subprocess.TimeoutExpired as e:
            self.error = "timeout: " + str(e.cmd)[:200]
        except Exception as e:
            self.error = str(e) or repr(e)


def main():
    refres = {"runs": [], "failure": None, "error": None, "stats": None}

    def refuter(seconds, seed):
        if not C.get("search", True):
            return
        try:
            out = os.path.join(scratch, "fail%d.json" % seed)
            st = os.path.join(scratch, "stats%d.json" % seed)
            r = sh([refbin[0], "-property", PID, "-seconds", str(seconds), "-seed", str(seed), "-out", out, "-stats", st], timeout=seconds + 120, cwd=scratch)
            if r.returncode == 10 or (r.returncode == 2 and "fatal error" in r.stderr) or (r.returncode == 2 and "goroutine" in r.stderr):
                try:
                    refres["failure"] = json.load(open(out))
                except Exception:
                    refres["failure"] = {"property": PID, "input": None, "observed": "the code under test ends the process: " + r.stderr[:2000]}
            elif r.returncode != 0:
                refres["error"] = "search exits %d: %s" % (r.returncode, r.stderr[-1500:])
            if os.path.exists(st):
                s = json.load(open(st))
                o = refres["stats"]
                if o:
                    s["evaluations"] += o["evaluations"]
                    s["distinct_nontrivial"] = max(s["distinct_nontrivial"], o["distinct_nontrivial"])
                refres["stats"] = s
        except Exception as e:
            refres["error"] = repr(e)

    def racer(seconds, seed):
        """The same search with Go's race detector: written memory is not shared."""
        if not racebin[0]:
            return
        out, tr, log = (os.path.join(scratch, x) for x in ("failr.json", "trace.json", "race.log"))
        try:
            r = subprocess.run([racebin[0], "-property", PID, "-seconds", str(seconds), "-seed", str(seed), "-out", out, "-trace", tr],
                               timeout=seconds + 120, cwd=scratch, env=dict(env, GORACE="halt_on_error=1 exitcode=66 log_path=" + log),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
            refres["race"] = "exit %d" % r.returncode
            if r.returncode == 66 and not refres["failure"]:
                f = json.load(open(tr))
                f["observed"] = "data race: " + "".join(open(os.path.join(scratch, x)).read() for x in os.listdir(scratch) if x.startswith("race.log"))[:3000]
                f["race"] = True
                refres["failure"] = f
            elif r.returncode == 10 and not refres["failure"]:
                refres["failure"] = json.load(open(out))
        except Exception as e:
            refres["race"] = repr(e)

    racebin = [None]
    refbin = [None]
    builderr = []

    def build_r():
        try:
            refbin[0] = build_refute()
            if C.get("race"):
                try:
                    racebin[0] = build_refute(True)
                except Broken as e:
                    refres["race"] = str(e)[:300]
        except Broken as e:
            builderr.append(str(e))
    th = threading.Thread(target=build_r)
    th.start()
    gover = build_gover()
    th.join()
    if builderr:
        say(builderr[0])
        return 2
    crates = []
    for i, s in enumerate(C["crates"]):
        spec = dict(CONF["crates"][s]) if isinstance(s, str) else dict(s)
        crates.append(Crate(i, spec, False))
        crates.append(Crate(i, spec, True))
    threads = [threading.Thread(target=c.run, args=(gover,)) for c in crates]
    secs = C.get("search_seconds", 15) * (8 if TIER == "thorough" else 1)
    rt = threading.Thread(target=refuter, args=(secs, SEED))
    threads += [threading.Thread(target=racer, args=(secs, SEED))] if racebin[0] else []
    for t in threads:
        t.start()
    rt.start()
    for t in threads + [rt]:
        t.join()

    failed = []  # (crate, obligation or text, verifier output)
    total = discharged = 0
    funcs, inlined, std, assumes, backends, trusted = [], [], [], [], {}, set()
    smoke_total = smoke_dead = 0
    cmds = []
    for c in crates:
        if c.error:
            if c.smoke:
                failed.append(("vacuity run", c.error, ""))
            else:
                failed.append(("proof run", c.error, ""))
            continue
        if c.smoke:
            main_c = [d for d in crates if d.idx == c.idx and not d.smoke][0]
            exits = {}
            for o in c.obl["obligations"]:
                if o["kind"] == "smoke" and not o.get("failed"):
                    if o["func"] in c.stub or o["func"] in main_c.stub:
                        continue
                    smoke_total += 1
                    live = o["id"] in c.fail
                    if not live:
                        smoke_dead += 1
                    if o["label"] == "exit":  # a defensive branch may be dead, not every way out
                        exits[o["func"]] = exits.get(o["func"], False) or live
                    elif not live:
                        failed.append(("vacuity", "%s %s: contract is contradictory (assert(false) is proved)" % (o["func"], o["label"]), ""))
            for f, live in exits.items():
                if not live:
                    failed.append(("vacuity", "%s: no exit is reachable (assert(false) is proved)" % f, ""))
            continue
        cmds.append(c.cmd)
        n = 0
        for o in c.obl["obligations"]:
            m = re.match(r"(C\d\d(?:_C\d\d)*)-", o["label"])
            if m and not set(m.group(1).split("_")) & {PID, *C.get("also", [])}:
                continue  # belongs to another property
            total += 1
            n += 1
            backends[o["backend"]] = backends.get(o["backend"], 0) + 1
            if o.get("failed"):
                failed.append((o["func"], "%s [%s] %s (%s): %s" % (o["kind"], o["label"], o["text"], o["pos"], o["failed"]), ""))
            elif o["id"] in c.fail:
                failed.append((o["func"], "%s [%s] %s (%s)" % (o["kind"], o["label"], o["text"], o["pos"]), "\n".join(c.fail[o["id"]])))
            else:
                discharged += 1
        for t in c.fail:
            if t not in [o["id"] for o in c.obl["obligations"]]:
                failed.append(("?", "obligation %d" % t, "\n".join(c.fail[t])))
        for mod, msg in c.other:
            k = c.modfunc(mod)
            failed.append((k or ("lemmas of " + str(mod)), "proof step", msg))
        if n == 0:
            failed.append(("crate %d" % c.idx, "no obligations generated", ""))
        vr = c.summary["verification-results"]
        funcs += [f for f in c.obl["functions"] if f not in funcs]
        inlined += [f for f in (c.obl["inlined"] or []) if f not in inlined]
        std += [f for f in (c.obl["std"] or []) if f not in std]
        assumes += [f for f in (c.obl["assumes"] or []) if f not in assumes]
    proved_units = sum(c.summary["verification-results"].get("verified", 0) for c in crates if not c.smoke and c.summary)
    solver_s = sum(c.solver_s for c in crates if not c.smoke)

    if failed and not refres["failure"]:
        # look harder for a failing input
        more = C.get("hunt_seconds", 60)
        ts = [threading.Thread(target=refuter, args=(more, SEED + 100 + k)) for k in range(4)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    viol = 0
    rc = 0
    known = []
    try:
        for ln in open(os.path.join(HERE, "known-findings.txt")):
            if ln.startswith("open: property=%s " % PID):
                known.append(ln.strip()[6:])
    except FileNotFoundError:
        pass
    for k in known:
        say("KNOWN-FINDING: " + k)
    for who, what, _ in failed:
        say("FAILED OBLIGATION %s: %s" % (who, what))
    replay = os.path.join(OUTDIR, PID + ".replay.json")
    if os.path.exists(replay):
        os.remove(replay)
    if failed or refres["failure"]:
        viol = 1
        rc = 1
        doc = {"property": PID, "failed_obligations": [{"function": a, "obligation": b, "verifier": v[:6000]} for a, b, v in failed]}
        if refres["failure"]:
            doc.update(refres["failure"])
            doc["how"] = "cd /verif/refute && go run %s. -replay %s" % ("-race " if doc.get("race") else "", replay)
        json.dump(doc, open(replay, "w"), indent=1)
        if refres["failure"]:
            say("failing input: " + json.dumps(refres["failure"])[:3000])
            say("VIOLATION property=%s replay=%s" % (PID, replay))
        else:
            say("VIOLATION property=%s replay=%s no-failing-input-found" % (PID, replay))
    elif refres["error"]:
        say(refres["error"])
        rc = 2
    def short(x):
        if isinstance(x, str): return x if len(x) <= 300 else x[:300] + " ... %d characters" % len(x)
        if isinstance(x, dict): return {k: short(v) for k, v in x.items()}
        if isinstance(x, list): return [short(v) for v in x[:100]]
        return x
    if refres["stats"]:
        st = short(refres["stats"])
        for i, x in enumerate(st.get("samples") or []):
            t = json.dumps(x)
            if len(t) > 5000: st["samples"][i] = t[:5000] + " ... %d characters" % len(t)
        refres["stats"] = st
    ev = {
        "property": PID, "tier": TIER, "seed": SEED, "level": C.get("level", "proof"),
        "coverage": {
            "obligations": total, "discharged": discharged,
            "checker_cmd": "gover (contracts + current source of /repo -> Verus crate), then: " + " ; ".join(cmds),
            "trusted_base": CONF["trusted_base"] + C.get("trusted", []),
            "functions_under_contract": sorted(funcs), "functions_inlined": sorted(inlined),
            "names_put_back": sorted({x[9:] for c in crates if c.obl for x in (c.obl["notes"] or []) if x.startswith("renamed: ")}),
            "std_functions_modelled": sorted(std), "obligations_by_backend": backends,
            "verus_units_verified": proved_units, "solver_seconds": round(solver_s, 2),
            "vacuity_assertions_that_failed_as_required": smoke_total - smoke_dead,
            "verifier_runs": sum(c.attempts for c in crates),
            "search_for_failing_inputs": refres["stats"] or {},
            "race_detector_run": refres.get("race", "none"),
            "unstable_seeds": [u for c in crates for u in c.spec.get("unstable", [])],
        },
        "assumptions": CONF["assumptions"] + C.get("assumptions", []) + sorted(set(assumes)),
        "wall_s": round(time.time() - T0, 2), "violations": viol,
    }
    json.dump(ev, open(os.path.join(OUTDIR, PID + ".json"), "w"), indent=1)
    say("%s: %d obligations, %d discharged, %d functions, solver %.1f s, search %s evaluations, %.1f s" % (
        PID, total, discharged, len(funcs), solver_s, (refres["stats"] or {}).get("evaluations"), time.time() - T0))
    return rc


try:
    try:
        code = main()
    except Broken as e:
        say("check error: " + str(e))
        code = 2
finally:
    shutil.rmtree(scratch, ignore_errors=True)
sys.exit(code)
