#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]     decide one property on /repo's current tree
check.py --replay FILE                re-run a recorded counterexample on /repo's current tree
check.py --setup                      build the rustc driver
"""
import concurrent.futures as cf
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
import asm
from props import PROPS

V = asm.V
EV = os.path.join(V, "evidence")
T0 = time.time()
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


LIVE = set()


def kill_all():
    for p in list(LIVE):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass


def run(cmd, timeout, env=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=e, start_new_session=True)
    LIVE.add(p)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        return -1, ""
    finally:
        LIVE.discard(p)
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()


def case_lines(h, c, head="harness"):
    out = ["%s %s" % (head, h)]
    out += ["in %s %s" % (n.replace(" ", "_"), v) for n, v in c.get("model", [])]
    out += ["choice %s %s" % (n.replace(" ", "_"), v) for n, v in c.get("choices", [])]
    return out


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.spec = prop, tier, PROPS[prop]
        self.budget = self.spec.get("budget", 500) if tier == "quick" else 6 * 3600
        self.violation = None
        self.known = []
        self.stop = threading.Event()
        self.vlock = threading.Lock()
        self.results, self.undecided, self.notes = [], [], []
        self.validated = self.val_skip = 0
        self.nreplay = 0
        self.rdir = os.path.join(EV, prop + ".replay")
        shutil.rmtree(self.rdir, ignore_errors=True)

    # ---------------------------------------------------------------- violations
    def report(self, h, what, lines, how):
        with self.vlock:
            if self.violation:
                return
            for k in KNOWN:
                if k.get("property") == self.prop and k.get("harness") == h and re.search(k["check"], what):
                    if k not in self.known:
                        self.known.append(k)
                    return
            os.makedirs(self.rdir, exist_ok=True)
            f = os.path.join(self.rdir, re.sub(r"\W+", "_", h) + ".txt")
            txt = ["# property %s, harness %s, violated check: %s" % (self.prop, h, what), "# " + how, "# re-run: python3 check.py --replay " + f]
            open(f, "w").write("\n".join(txt + lines) + "\n")
            self.violation = (h, what, f)
            self.stop.set()
            kill_all()
            log("violation:", h, "|", what, "|", " ".join(l for l in lines if l.startswith("in "))[:300])

    def replay(self, h, what, c, secs, env={}):
        """does the real code misbehave at (or near) the solver's model?"""
        with self.vlock:
            self.nreplay += 1
            k = self.nreplay
        f = os.path.join(self.work, "cand%d.txt" % k)
        open(f, "w").write("\n".join(case_lines(h, c)) + "\n")
        rc, o = run([self.nat, "replay", f, "2000000", str(secs)], secs + 60, dict(env, VERIF_SEED=str(SEED)))
        if rc == 1 and "REPRODUCED" in o and "NOT-REPRODUCED" not in o:
            first = [l for l in o.splitlines() if l.startswith("REPRODUCED")][0]
            names = {n.replace(" ", "_") for n, _ in c.get("choices", [])}
            lines = ["harness " + h]
            for l in o.splitlines():
                if l.startswith("in "):
                    w = l.split(" ", 2)
                    lines.append(("choice %s %s" if w[1] in names else "in %s %s") % (w[1], w[2]))
            got = first.split("check=", 1)[1]
            self.report(h, got, lines, "solver counterexample to '%s', reproduced natively (%s)" % (what, first.split(" check")[0]))
            return True
        return False

    # ---------------------------------------------------------------- one harness
    def harness(self, h, part):
        if self.stop.is_set():
            return
        left = self.deadline - time.time()
        env = {} if part is None else {"SYM_PART": str(part)}
        qms = "3000" if self.tier == "quick" else "20000"
        rc, o = run([self.sym, "sym", h, "%.0f" % max(left - 60, 20), qms], left + 60, env)
        if self.stop.is_set():
            return
        try:
            d = json.loads(o)
        except ValueError:
            self.undecided.append("%s: symbolic run ended without a result (rc %s)" % (h, rc))
            return
        d["part"] = part
        self.results.append(d)
        seen = {}
        for c in d["cands"]:
            seen.setdefault(c["what"], []).append(c)
        reproduced = False
        for what, cs in seen.items():
            for c in cs[:6]:
                if self.stop.is_set():
                    return
                if self.replay(h, what, c, 8 if self.tier == "quick" else 60):
                    reproduced = True
                    break
        if d["samples"] and not self.stop.is_set():
            self.validate(h, d["samples"])
        if d["cands"] and not reproduced:
            reproduced = self.refine(h, part, d)
        if d["cands"] and not reproduced:
            self.undecided.append("%s: %d solver model(s) of the abstraction not reproducible on the real code: %s" % (h, len(d["cands"]), "; ".join(sorted(seen))))
        elif d["incomplete"] and not reproduced:
            self.undecided.append("%s: incomplete (%s)" % (h, d["incomplete"]))
        if not any(d["checks"].values()):
            self.undecided.append("%s: no assertion reached" % h)
        log("%-34s %s paths=%d queries=%d unknown=%d cands=%d%s" % (h + ("" if part is None else "#%d" % part), "%.1fs" % d["wall_s"], d["paths"], d["queries"], d["unknown"], len(d["cands"]), " INCOMPLETE " + d["incomplete"] if d["incomplete"] else ""))

    def refine(self, h, part, d):
        """Counterexamples to the abstraction that the real code does not reproduce: split the input
        box and decide the parts, where the abstraction is tighter; boxes without counterexamples are
        done with, the others are replayed and split further."""
        end = min(self.deadline, time.time() + (240 if self.tier == "quick" else 1800))
        full = {n.replace(" ", "_"): (lo, hi, i) for n, lo, hi, i in d["ranges"]}
        todo = [full]
        env = {} if part is None else {"SYM_PART": str(part)}
        nbox = 0
        while todo and time.time() < end and not self.stop.is_set():
            # the input whose range is widest compared with the whole
            b = todo.pop(0)
            w = {n: (b[n][1] - b[n][0]) / (full[n][1] - full[n][0]) for n in b if full[n][1] > full[n][0] and not (b[n][2] and b[n][1] - b[n][0] < 1)}
            if not w:
                continue
            n = max(sorted(w), key=lambda n: w[n])
            lo, hi, i = b[n]
            mid = float(int((lo + hi) // 2)) if i else (lo + hi) / 2
            for half in ((lo, mid, i), (mid + 1 if i else mid, hi, i)):
                c = dict(b)
                c[n] = half
                e = dict(env, VBOX=";".join("%s=%r,%r" % (k, v[0], v[1]) for k, v in c.items()))
                rc, o = run([self.sym, "sym", h, "60", "3000"], max(end - time.time(), 1), e)
                nbox += 1
                try:
                    r = json.loads(o)
                except ValueError:
                    continue
                self.results.append(dict(r, part=part))
                whats = {}
                for x in r["cands"]:
                    whats.setdefault(x["what"], []).append(x)
                for what, cs in whats.items():
                    for x in cs[:2]:
                        if self.stop.is_set():
                            return True
                        if self.replay(h, what, x, 3, {"VBOX": e["VBOX"]}):
                            return True
                if r["cands"]:
                    todo.append(c)
        log("%s: %d boxes refined, %d left undecided" % (h, nbox, len(todo)))
        return not todo and not self.stop.is_set() and nbox > 0 and "settled"

    def validate(self, h, samples):
        """the inputs of explored paths, run on the real code: the encoding and the code must agree"""
        with self.vlock:
            self.nreplay += 1
            f = os.path.join(self.work, "batch%d.txt" % self.nreplay)
        open(f, "w").write("\n".join("\n".join(case_lines(h, s, "case")) for s in samples) + "\n")
        rc, o = run([self.nat, "batch", f], 120)
        for l, s in zip(o.splitlines(), samples):
            if l.startswith("OK"):
                self.validated += 1
            elif l.startswith("SKIP"):
                self.val_skip += 1
            elif l.startswith("FAIL"):
                self.report(h, l.split(" ", 2)[2], case_lines(h, s), "inputs of an explored path, run on the real code")

    # ---------------------------------------------------------------- main
    def main(self):
        self.work = tempfile.mkdtemp(prefix="vc_%s_" % self.prop)
        try:
            return self.main2()
        finally:
            shutil.rmtree(self.work, ignore_errors=True)

    def main2(self):
        self.report_txt = ""
        degraded = None
        try:
            self.nat, self.sym, self.report_txt = asm.assemble(self.work, self.spec["modules"])
        except asm.BuildError as e:
            if not e.native:
                print(str(e)[:6000])
                log("the source under check could not be built or encoded: no verdict")
                return 2
            degraded = str(e)
            self.nat, self.sym = e.native, None
        log("encoded and built from", asm.REPO)
        self.deadline = time.time() + self.budget
        rc, o = run([self.nat, "list"], 60)
        hs = [h for h in o.split() if h.startswith(self.prop + ".")]
        if self.tier == "quick":
            hs = [h for h in hs if not h.startswith(self.prop + ".T_")]
        jobs = []
        for h in hs:
            n = int(h.split("/")[1]) if "/" in h else None
            jobs += [(h, None)] if n is None else [(h, k) for k in range(n)]
        slow = self.spec.get("slow", [])
        jobs.sort(key=lambda j: 0 if any(j[0].startswith(self.prop + "." + s) for s in slow) else 1)
        with cf.ThreadPoolExecutor(8) as ex:
            if degraded:
                print(degraded[:3000])
                log("DEGRADED: symbolic encoding could not be built; counterexample search on the real code only")
                self.undecided.append("symbolic encoding could not be built for this tree")
                fs = [ex.submit(self.replay, h, "search", {}, 60) for h, _ in jobs]
            else:
                fs = [ex.submit(self.harness, h, k) for h, k in jobs]
            for f in cf.as_completed(fs):
                f.result()
        self.evidence()
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        for u in self.undecided:
            print("UNDECIDED: property=%s %s" % (self.prop, u))
        if self.violation:
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violation[2]))
            return 1
        q = sum(d["queries"] for d in self.results)
        log("%s: held on everything explored: %d paths, %d solver queries, %d native validations" % (self.prop, sum(d["paths"] for d in self.results), q, self.validated))
        return 0

    def evidence(self):
        R = self.results
        S = lambda k: sum(d[k] for d in R)
        fns = sorted({f for d in R for f in d["functions"] if not f.startswith("vh::")})
        solvers = {}
        for d in R:
            for k, v in d["solvers"].items():
                k = re.sub(r" \d+$", "", k).strip()
                solvers[k] = solvers.get(k, 0) + v
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": SEED,
            "level": "model_checking",
            "coverage": {
                "states": S("paths"),
                "transitions": S("forks"),
                "traces_validated_against_impl": self.validated,
                "samples": [{"harness": d["harness"], "inputs": s["model"], "choices": s["choices"]} for d in R for s in d["samples"][:2]][:30],
                "exhaustive": not self.undecided and not self.violation and not any(d["incomplete"] for d in R),
                "explanation": "states: feasible symbolic paths of the real code followed to their assertions; transitions: branch decisions with both sides feasible. Each assertion on each path is decided by an SMT query over all inputs of the path.",
                "functions_encoded": fns,
                "bounds": self.spec["bounds"],
                "queries": {"total": S("queries"), "sat": S("sat"), "unsat": S("unsat"), "unknown": S("unknown"), "solver_seconds": round(S("solver_s"), 2), "answered_by": solvers},
                "assertions_decided": S("checks_n") if R and "checks_n" in R[0] else sum(sum(d["checks"].values()) for d in R),
                "decided_by_interval": S("interval_decided"),
                "paths_excluded_by_assumptions": S("assumed_away"),
                "native_validations_skipped": self.val_skip,
                "harnesses": [{"name": d["harness"], "part": d["part"], "paths": d["paths"], "queries": d["queries"], "unknown": d["unknown"], "assertions": d["checks"], "incomplete": d["incomplete"], "wall_s": d["wall_s"]} for d in sorted(R, key=lambda d: d["harness"])],
                "undecided": self.undecided,
                "known_findings": [k["what"] for k in self.known],
            },
            "assumptions": COMMON + self.spec.get("assumptions", []),
            "wall_s": round(time.time() - T0, 1),
            "violations": 1 if self.violation else 0,
        }
        os.makedirs(EV, exist_ok=True)
        json.dump(ev, open(os.path.join(EV, self.prop + ".json"), "w"), indent=1)


COMMON = [
    "IEEE-754 double arithmetic is modelled as exact real arithmetic plus, for every operation, a rounding error of at most half an ulp (accumulated as a certified radius, materialised as a solver variable where the value is compared); values are finite within the stated input ranges",
    "libm pow/cbrt/sqrt/exp results are within 4 ulp of the true value; sin, cos, atan2, ln and exp are functions known by their ranges, Lipschitz bounds, periods and inverse laws only",
    "solvers (z3 5.3, cvc5 1.1), rustc's type checker and the rewriting of f64/i64 to symbolic scalars are trusted; sampled paths are replayed natively to cross-check the encoding",
]
try:
    KNOWN = json.load(open(os.path.join(V, "known_findings.json")))["known"]
except FileNotFoundError:
    KNOWN = []


def replay_cmd(f):
    h = [l.split()[1] for l in open(f) if l.startswith("harness ")][0]
    prop = h.split(".")[0]
    w = tempfile.mkdtemp(prefix="vc_replay_")
    try:
        nat = asm.native(w, PROPS[prop]["modules"])
        rc, o = run([nat, "replay", f, "1"], 600)
        print(o)
        return rc
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--setup":
        print(asm.driver())
        sys.exit(0)
    if a[0] == "--replay":
        sys.exit(replay_cmd(a[1]))
    tier = "thorough" if "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    sys.exit(Check(a[0], tier).main())
