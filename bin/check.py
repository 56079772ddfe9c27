#!/usr/bin/env python3
"""Decides one property: seeded search over simulated executions of the current tree of /repo.

usage: check.py PROPERTY quick|thorough
exit 0: held on everything explored; exit 1 and a VIOLATION line: broken; anything else: error of the check itself."""
import json, os, re, shutil, signal, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
EV = os.path.join(VERIF, "evidence")
SECONDS = {"quick": 60, "thorough": 600}
STRIDE = 64   # seeds of one worker are apart by this much


def load_info():
    with open(os.path.join(VERIF, "bin", "info.json")) as f:
        return json.load(f)


def known_findings(prop):
    out = []
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for l in f:
            m = re.match(r"known: property=(\w+) (\{.*\})", l)
            if m and m[1] == prop:
                out.append(json.loads(m[2]))
    return out


class Worker:
    def __init__(self, binp, prop, k, seed0, deadline, tmp):
        self.binp, self.prop, self.k, self.deadline, self.tmp = binp, prop, k, deadline, tmp
        self.next_seed, self.part, self.parts, self.crashes, self.p = seed0, 0, [], [], None
        self.start()

    def start(self):
        left = self.deadline - time.time()
        self.p = None
        if left < 1:
            return
        self.out = os.path.join(self.tmp, "w%d.%d.json" % (self.k, self.part))
        self.part += 1
        self.p = subprocess.Popen([self.binp, "search", self.prop, str(self.next_seed), str(STRIDE), "%.2f" % left, "1000000000", self.out],
                                  stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)

    def poll(self):
        """None while running, else 'done', 'viol', 'crash' or 'error: ...'"""
        if self.p is None:
            return "done"
        rc = self.p.poll()
        if rc is None:
            if time.time() > self.deadline + 60:
                self.p.kill()
                self.p.wait()
                return "crash"
            return None
        err = self.p.stderr.read().decode(errors="replace")
        if rc == 0:
            with open(self.out) as f:
                d = json.load(f)
            self.parts.append(d)
            return "viol" if d["viol"] else "done"
        if rc == 3:
            return "error: nondeterministic simulation: " + err.strip()[-300:]
        return "crash"

    def crashed_seed(self):
        try:
            with open(self.out + ".cur") as f:
                return int(f.read().split()[0])
        except (OSError, ValueError, IndexError):
            return None


def replay(binp, path, timeout=300):
    try:
        r = subprocess.run([binp, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "timeout", "", ""
    t = r.stdout.decode(errors="replace")
    m, h = re.search(r"^class (.*)$", t, re.M), re.search(r"^hash (\w+)", t, re.M)
    return r.returncode, m[1] if m else "", h[1] if h else ""


def confirm(binp, prop, case, tmp, shrink_s, log):
    """minimises a violating case and proves in fresh processes that it reproduces; returns the replay path or None"""
    rdir = os.path.join(EV, "replay")
    os.makedirs(rdir, exist_ok=True)
    rc, cls, h = replay(binp, case)
    if rc != 1:
        log.append("not reproduced in a fresh process (%s)" % rc)
        return None
    dst = os.path.join(rdir, "%s-%s.case" % (prop, h))
    small = os.path.join(tmp, "small.case")
    try:
        subprocess.run([binp, "shrink", case, small, str(shrink_s)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=shrink_s + 120)
        r1, r2 = replay(binp, small), replay(binp, small)
        if r1 == r2 and r1[0] == 1 and r1[1] == cls:
            dst = os.path.join(rdir, "%s-%s.case" % (prop, r1[2]))
            shutil.copy(small, dst)
            return dst
        log.append("minimised case does not reproduce, reporting the original")
    except subprocess.TimeoutExpired:
        log.append("minimisation timed out, reporting the original")
    if replay(binp, case) != (rc, cls, h):
        return None
    shutil.copy(case, dst)
    return dst


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    info = load_info()[prop]
    t0 = time.time()
    try:
        binp = B.build()
    except RuntimeError as e:
        print("cannot build the simulator from /repo:\n%s" % e, file=sys.stderr)
        return 2
    tb = time.time() - t0
    os.makedirs(EV, exist_ok=True)
    tmp = os.path.join(B.OUT, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    secs = float(os.environ.get("VERIF_SECONDS", SECONDS[tier]))
    nw = max(2, min(STRIDE, int(os.environ.get("VERIF_WORKERS", os.cpu_count() or 8))))
    base = (seed * 1000003 + 17) * 10000000 % (1 << 60)
    t1 = time.time()
    ws = [Worker(binp, prop, k, base + k, t1 + secs, tmp) for k in range(nw)]
    live, viol, errors, log, crashes, violations = list(ws), None, [], [], [], 0
    lines = []
    try:
        while live and viol is None:
            time.sleep(0.05)
            for w in list(live):
                st = w.poll()
                if st is None:
                    continue
                live.remove(w)
                if st == "viol":
                    violations += 1
                    viol = confirm(binp, prop, w.out + ".case", tmp, 40 if tier == "quick" else 120, log)
                    if viol is None:
                        errors.append("a violation did not reproduce: " + "; ".join(log))
                    break
                if st.startswith("error"):
                    errors.append(st)
                elif st == "crash":
                    s = w.crashed_seed()
                    crashes.append(s)
                    if s is not None and len(crashes) < 200:
                        if prop in ("C06", "C07") and viol is None:
                            # the code under test ended the whole simulator: no verdict, or memory it does not own
                            c = os.path.join(tmp, "crash.case")
                            with open(c, "wb") as f:
                                subprocess.run([binp, "case", prop, str(s)], stdout=f)
                            a, b = replay(binp, c, 120)[0], replay(binp, c, 120)[0]
                            if a == b and a not in (0, 1, 3):
                                os.makedirs(os.path.join(EV, "replay"), exist_ok=True)
                                viol = os.path.join(EV, "replay", "%s-seed%d.case" % (prop, s))
                                shutil.copy(c, viol)
                                violations += 1
                                break
                        w.next_seed = s + STRIDE
                        w.start()
                        live.append(w)
    finally:
        for w in ws:
            if w.p and w.p.poll() is None:
                os.killpg(w.p.pid, signal.SIGKILL)
                w.p.wait()
    for k in known_findings(prop):
        r = subprocess.run([binp, "pin", os.path.join(VERIF, k["source"]), k["function"]] + [str(a) for a in k["args"]],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60).stdout.decode(errors="replace").strip()
        if r == k["observed"].strip():
            lines.append("KNOWN-FINDING: property=%s %s: %s" % (prop, k["id"], k["what"]))
        elif r != k["correct"].strip() and viol is None:
            violations += 1
            os.makedirs(os.path.join(EV, "replay"), exist_ok=True)
            viol = os.path.join(EV, "replay", "%s-%s.txt" % (prop, k["id"]))
            with open(vp := viol, "w") as f:
                f.write("run: simx pin %s %s %s\nexpected: %s\nor the known finding: %s\nobserved: %s\n" %
                        (k["source"], k["function"], " ".join(map(str, k["args"])), k["correct"], k["observed"], r))
    wall = time.time() - t1
    parts = [p for w in ws for p in w.parts]
    n, distinct, states, samples, first, extra = {}, set(), set(), [], {}, {}
    cases = skips = rechecks = 0
    for p in parts:
        cases += p["cases"]
        skips += p["skips"]
        rechecks += p["rechecks"]
        for k, v in p["stats"]["n"].items():
            n[k] = n.get(k, 0) + v
        distinct.update(p["stats"]["distinct"])
        states.update(p["stats"]["states"])
        first.update(p["stats"].get("first", {}))
        samples += p["stats"]["samples"]
    faults = {k[6:]: v for k, v in sorted(n.items()) if k.startswith("fault_")}
    cov = {
        "evaluations": cases, "distinct_nontrivial": len(distinct), "rule": info["rule"], "samples": samples[:4],
        "skipped": skips, "skip_rule": info.get("skip_rule", ""),
        "runs_per_hour": int(cases / max(wall, 0.001) * 3600), "seeds_used": cases, "first_seed": base, "workers": nw,
        "simulated_time": {"unit": info["time_unit"], "steps": n.get(info["time_counter"], 0)},
        "fault_kinds_fired": faults, "distinct_states": len(states), "state_measure": info["state_measure"],
        "compiler_edges_covered": max([p.get("edges", 0) for p in parts] or [0]),
        "counters": {k: v for k, v in sorted(n.items()) if not k.startswith("fault_")},
        "determinism_selftest": {"cases_run_twice": rechecks, "mismatches": sum(e.startswith("error: nondet") for e in errors)},
        "simulator_restarts": len(crashes), "real_components": info["real"], "stubbed_components": info["stub"],
        "notes": first, "known_findings_seen": len(lines), "build_s": round(tb, 2),
    }
    ev = {"property": prop, "tier": tier if tier in SECONDS else "quick", "seed": seed, "level": info["level"], "coverage": cov,
          "assumptions": info["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": violations if viol else 0}
    tmpf = os.path.join(EV, prop + ".json.tmp")
    with open(tmpf, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmpf, os.path.join(EV, prop + ".json"))
    shutil.rmtree(tmp, ignore_errors=True)
    for l in lines:
        print(l)
    print("%s %s: %d simulated runs (%d skipped), %d distinct non-trivial, %d distinct states, faults %s, %.0f s" %
          (prop, tier, cases, skips, len(distinct), len(states), sum(faults.values()), wall))
    if viol:
        with open(viol, errors="replace") as f:
            print(f.read(6000))
        print("VIOLATION property=%s replay=%s" % (prop, viol))
        return 1
    if errors:
        print("\n".join(errors), file=sys.stderr)
        return 2
    if cases - skips < 20:
        print("only %d usable simulated runs" % (cases - skips), file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
