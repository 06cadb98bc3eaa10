#!/usr/bin/env python3
"""Runs the check of one property: build from /repo, run the monitored workloads, judge what the monitors saw."""
import argparse, hashlib, json, os, re, shutil, signal, subprocess, sys, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import registry as R

VERIF = B.VERIF
TSAN_OPTS = f"halt_on_error=0:exitcode=66:second_deadlock_stack=1:detect_deadlocks=1:history_size=4:report_thread_leaks=0:ignore_noninstrumented_modules=0:suppressions={VERIF}/vp/tsan.supp"
ASAN_OPTS = "detect_leaks=0:exitcode=99:abort_on_error=0:detect_stack_use_after_return=0:handle_abort=1:handle_segv=1:allocator_may_return_null=1:print_summary=1"
UBSAN_OPTS = "print_stacktrace=1:halt_on_error=1:exitcode=98"


def sanitizer_keys(text):
    """Turn sanitizer reports into stable keys: kind + first frames inside the library or the harness."""
    keys = []
    # TSan
    for blk in re.split(r"={18,}", text):
        m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", blk)
        if m:
            fns = []
            for part in re.split(r"\n\s*\n", blk):
                f = None
                for fm in re.finditer(r"#\d+ (.+?) (/\S+?):(\d+)", part):
                    if "/fairmq/" in fm.group(2) and "/shim/" not in fm.group(2):
                        f = re.sub(r"\(.*", "", fm.group(1)) if not fm.group(1).startswith("operator") else fm.group(1)
                        f = f + "@" + os.path.basename(fm.group(2))
                        break
                if f and f not in fns and len(fns) < 2:
                    fns.append(f)
            if not fns:
                fm = re.search(r"#\d+ (.+?) (/\S+?):(\d+)", blk)
                fns = [fm.group(1)[:80] if fm else "?"]
            keys.append(("tsan:" + m.group(1).strip().replace(" ", "-") + ":" + "|".join(sorted(fns)), blk.strip()[:6000]))
    m = re.search(r"ERROR: AddressSanitizer:? ([A-Za-z0-9-]+)", text)
    if m:
        pos = m.start()
        f = "?"
        for fm in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)", text[pos:]):
            if "/fairmq/" in fm.group(2) or "/h/" in fm.group(2):
                if "/shim/" in fm.group(2):
                    continue
                f = re.sub(r"\(.*", "", fm.group(1)) + "@" + os.path.basename(fm.group(2))
                break
        keys.append((f"asan:{m.group(1)}:{f}", text[pos:pos + 6000]))
    for m in re.finditer(r"(/\S+?):(\d+):\d+: runtime error: ([^\n]+)", text):
        kind = re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(3))[:80]
        keys.append((f"ubsan:{os.path.basename(m.group(1))}:{kind}", text[m.start():m.start() + 3000]))
    return keys


class Runner:
    def __init__(self, pid, tier, seed, only_case=None, only_run=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.only_case, self.only_run = only_case, only_run
        self.work = os.path.join(B.BUILD, "run", f"{pid}-{tier}-{os.getpid()}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.results, self.errors, self.viol, self.notes = [], [], [], []
        self.lock = threading.Lock()
        self.started = time.time()

    def one(self, run, attempt=0):
        tierargs = run.thorough if self.tier == "thorough" else run.quick
        name = f"{run.name}.{attempt}"
        out = os.path.join(self.work, name + ".json")
        log = os.path.join(self.work, name + ".log")
        exe = os.path.join(B.BUILD, run.flavour, run.harness)
        seed = self.seed
        cmd = [exe, f"--out={out}", f"--seed={seed}", f"--mode={run.mode}", f"--thorough={1 if self.tier == 'thorough' else 0}"]
        cmd += [f"--{k}={v}" for k, v in tierargs.items()]
        if self.only_case is not None:
            cmd.append(f"--case={self.only_case}")
        env = dict(os.environ)
        env.update(TSAN_OPTIONS=TSAN_OPTS, ASAN_OPTIONS=ASAN_OPTS, UBSAN_OPTIONS=UBSAN_OPTS, VP_WORK=self.work, VP_BUILD_DIR=os.path.join(B.BUILD, run.flavour),
                   FAIRMQ_PATH="", HOME=self.work, TMPDIR=self.work)
        env.update(run.env)
        timeout = run.timeout[1] if self.tier == "thorough" else run.timeout[0]
        t0 = time.time()
        if self.tier != "thorough":
            timeout = max(30, min(timeout, self.started + 800 - t0))
        with open(log, "wb") as lf:
            p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, cwd=self.work, start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
                timed_out = False
            except subprocess.TimeoutExpired:
                timed_out = True
                rc = None
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        self.clean_shm(out)
        with open(log, "rb") as lf:
            data = lf.read()
        text = (data[:4000000] + (b"\n...\n" + data[-1000000:] if len(data) > 5000000 else data[4000000:])).decode("utf-8", "replace")
        res = None
        try:
            res = json.load(open(out))
        except Exception:
            pass
        return dict(cmd=cmd, rc=rc, timed_out=timed_out, text=text, res=res, wall=time.time() - t0, run=run)

    def clean_shm(self, out):
        try:
            ids = set(open(out + ".shm").read().split())
        except OSError:
            return
        for f in os.listdir("/dev/shm"):
            for i in ids:
                if f.startswith(f"fmq_{i}_") or f == f"sem.fmq_{i}":
                    try:
                        os.unlink("/dev/shm/" + f)
                    except OSError:
                        pass

    def judge(self, r):
        """-> list of (key, detail), error string or None, hang phase or None"""
        v, err, hang = [], None, None
        res, run = r["res"], r["run"]
        sk = sanitizer_keys(r["text"])
        for k, d in sk:
            v.append((k, d))
        if res:
            for x in res["violations"]:
                v.append((x["key"], x["detail"]))
            if res.get("hang"):
                hang = res["hang"]
        if r["timed_out"]:
            err = f"run {run.name} exceeded its time limit"
        elif res is None:
            err = f"run {run.name} left no result (rc={r['rc']})"
        elif not res["completed"] and not hang:
            if not sk:
                # died without a sanitizer report: abort, uncaught exception, failed assert, exit() from the library
                tail = r["text"][-3000:]
                m = re.search(r"terminate called after throwing an instance of '([^']+)'", r["text"]) or re.search(r"libc\+\+abi: terminating.*type ([^\n]+)", r["text"])
                what = "terminate:" + m.group(1) if m else f"rc={r['rc']}"
                if "Assertion" in r["text"]:
                    m2 = re.search(r"Assertion [`']([^\n]+?)' failed", r["text"])
                    what = "assert:" + (m2.group(1)[:80] if m2 else "")
                if r["rc"] in (-9,):
                    err = f"run {run.name} was killed"
                else:
                    v.append((f"crash:{what}:{res.get('phase', '?')}", tail))
        return v, err, hang

    def exec_run(self, run):
        r = self.one(run)
        v, err, hang = self.judge(r)
        with self.lock:
            found = bool(v or self.viol)   # something is already established: no need to repeat what may take minutes
        if hang and not found:
            # a stall of tens of seconds; confirm on a second execution before reporting it
            for attempt in (1, 2):
                r2 = self.one(run, attempt)
                v2, err2, hang2 = self.judge(r2)
                if hang2:
                    v = v + v2 + [(f"hang:{hang2}", f"no progress for the stall limit in phase {hang2} (seen twice)\n" + r2["text"][-3000:])]
                    break
                v += v2
            else:
                with self.lock:
                    self.notes.append(f"stall in {run.name} phase {hang} did not recur")
            if not v:
                r = r2
        if err and not v and not found:
            r2 = self.one(run, 3)
            v2, err2, hang2 = self.judge(r2)
            if hang2:
                v2.append((f"hang:{hang2}", r2["text"][-3000:]))
            v, err, r = v2, err2, r2
        with self.lock:
            self.results.append(r)
            if err and not v:
                self.errors.append(err + "\n" + r["text"][-3000:])
            for k, d in v:
                self.viol.append((k, d, r))

    def go(self):
        chk = R.CHECKS[self.pid]
        t0 = time.time()
        runs = [r for r in chk["runs"] if (self.tier == "thorough" or not r.thorough_only) and (not self.only_run or r.name == self.only_run)]
        targets = sorted({(r.flavour, r.harness) for r in runs} | {(r.flavour, e) for r in runs for e in r.also})
        ok, out = B.build(targets, os.path.join(self.work, "build.log"))
        tb = time.time() - t0
        if not ok:
            print(out[-6000:])
            print(f"ERROR: build failed (see above)")
            return 2
        # two lanes: timing-sensitive runs execute alone, the others concurrently
        conc = [r for r in runs if not r.alone]
        alone = [r for r in runs if r.alone]
        sem = threading.Semaphore(int(os.environ.get("VP_JOBS", "4")))
        def w(r):
            with sem:
                self.exec_run(r)
        for r in alone:
            self.exec_run(r)
        ts = [threading.Thread(target=w, args=(r,)) for r in conc]
        [t.start() for t in ts]
        [t.join() for t in ts]
        return self.report(chk, t0, tb)

    def report(self, chk, t0, tb):
        known = []
        kf = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(kf):
            for l in open(kf):
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
                if m and m.group(1) == self.pid:
                    known.append((m.group(2), m.group(3)))
        new, seen_known = {}, {}
        for k, d, r in self.viol:
            k = k.replace(" ", "_")
            hit = next((x for x in known if x[0] == k), None)
            if hit:
                seen_known[hit[0]] = hit[1]
            else:
                new.setdefault(k, (d, r))
        for k, desc in known:
            print(f"KNOWN-FINDING: property={self.pid} {desc}" + ("" if k in seen_known else " (not observed in this run)"))
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        first = None
        for k, (d, r) in list(new.items())[:20]:
            h = hashlib.sha1(k.encode()).hexdigest()[:10]
            path = os.path.join(VERIF, "replays", f"{self.pid}-{r['run'].name}-{h}.json")
            case = re.match(r"case=(\d+)", d)
            json.dump(dict(property=self.pid, key=k, detail=d, tier=self.tier, seed=self.seed, run=r["run"].name, case=int(case.group(1)) if case else None,
                           command=r["cmd"], replay=f"python3 {VERIF}/vp/check.py {self.pid} --tier {self.tier} --seed {self.seed} --run {r['run'].name}" + (f" --case {case.group(1)}" if case else ""),
                           output_tail=r["text"][-8000:]), open(path, "w"), indent=1)
            print(f"VIOLATION property={self.pid} replay={path}")
            print(f"  key: {k}")
            print("  " + d[:1500].replace("\n", "\n  "))
        # evidence
        cov = dict(evaluations=0, distinct_nontrivial=0, rule=chk["rule"], samples=[], interleavings_seen=0, runs={}, monitors={})
        for r in self.results:
            res = r["res"]
            if not res:
                continue
            n = r["run"].name
            cov["evaluations"] += res["evaluations"]
            cov["distinct_nontrivial"] += res["distinct"]
            cov["interleavings_seen"] += res["interleavings"]
            cov["samples"] += [f"[{n}] {s}" for s in res["samples"][:4]]
            cov["runs"][n] = dict(flavour=r["run"].flavour, evaluations=res["evaluations"], distinct=res["distinct"], interleavings=res["interleavings"], wall_s=round(r["wall"], 2))
            for k, c in res["counters"].items():
                cov["monitors"][f"{n}.{k}"] = c
        if not cov["samples"]:
            cov["samples"] = ["(no case completed)"]
        cov["build_s"] = round(tb, 1)
        cov["known_findings_observed"] = sorted(seen_known)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=chk["level"], coverage=cov, assumptions=chk["assumptions"], wall_s=round(time.time() - t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", f".{self.pid}.tmp")
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", f"{self.pid}.json"))
        for n in self.notes:
            print("note:", n)
        print(f"{self.pid} {self.tier} seed={self.seed}: {cov['evaluations']} evaluations, {cov['distinct_nontrivial']} distinct, {cov['interleavings_seen']} interleavings, "
              f"build {tb:.1f}s, total {time.time() - t0:.1f}s, violations {len(new)}, known {len(seen_known)}")
        if new:
            return 1
        if self.errors:
            for e in self.errors:
                print("ERROR:", e)
            return 2
        if cov["evaluations"] == 0:
            print("ERROR: nothing was evaluated")
            return 2
        shutil.rmtree(self.work, ignore_errors=True)
        return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--run")
    ap.add_argument("--case", type=int)
    a = ap.parse_args()
    if a.list or not a.pid:
        print(" ".join(sorted(R.CHECKS)))
        return 0
    return Runner(a.pid, a.tier, a.seed, a.case, a.run).go()


if __name__ == "__main__":
    try:
        rc = main()
    except KeyboardInterrupt:
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
