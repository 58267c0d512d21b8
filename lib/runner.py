"""Parent side of a check: builds the variants, runs the shards, attributes crashes and hangs to the case that
caused them, replays them, matches them against the known findings and writes the evidence."""
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import types

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from lib import build as B  # noqa: E402

# the parent only lists the shards: it never loads the extension, the checks' imports get stand-ins here
for _name in ("pyfastutil", "pyfastutil.ints", "pyfastutil.objects", "pyfastutil.unsafe"):
    _module = types.ModuleType(_name)
    _module.__getattr__ = lambda attr: type(attr, (), {})
    sys.modules[_name] = _module

EVIDENCE = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known-findings.txt")

HANG_SECONDS = 75
BUDGET = {"quick": 480, "thorough": 7200}


def known_findings(prop):
    """finding: property=<id> key=<variant-independent violation key> <what fails>"""
    result = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(" ", 2)[2].strip()
                key, _, what = rest.partition(" ")
                result.append((key.removeprefix("key="), what))
    return result


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.mod = importlib.import_module("checks." + prop)
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.lock = threading.Lock()
        self.stats, self.signatures, self.samples = {}, set(), []
        self.violations, self.known_hits, self.notes = [], {}, []
        self.stop = False
        self.start = time.time()
        self.deadline = self.start + BUDGET[tier]
        self.known = known_findings(prop)
        self.packages = {}
        self.extra_env = {}
        self.serial = 0

    # -- one child ---------------------------------------------------------------------------
    def child(self, shard, hang=HANG_SECONDS):
        """Runs a child over shard, returns (status, last progress record, records, stderr tail)."""
        with self.lock:
            self.serial += 1
            base = os.path.join(self.work, "s%d" % self.serial)
        with open(base + ".json", "w") as f:
            json.dump(shard, f)
        progress, result = base + ".progress", base + ".result"
        open(result, "w").close()
        variant = shard["variant"]
        env = B.env_for(variant, self.packages[variant])
        for k, v in shard.get("env", {}).items():
            if k == "LD_PRELOAD" and env.get(k):
                v = v + " " + env[k]
            env[k] = v
        cwd = base + ".dir"
        os.mkdir(cwd)
        cmd = list(shard.get("prefix", [])) + [B.PYTHON, os.path.join(VERIF, "lib", "child.py"), self.prop,
                                               base + ".json", progress, result]
        err_path = base + ".err"
        status = None
        with open(err_path, "wb") as err:
            p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=err, stderr=err, env=env, cwd=cwd,
                                 start_new_session=True)
            last, changed = None, time.time()
            while True:
                try:
                    p.wait(0.2 if time.time() - changed < 5 else 1)
                    break
                except subprocess.TimeoutExpired:
                    pass
                now = self.read_progress(progress)
                if now != last:
                    last, changed = now, time.time()
                elif time.time() - changed > hang:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    status = "hang"
                    break
                if self.stop and not shard.get("replay"):
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    status = "stopped"
                    break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        last = self.read_progress(progress)
        records = []
        with open(result) as f:
            for line in f:
                try:
                    records.append(json.loads(line))
                except ValueError:
                    pass
        with open(err_path, "rb") as f:
            f.seek(0, 2)
            size = f.tell()
            f.seek(max(0, size - 200000))
            err_text = f.read().decode("utf8", "replace")
        if status is None:
            ended = any(r["t"] == "end" for r in records)
            if ended:
                # the interpreter's own shutdown runs destructors of the code under test
                status = "ok" if p.returncode == 0 else "exit %d" % p.returncode
            elif p.returncode == -signal.SIGKILL:
                status = "killed"
            else:
                status = "exit %d" % p.returncode
        shutil.rmtree(cwd, ignore_errors=True)
        for ext in (".json", ".progress", ".result", ".err"):
            try:
                os.unlink(base + ext)
            except OSError:
                pass
        return status, last, records, err_text

    @staticmethod
    def read_progress(path):
        try:
            with open(path, "rb") as f:
                return json.loads(f.read().split(b"\0")[0])
        except (OSError, ValueError):
            return None

    # -- results -----------------------------------------------------------------------------
    def absorb(self, records):
        for r in records:
            if r["t"] == "end":
                with self.lock:
                    for k, v in r["stats"].items():
                        if k.startswith("max:"):
                            self.stats[k] = max(self.stats.get(k, 0), v)
                        else:
                            self.stats[k] = self.stats.get(k, 0) + v
                    self.signatures.update(r["signatures"])
                    for s in r["samples"]:
                        if len(self.samples) < 6:
                            self.samples.append(s)

    def report(self, shard, case, kind, detail, lo=None):
        key = kind
        for known, what in self.known:
            if key == known:
                with self.lock:
                    self.known_hits[known] = what
                return
        with self.lock:
            if len(self.violations) >= 5:
                return
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, "%s-%s-%d-%d.json" % (self.prop, self.tier, self.seed,
                                                               len(self.violations)))
            record = {"property": self.prop, "tier": self.tier, "seed": self.seed, "kind": kind,
                      "detail": detail, "case": case,
                      "shard": dict(shard, lo=case if lo is None else lo, hi=case + 1, deadline=None)}
            with open(path, "w") as f:
                json.dump(record, f, indent=1)
            self.violations.append(record)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  %s (case %s of %s)\n  %s" % (kind, case, shard["name"],
                                                  "\n  ".join(l[:500] for l in str(detail).splitlines()[:60])))
            sys.stdout.flush()
            self.stop = True

    @staticmethod
    def crash_kind(status, err):
        for line in err.splitlines():
            if "ERROR: AddressSanitizer" in line:
                return "asan-" + line.split("AddressSanitizer:", 1)[1].split()[0].strip(":")
            if "runtime error:" in line:
                what = line.split("runtime error:", 1)[1].strip()
                return "ubsan-" + "-".join(what.split()[:4])
        if status.startswith("exit -"):
            try:
                return "crash-" + signal.Signals(int(status[6:])).name
            except ValueError:
                pass
        return "crash-" + status.replace(" ", "-")

    def shard(self, shard):
        """Runs a shard to its end, going on after a case that kills the process."""
        lo = shard["lo"]
        restarts = 0
        while lo < shard["hi"] and not self.stop:
            part = dict(shard, lo=lo)
            status, last, records, err = self.child(part)
            self.absorb(records)
            for r in records:
                if r["t"] == "violation":
                    self.report(shard, r["case"], r["kind"], r["detail"])
            if status in ("ok", "stopped"):
                return
            case = last[1] if last else None
            note = last[2] if last else ""
            if case is None or case == -1:
                self.setup_failed(shard, status, err)
                return
            teardown = case == -2
            if teardown:
                case = shard["hi"] - 1
            if restarts >= 20:
                self.notes.append("shard %s given up after 20 restarts" % shard["name"])
                return
            restarts += 1
            if status == "killed":
                # ended from outside, most likely because memory ran out: run it once more, alone
                self.notes.append("shard %s: ended from outside at case %s, re-run" % (shard["name"], case))
                with self.lock:
                    again, _, recs, err2 = self.child_unlocked(dict(part, lo=case, hi=case + 1, replay=True))
                self.absorb(recs)
                if again not in ("ok", "killed"):
                    self.report(shard, case, self.crash_kind(again, err2), note + "\n" + err2[-4000:])
                lo = case + 1
                continue
            single = dict(part, lo=case, hi=case + 1, replay=True, deadline=None)
            if status == "hang":
                again, last2, recs, err2 = self.child(single, hang=2 * HANG_SECONDS)
                if again == "hang":
                    self.report(shard, case, "hang", "no progress in %d s, twice; %s\n%s"
                                % (2 * HANG_SECONDS, note, err2[-2000:]))
                else:
                    self.notes.append("shard %s case %s was slow (inconclusive), its re-run ended" %
                                      (shard["name"], case))
                lo = case + 1
                continue
            again, last2, recs, err2 = self.child(single)
            if again not in ("ok", "hang", "killed", "stopped"):
                kind, text, start = self.crash_kind(again, err2), err2, case
                note = last2[2] if last2 else note
            else:  # it takes the history before it
                kind, text, start = self.crash_kind(status, err), err, lo
            self.report(shard, case, kind, "%s\n%s" % (note, self.excerpt(text)), start)
            if teardown:
                return
            lo = case + 1

    def child_unlocked(self, shard):
        self.lock.release()
        try:
            return self.child(shard)
        finally:
            self.lock.acquire()

    @staticmethod
    def excerpt(text):
        for mark in ("ERROR: AddressSanitizer", "runtime error:", "Fatal Python error", "WARNING: ThreadSanitizer"):
            i = text.find(mark)
            if i >= 0:
                return text[max(0, i - 200):i + 4500]
        return text[-4500:]

    def setup_failed(self, shard, status, err):
        """The extension could not even be imported or set up: that is what a user sees too."""
        again, last, recs, err2 = self.child(dict(shard, hi=shard["lo"] + 1, replay=True))
        if again == "ok":
            self.notes.append("shard %s: setup failed once" % shard["name"])
            return
        if shard.get("optional"):
            self.notes.append("shard %s could not run here: %s %s" % (shard["name"], again, err2[-300:]))
            return
        self.report(shard, shard["lo"], "setup-" + self.crash_kind(again, err2), self.excerpt(err2))

    # -- everything --------------------------------------------------------------------------
    def main(self, shards=None):
        only = os.environ.get("VERIF_ONLY")
        if shards is None:
            shards = self.mod.shards(self.tier, self.seed)
            if only:
                shards = [s for s in shards if only in s["name"]]
        for s in shards:
            s.setdefault("variant", "plain")
            s.update(seed=self.seed, tier=self.tier)
            if "deadline" not in s:
                s["deadline"] = self.deadline
            s.setdefault("rlimit_mb", 3000 if s["variant"] in ("plain", "level") else 0)
        for v in sorted({s["variant"] for s in shards}):
            self.packages[v] = B.build(v)
        jobs = []
        for s in shards:
            per = max(1, -(-(s["hi"] - s["lo"]) // s.pop("split", 1)))
            for lo in range(s["lo"], s["hi"], per):
                jobs.append(dict(s, lo=lo, hi=min(s["hi"], lo + per)))
        queue = sorted(jobs, key=lambda s: -s.get("weight", 1))
        workers = max(1, min(len(queue), os.cpu_count() or 2))

        def work():
            while not self.stop:
                with self.lock:
                    if not queue:
                        return
                    s = queue.pop(0)
                self.shard(s)

        threads = [threading.Thread(target=work) for _ in range(workers)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()

    def evidence(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        cov = {"evaluations": self.stats.pop("cases", 0), "distinct_nontrivial": len(self.signatures),
               "rule": self.mod.RULE, "samples": self.samples or ["none"]}
        for k in sorted(self.stats):
            cov[k.replace("max:", "max ")] = self.stats[k]
        cov["known findings seen"] = len(self.known_hits)
        if self.notes:
            cov["notes"] = self.notes
        data = {"property": self.prop, "tier": self.tier, "seed": self.seed,
                "level": getattr(self.mod, "LEVEL", "exploration"),
                "coverage": cov, "assumptions": list(getattr(self.mod, "ASSUMPTIONS", [])),
                "wall_s": round(time.time() - self.start, 1), "violations": len(self.violations)}
        path = os.path.join(EVIDENCE, self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(data, f, indent=1)
        os.replace(path + ".tmp", path)
        return data


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = None
    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            replay = json.load(f)
        tier, seed = replay["tier"], replay["seed"]
    run = Run(prop, tier, seed)
    try:
        run.main([replay["shard"]] if replay else None)
    except B.BuildError as e:
        print("BUILD FAILED\n%s" % e)
        return 2
    finally:
        shutil.rmtree(run.work, ignore_errors=True)
    data = run.evidence()
    for key, what in run.known_hits.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    cov = data["coverage"]
    print("%s %s seed=%d: %d cases, %d distinct, %.1f s, %d violation(s)" % (
        prop, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], data["wall_s"], len(run.violations)))
    for n in run.notes:
        print("note:", n)
    if run.violations:
        return 1
    if not replay and not cov["evaluations"]:
        print("nothing was observed")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
