"""Drives one property: fixed regression cases, then generated search in parallel workers, shrinking,
replay files, evidence.  A run is a function of the code, VERIF_SEED and the tier."""
import hashlib
import importlib
import json
import os
import signal
import sys
import tempfile
import time
import traceback

from qv import env
from qv.core import Skip, Violation

KNOWN = os.path.join(env.VERIF, "known_findings.txt")
WORKERS = {"quick": 8, "thorough": 8}
SOFT_LIMIT = {"quick": 240.0, "thorough": 2700.0}  # stop generating, report what was covered
SHRINK_LIMIT = {"quick": 45.0, "thorough": 180.0}
CASE_LIMIT = 240  # seconds: a single case normally takes well under 2


class HarnessError(Exception):
    pass


class Hang(Exception):
    pass


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def digest(text):
    return hashlib.sha256(text.encode()).hexdigest()[:16]


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding: "):
                head, _, text = line[len("finding: "):].partition(" :: ")
                kv = dict(x.split("=", 1) for x in head.split())
                if kv["property"] == prop:
                    out[kv["key"]] = text
    return out


def _alarm(signum, frame):
    raise Hang("no result after %d s" % CASE_LIMIT)


def run_case(part, case):
    """-> ('ok', nontrivial, labels) | ('bad', message, key) | raises HarnessError."""
    from qv.sim import SimUnsupported

    case = json.loads(canon(case))  # what the replay file will hold
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    try:
        r = part.check(case)
        nontrivial, labels = r if isinstance(r, tuple) else (r, [])
        return ("ok", bool(nontrivial), list(labels))
    except Violation as e:
        return ("bad", str(e), e.key)
    except Skip as e:
        return ("ok", False, ["skipped: %s" % e])
    except Hang as e:
        return ("bad", str(e), None)
    except (SimUnsupported, MemoryError, HarnessError) as e:
        raise HarnessError(repr(e)) from e
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # every case is a legal use of the library: it must not raise
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join("%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-4:])
        return ("bad", "unexpected %s: %s [%s]" % (type(e).__name__, str(e)[:300], where), None)
    finally:
        signal.alarm(0)


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.hashes = set()
        self.labels = {}
        self.samples = {}
        self.known = {}
        self.bad = None  # (len, part, case, msg)

    def ok(self, part, case, nontrivial, labels):
        self.evaluations += 1
        for l in [part + ":all"] + [part + ":" + x for x in labels]:
            self.labels[l] = self.labels.get(l, 0) + 1
        if nontrivial:
            h = digest(part + canon(case))
            if h not in self.hashes:
                self.hashes.add(h)
                s = self.samples.setdefault(part, [])
                if len(s) < 4 or (len(self.hashes) & (len(self.hashes) - 1)) == 0:
                    if len(canon(case)) < 3000:
                        s.append(case)
                        del s[:-6]

    def fail(self, part, case, msg):
        self.evaluations += 1
        c = canon(case)
        k = (len(c), c)
        if self.bad is None or k < self.bad[0]:
            self.bad = (k, part, case, msg)


def search(part, tier, seed, count, stats, known, t_end):
    """Generated search of one part in this process."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    failing = {}
    state = {"first_fail": None, "harness": None}

    @hypothesis.seed(seed)
    @settings(
        max_examples=count,
        database=None,
        deadline=None,
        derandomize=False,
        print_blob=False,
        report_multiple_bugs=False,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=list(HealthCheck),
    )
    @given(part.strategy(tier))
    def go(case):
        c = canon(case)
        if c in failing:
            raise Violation(failing[c])
        now = time.time()
        if state["first_fail"] is not None:
            if now - state["first_fail"] > SHRINK_LIMIT[tier]:
                return
        elif now > t_end:
            return
        r = run_case(part, case)
        if r[0] == "ok":
            stats.ok(part.name, case, r[1], r[2])
            return
        if r[2] is not None and r[2] in known:
            stats.known[r[2]] = stats.known.get(r[2], 0) + 1
            stats.evaluations += 1
            return
        failing[c] = r[1]
        if state["first_fail"] is None:
            state["first_fail"] = now
        stats.fail(part.name, case, r[1])
        raise Violation(r[1])

    try:
        go()
    except Violation:
        pass
    except HarnessError:
        raise
    except BaseException as e:
        if stats.bad is None:
            raise HarnessError("generation failed: %r" % e) from e


def die_with_parent():
    try:
        import ctypes

        ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # PR_SET_PDEATHSIG
    except Exception:
        pass


def kill_groups(pids):
    for p in pids:
        try:
            os.killpg(p, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass


def worker(mod, tier, seed, w, nworkers, known, t_end, parts):
    stats = Stats()
    for k, part in enumerate(parts):
        n = part.quick if tier == "quick" else part.thorough
        share = n // nworkers + (1 if w < n % nworkers else 0)
        if share <= 0:
            continue
        left = t_end - time.time()
        # parts share the remaining time, so that a slow early part cannot starve the others
        limit = time.time() + left * max(0.5, 1.0 / (len(parts) - k))
        search(part, tier, (seed * 1000003 + k * 1009 + w) % (1 << 62), share, stats, known, limit)
        if stats.bad is not None:
            break
    return stats


def main(prop, tier, replay=None, only=None, scale=1.0, nworkers=None):
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    mod = importlib.import_module("qv.props." + prop.lower())
    parts = [p for p in mod.PARTS if only is None or p.name in only]
    for p in parts:
        p.quick, p.thorough = int(p.quick * scale), int(p.thorough * scale)
    known = known_findings(prop)
    if replay:
        data = json.load(open(replay))
        part = [p for p in mod.PARTS if p.name == data["part"]][0]
        r = run_case(part, data["case"])
        print(r)
        if r[0] == "bad" and r[2] not in known:
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1
        return 0

    total = Stats()
    # 1. committed regression cases, in this process
    for part in parts:
        for case in part.fixed:
            r = run_case(part, case)
            if r[0] == "ok":
                total.ok(part.name, case, r[1], r[2])
                total.labels[part.name + ":fixed"] = total.labels.get(part.name + ":fixed", 0) + 1
            elif r[2] is not None and r[2] in known:
                total.known[r[2]] = total.known.get(r[2], 0) + 1
                total.evaluations += 1
            elif total.bad is None:
                total.fail(part.name, case, r[1])
    # 2. generated search
    if total.bad is None:
        n = nworkers or WORKERS[tier]
        with tempfile.TemporaryDirectory(prefix="qv-") as tmp:
            pids = {}
            sys.stdout.flush()
            sys.stderr.flush()
            for w in range(n):
                pid = os.fork()
                if pid == 0:
                    code = 0
                    os.setpgid(0, 0)  # a group of its own: whatever it starts ends with it
                    die_with_parent()
                    out = {"error": None}
                    try:
                        st = worker(mod, tier, seed, w, n, known, t0 + SOFT_LIMIT[tier], parts)
                        out.update(
                            evaluations=st.evaluations, hashes=sorted(st.hashes), labels=st.labels,
                            samples=st.samples, known=st.known,
                            bad=None if st.bad is None else list(st.bad[1:]),
                        )
                    except BaseException:
                        out["error"] = traceback.format_exc()
                    try:
                        path = os.path.join(tmp, "%d.json" % w)
                        with open(path + ".part", "w") as f:
                            json.dump(out, f)
                        os.rename(path + ".part", path)
                    except BaseException:
                        code = 3
                    os._exit(code)
                try:
                    os.setpgid(pid, pid)
                except OSError:
                    pass
                pids[pid] = w
            groups = list(pids)
            errors = []
            while pids:
                pid, status = os.waitpid(-1, 0)
                if pid not in pids:
                    continue
                w = pids.pop(pid)
                path = os.path.join(tmp, "%d.json" % w)
                if not os.path.exists(path):
                    errors.append("worker %d died (status %d)" % (w, status))
                    continue
                out = json.load(open(path))
                if out["error"]:
                    errors.append(out["error"])
                    continue
                total.evaluations += out["evaluations"]
                total.hashes.update(out["hashes"])
                for k, v in out["labels"].items():
                    total.labels[k] = total.labels.get(k, 0) + v
                for k, v in out["known"].items():
                    total.known[k] = total.known.get(k, 0) + v
                for k, v in out["samples"].items():
                    total.samples.setdefault(k, []).extend(v)
                if out["bad"]:
                    part_name, case, msg = out["bad"]
                    k = (len(canon(case)), canon(case))
                    if total.bad is None or k < total.bad[0]:
                        total.bad = (k, part_name, case, msg)
                    kill_groups(list(pids))  # our own children; one counterexample is enough
                    for p in list(pids):
                        os.waitpid(p, 0)
                    pids = {}
            kill_groups(groups)  # processes the code under test started and left behind
            if errors and total.bad is None:
                print("HARNESS ERROR in %s:\n%s" % (prop, errors[0][-2500:]), file=sys.stderr)
                return 2

    wall = time.time() - t0
    os.makedirs(env.EVIDENCE, exist_ok=True)
    samples = []
    for name, lst in sorted(total.samples.items()):
        for c in sorted(lst, key=lambda c: len(canon(c)))[-3:]:
            samples.append({"part": name, "case": c})
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": len(total.hashes),
            "rule": mod.RULE,
            "samples": samples,
            "classes": dict(sorted(total.labels.items())),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": 0 if total.bad is None else 1,
    }
    path = os.path.join(env.EVIDENCE, prop + ".json")
    with open(path + ".part", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(path + ".part", path)
    for k, v in sorted(total.known.items()):
        print("KNOWN-FINDING: property=%s %s (%d cases)" % (prop, known[k], v))
    print(
        "%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s"
        % (prop, tier, seed, total.evaluations, len(total.hashes), wall)
    )
    if total.bad is not None:
        _, part_name, case, msg = total.bad
        rdir = os.path.join(env.EVIDENCE, "replays")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%s.json" % (prop, digest(part_name + canon(case))))
        with open(rp, "w") as f:
            json.dump({"property": prop, "part": part_name, "case": case, "message": msg}, f, indent=1)
        print("%s: %s\n  case: %s" % (part_name, msg, canon(case)[:2000]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0
