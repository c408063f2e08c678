"""The runner all checks share: facets over Hypothesis strategies, forked workers, replay files, evidence.

A check is a file in /verif/checks with one Check object and a number of facets. A facet is
    @C.facet("name", strategy, quick=N, thorough=M)
    def _(case): ...
where the strategy makes plain JSON-able cases (dict, list, float, int, str) and the body raises when the property is
broken for this case. Everything random comes from the strategy; bulk data is derived from an integer drawn by it.

Outcomes: exit 0 (held), exit 1 with a VIOLATION line (a facet body raised, or the code under test crashed or hung
on a journalled case), exit 3 (harness or build error: no statement about the property)."""

import os
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
os.environ["LC_ALL"] = "C.UTF-8"

import collections
import hashlib
import json
import mmap
import pickle
import signal
import struct
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.append(os.path.join(VERIF, "lib"))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

STALL_S = 240
TOTAL_S = {"quick": 840, "thorough": 6 * 3600}


class Violation(AssertionError):
    pass


class HarnessError(Exception):
    """Something is wrong with the harness (not with the code under test)"""


_cur = None      # the running _Worker


def label(s):
    if _cur is not None:
        _cur.labels[s] += 1


def trivial():
    if _cur is not None:
        _cur.is_trivial = True


def reject():
    """This case is outside the domain of the property"""
    if _cur is not None:
        _cur.rejected += 1
        _cur.is_trivial = True
    raise _Reject()


class _Reject(Exception):
    pass


def note(key, val):
    """Keep the maximum of a measured quantity, for the evidence"""
    if _cur is not None:
        _cur.notes[key] = max(_cur.notes.get(key, float("-inf")), float(val))


def known(key, msg):
    """The case hits a finding. Listed: count it. Not listed: a violation"""
    if _cur is not None and key in _cur.known:
        _cur.known_hit.setdefault(key, msg)
        _cur.is_trivial = True
        raise _Reject()
    raise Violation(msg)


class _Worker:
    def __init__(self, known):
        self.labels = collections.Counter()
        self.notes = {}
        self.n = 0
        self.rejected = 0
        self.distinct = set()
        self.samples = []
        self.is_trivial = False
        self.known = known
        self.known_hit = {}
        self.fail = None


def _jsonable(o):
    import numpy as np
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, bytes):
        return {"__bytes__": o.decode("latin1")}
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    raise TypeError(repr(o))


def _unjson(o):
    if isinstance(o, dict):
        if set(o) == {"__bytes__"}:
            return o["__bytes__"].encode("latin1")
        return {k: _unjson(v) for k, v in o.items()}
    if isinstance(o, list):
        return [_unjson(x) for x in o]
    return o


class Facet:
    def __init__(self, name, strategy, cases, body, quick, thorough, shards):
        self.name, self.strategy, self.cases, self.body = name, strategy, cases, body
        self.quick, self.thorough, self.shards = quick, thorough, shards


class Check:
    def __init__(self, pid, title, rule, technique="property-based testing (Hypothesis)", assumptions=()):
        self.pid, self.title, self.rule = pid, title, rule
        self.assumptions = list(assumptions)
        self.facets = []
        self.prepare = []      # run once in the parent, after the build, before the fork

    def facet(self, name, strategy=None, quick=200, thorough=None, shards=1, cases=None):
        """strategy: a Hypothesis strategy, or a function of no arguments that makes one. Or cases: a list, or a
        function(tier) that makes one, to go through completely"""
        assert all(f.name != name for f in self.facets)

        def deco(f):
            self.facets.append(Facet(name, strategy, cases, f, quick, thorough or 20 * quick, shards))
            return f
        return deco

    # ------------------------------------------------------------------------------------------------------
    def _known(self):
        out = {}
        p = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith("finding: property=" + self.pid + " "):
                    key, _, text = line.split(" ", 2)[2].partition(" ")
                    out[key.replace("key=", "")] = text
        return out

    def _run_facet(self, f, shard, tier, seed, mm, n_override):
        global _cur
        import random
        w = _cur = _Worker(self._known())
        body = f.body
        n = f.quick if tier == "quick" else f.thorough
        n = n_override or n

        def one(case):
            s = json.dumps(case, default=_jsonable, sort_keys=True)
            b = s.encode()
            mm.seek(16)
            if len(b) < len(mm) - 32:
                mm.write(b)
            mm.seek(0)
            w.n += 1
            mm.write(struct.pack("<QQ", w.n, len(b)))
            w.is_trivial = False
            case = _unjson(json.loads(s))     # what a replay will see
            try:
                body(case)
            except _Reject:
                pass
            except HarnessError:
                raise
            except Exception as e:
                tb = traceback.format_exc(limit=-6)
                w.fail = (s, "%s: %s" % (type(e).__name__, e), tb)
                raise
            if not w.is_trivial:
                h = hashlib.sha1(b).digest()[:10]
                if h not in w.distinct:
                    w.distinct.add(h)
                    if len(w.samples) < 2 or (len(w.samples) < 4 and w.n % 97 == 0):
                        w.samples.append(s if len(s) < 1200 else s[:1200] + "...")

        harness = None
        try:
            if f.cases is not None:
                cs = f.cases(tier) if callable(f.cases) else f.cases
                for c in list(cs)[shard::f.shards]:
                    one(c)
            else:
                import hypothesis
                import hypothesis.internal.conjecture.engine as engine
                engine.MAX_SHRINKING_SECONDS = 45 if tier == "quick" else 300
                H = hypothesis.HealthCheck
                strat = f.strategy() if not hasattr(f.strategy, "example") else f.strategy

                @hypothesis.seed(seed * 1000 + shard)
                @hypothesis.settings(max_examples=max(1, (n + f.shards - 1) // f.shards), database=None, deadline=None,
                                     report_multiple_bugs=False, print_blob=False,
                                     phases=[hypothesis.Phase.generate, hypothesis.Phase.shrink],
                                     suppress_health_check=[H.too_slow, H.data_too_large, H.large_base_example])
                @hypothesis.given(strat)
                def test(case):
                    one(case)
                test()
        except BaseException as e:
            if w.fail is None:
                harness = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())
            elif isinstance(e, HarnessError):
                harness = traceback.format_exc()
        return dict(n=w.n, rejected=w.rejected, distinct=len(w.distinct), labels=dict(w.labels), notes=w.notes,
                    samples=w.samples, known_hit=w.known_hit, fail=None if harness else w.fail, harness=harness)

    # ------------------------------------------------------------------------------------------------------
    def write_replay(self, facet, case_json, msg, tb, seed, tier):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        name = "%s-%s-%s.json" % (self.pid, facet, hashlib.sha1(case_json.encode()).hexdigest()[:8])
        p = os.path.join(d, name)
        with open(p, "w") as fd:
            json.dump(dict(property=self.pid, facet=facet, message=msg, traceback=tb, seed=seed, tier=tier,
                           rerun="python3 checks/%s.py --replay %s" % (self.pid, p), case=json.loads(case_json)), fd, indent=1)
        return p

    def main(self):
        import argparse
        ap = argparse.ArgumentParser()
        ap.add_argument("--replay")
        ap.add_argument("--facet")
        ap.add_argument("--n", type=int)
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
        ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
        ap.add_argument("-v", action="store_true")
        args = ap.parse_args()
        try:
            rc = self._main(args)
        except SystemExit:
            raise
        except BaseException:
            traceback.print_exc()
            print("ERROR: harness failure in %s" % self.pid)
            rc = 3
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(rc)

    def _main(self, args):
        t0 = time.time()
        import hypothesis  # noqa
        for p in self.prepare:
            p()
        facets = [f for f in self.facets if not args.facet or f.name in args.facet.split(",")]
        if args.replay:
            r = json.load(open(args.replay))
            f = [f for f in self.facets if f.name == r["facet"]][0]
            global _cur
            _cur = _Worker(self._known())
            try:
                f.body(_unjson(r["case"]))
            except _Reject:
                print("replay: the case is known or rejected")
                return 0
            except Exception:
                traceback.print_exc()
                print("VIOLATION property=%s replay=%s" % (self.pid, args.replay))
                return 1
            print("replay: the property holds on this case")
            return 0

        work = os.path.join(VERIF, ".work")
        os.makedirs(work, exist_ok=True)
        todo = [(f, s) for f in facets for s in range(f.shards)]
        running = {}
        results = []
        fails = []
        errors = []
        tier = args.tier if args.tier in ("quick", "thorough") else "quick"
        stop = False
        while todo or running:
            while todo and len(running) < args.jobs and not stop:
                f, s = todo.pop(0)
                mm = mmap.mmap(-1, 4 << 20)
                fd, path = tempfile.mkstemp(dir=work, prefix=self.pid)
                os.close(fd)
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.setpgid(0, 0)
                        log = os.open(path + ".log", os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
                        if not args.v:
                            os.dup2(log, 1)
                            os.dup2(log, 2)
                        r = self._run_facet(f, s, tier, args.seed, mm, args.n)
                        with open(path, "w") as fd:
                            json.dump(r, fd, default=_jsonable)
                    except BaseException:
                        traceback.print_exc()
                        os._exit(7)
                    os._exit(0)
                running[pid] = [f, s, mm, path, time.time(), 0, time.time()]
            if not running:
                break
            time.sleep(0.02)
            for pid in list(running):
                f, s, mm, path, t, cnt, tc = running[pid]
                p, status = os.waitpid(pid, os.WNOHANG)
                c, ln = struct.unpack("<QQ", mm[:16])
                if c != cnt:
                    running[pid][5:7] = [c, time.time()]
                hung = False
                if p == 0:
                    if c and time.time() - running[pid][6] > STALL_S:
                        hung = True
                    elif time.time() - t0 < TOTAL_S[tier]:
                        continue
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except OSError:
                        os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                del running[pid]
                r = None
                try:
                    r = json.load(open(path))
                except (OSError, ValueError):
                    pass
                log = open(path + ".log", errors="replace").read()[-2500:] if os.path.exists(path + ".log") else ""
                for x in (path, path + ".log"):
                    if os.path.exists(x):
                        os.unlink(x)
                case = bytes(mm[16:16 + ln]).decode(errors="replace") if c and ln < len(mm) - 32 else None
                mm.close()
                name = f.name
                if p == 0 and hung:
                    fails.append((name, case or "null", "did not return within %d s" % STALL_S, log))
                elif p == 0:
                    errors.append("%s: out of time" % name)
                elif os.WIFSIGNALED(status):
                    sig = os.WTERMSIG(status)
                    if sig in (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGABRT, signal.SIGILL) and case:
                        fails.append((name, case, "the process died with signal %d in this case" % sig, log))
                    else:
                        errors.append("%s: worker died with signal %d\n%s" % (name, sig, log))
                elif r is None and os.WEXITSTATUS(status) == 0 and case:
                    # something called exit(): LAPACK's xerbla() does
                    fails.append((name, case, "the process exited in this case", log))
                elif r is None:
                    errors.append("%s: worker exited with %d\n%s" % (name, os.WEXITSTATUS(status), log))
                elif r["harness"]:
                    errors.append("%s: %s" % (name, r["harness"]))
                elif r["fail"]:
                    fails.append((name, r["fail"][0], r["fail"][1], r["fail"][2]))
                if r:
                    results.append((name, r, time.time() - t))
                if fails and not args.v:
                    todo = []      # one violation decides; let what runs finish
        # ---- report
        agg = {}
        for name, r, dt in results:
            a = agg.setdefault(name, dict(evaluations=0, distinct_nontrivial=0, rejected=0, labels=collections.Counter(),
                                          notes={}, samples=[], wall_s=0))
            a["evaluations"] += r["n"]
            a["distinct_nontrivial"] += r["distinct"]
            a["rejected"] += r["rejected"]
            a["labels"].update(r["labels"])
            for k, v in r["notes"].items():
                a["notes"][k] = max(v, a["notes"].get(k, float("-inf")))
            a["samples"] = (a["samples"] + r["samples"])[:3]
            a["wall_s"] = round(max(a["wall_s"], dt), 2)
        for a in agg.values():
            a["labels"] = dict(sorted(a["labels"].items()))
        ksum = {}
        for name, r, dt in results:
            ksum.update(r["known_hit"])
        if args.v or os.environ.get("VERIF_VERBOSE"):
            for k, a in agg.items():
                print("  %-34s n=%d distinct=%d rej=%d %.1fs notes=%s labels=%s" %
                      (k, a["evaluations"], a["distinct_nontrivial"], a["rejected"], a["wall_s"],
                       {x: float("%.3g" % y) for x, y in a["notes"].items()}, a["labels"]))
        ev = dict(property=self.pid, tier=tier, seed=args.seed, level="exploration",
                  coverage=dict(evaluations=sum(a["evaluations"] for a in agg.values()),
                                distinct_nontrivial=sum(a["distinct_nontrivial"] for a in agg.values()),
                                rule=self.rule,
                                samples=[dict(facet=k, case=s) for k, a in agg.items() for s in a["samples"][:2]],
                                facets={k: {x: y for x, y in a.items() if x != "samples"} for k, a in agg.items()}),
                  assumptions=self.assumptions, wall_s=round(time.time() - t0, 2), violations=len(fails))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        if not args.facet:
            with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fd:
                json.dump(ev, fd, indent=1)
        for k, m in ksum.items():
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, k, self._known().get(k, m)))
        for name, case, msg, tb in fails:
            p = self.write_replay(name, case, msg, tb, args.seed, tier)
            print("facet %s: %s" % (name, msg[:1500]))
            if args.v:
                print(tb)
                print(case[:3000])
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        for e in errors:
            print("ERROR: " + e)
        if fails:
            return 1
        if errors:
            return 3
        print("%s: held on %d cases (%d distinct non-trivial) in %.1f s" %
              (self.pid, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], time.time() - t0))
        return 0


_bdir = None


def build_and_import():
    """Builds /repo and puts it first on sys.path. Call at the top of a check"""
    global _bdir
    if _bdir is None:
        import mvbuild
        try:
            _bdir = mvbuild.build()
        except mvbuild.BuildError as e:
            print("ERROR: " + str(e))
            sys.stdout.flush()
            os._exit(4)
        sys.path.insert(0, _bdir)
        try:
            import mrcal
        except Exception:
            traceback.print_exc()
            print("ERROR: cannot import the built mrcal")
            sys.stdout.flush()
            os._exit(4)
        if not os.path.realpath(mrcal.__file__).startswith(os.path.realpath(_bdir) + "/"):
            print("ERROR: imported %s" % mrcal.__file__)
            os._exit(4)
    return _bdir
