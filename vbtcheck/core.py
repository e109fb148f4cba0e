"""Core of the property-check machinery: facets, violations, case recording."""
import hashlib
import json
import math
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
SCRATCH = os.environ.get("VBTCHECK_SCRATCH", "/tmp")


class Violation(Exception):
    """The property does not hold for the case at hand.

    `sig` names the call site / kind of failure; the known-findings file refers to it."""

    def __init__(self, msg, sig=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.sig = sig


class Facet:
    """One executable statement of (a part of) a property.

    * `strategy`: zero-argument callable returning a Hypothesis strategy of plain (JSON-able) cases
    * `check(case)`: raises `Violation` if the property does not hold, otherwise returns
      an iterable of labels; the label "nt" marks the case as non-trivial
    * `quick`/`thorough`: number of generated cases per tier (spread over shards)
    """

    def __init__(self, name, strategy, check, quick=100, thorough=None, rule="", shards=1, tshards=8):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.rule = rule
        self.shards = shards
        self.tshards = tshards


def jdump(case):
    return json.dumps(case, sort_keys=True, default=_default)


def _default(o):
    import numpy as np
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, tuple):
        return list(o)
    raise TypeError(type(o))


def chash(case):
    return hashlib.sha1(jdump(case).encode()).hexdigest()[:16]


def canon(case):
    """JSON round-trip, so that a generated case and its replay are the same object."""
    return json.loads(jdump(case))


def setup_path():
    """Import /repo's vectorbt and the offline Hypothesis without shadowing the venv's packages."""
    sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(1, VERIF)
    try:
        import hypothesis  # noqa
    except ImportError:
        for cand in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
            if os.path.isdir(os.path.join(cand, "hypothesis")):
                d = os.path.join(SCRATCH, "hyplib")
                if not os.path.isdir(d):
                    os.makedirs(d)
                    for n in os.listdir(cand):
                        if n in ("hypothesis", "sortedcontainers", "attr", "attrs") or n.startswith("_hypothesis_"):
                            if n.endswith(".so") or n.endswith(".py") or os.path.isdir(os.path.join(cand, n)):
                                os.symlink(os.path.join(cand, n), os.path.join(d, n))
                sys.path.append(d)
                break
        import hypothesis  # noqa


def tame_hypothesis():
    """Make generation independent of the source text of /repo (Hypothesis mines literals of local modules)."""
    try:
        from hypothesis.internal.conjecture import providers
        from hypothesis.internal.constants_ast import Constants
        empty = Constants()
        providers._get_local_constants = lambda: empty
    except Exception:
        pass


class Runner:
    """Runs one (facet, shard) task in this process."""

    def __init__(self, facet, n, seed, known, cur_path, deadline, shrink_s=40.0):
        self.facet = facet
        self.n = n
        self.seed = seed
        self.known = known
        self.cur_path = cur_path
        self.deadline = deadline
        self.shrink_s = shrink_s
        self.evaluations = 0
        self.nontrivial = 0
        self.hashes = set()
        self.labels = {}
        self.samples = []
        self.known_hits = {}
        self.fail = None  # (case, msg)
        self.fail_t = None
        self.truncated = False

    def one(self, case):
        now = time.time()
        if self.fail is None and now > self.deadline:
            self.truncated = True
            return
        if self.fail_t is not None and now - self.fail_t > self.shrink_s:
            return
        case = canon(case)
        with open(self.cur_path, "w") as f:
            f.write(json.dumps({"facet": self.facet.name, "case": case}))
        err = None
        try:
            labels = self.facet.check(case)
        except Violation as e:
            if e.sig is not None and e.sig in self.known:
                self.known_hits[e.sig] = self.known_hits.get(e.sig, 0) + 1
                labels = ["known:" + e.sig]
            else:
                err = e.msg
        except Exception as e:
            tb = traceback.format_exc()
            err = "unexpected %s: %s\n%s" % (type(e).__name__, e, tb[-2500:])
        if err is not None:
            if self.fail_t is None:
                self.fail_t = now
            self.fail = (case, err)
            raise AssertionError(err[:200])
        if self.fail is None:
            self.evaluations += 1
            labels = list(labels or [])
            for l in labels:
                self.labels[l] = self.labels.get(l, 0) + 1
            if "nt" in labels:
                h = chash(case)
                if h not in self.hashes:
                    self.hashes.add(h)
                    self.nontrivial += 1
                    if len(self.samples) < 2:
                        s = jdump(case)
                        if len(s) < 1500:
                            self.samples.append(json.loads(s))

    def run(self):
        import hypothesis as hy
        tame_hypothesis()

        @hy.seed(self.seed)
        @hy.settings(max_examples=self.n, database=None, deadline=None, derandomize=False,
                     print_blob=False, report_multiple_bugs=False,
                     suppress_health_check=list(hy.HealthCheck),
                     phases=[hy.Phase.generate, hy.Phase.shrink])
        @hy.given(self.facet.strategy())
        def test(case):
            self.one(case)

        herr = None
        try:
            test()
        except BaseException as e:
            if self.fail is None:
                herr = traceback.format_exc()
        return dict(facet=self.facet.name, evaluations=self.evaluations, nontrivial=self.nontrivial,
                    hashes=sorted(self.hashes), labels=self.labels, samples=self.samples,
                    known_hits=self.known_hits, truncated=self.truncated,
                    fail=None if self.fail is None else dict(case=self.fail[0], msg=self.fail[1]),
                    herr=herr)
