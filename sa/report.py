"""Collects obligations, violations, undecided instances; writes evidence and replay files."""
import json, os, sys, time, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.oblig = {}           # rule -> [discharged, violated, undecided]
        self.viol = []            # dicts
        self.undecided = []
        self.functions = set()
        self.notes = []
        self.samples = {}
        self.sites = set()

    def ok(self, rule, key=None):
        self.oblig.setdefault(rule, [0, 0, 0])[0] += 1
        if key is not None:
            l = self.samples.setdefault(rule, [])
            if len(l) < 3:
                l.append(str(key)[:200])

    def bad(self, rule, key, where, detail):
        """key: stable identification of the instance (used for known findings)"""
        self.oblig.setdefault(rule, [0, 0, 0])[1] += 1
        self.viol.append({"rule": rule, "key": key, "where": where, "detail": detail})

    def unk(self, rule, key, why):
        self.oblig.setdefault(rule, [0, 0, 0])[2] += 1
        self.undecided.append({"rule": rule, "key": str(key), "why": str(why)[:300]})

    def total(self):
        return sum(sum(x) for x in self.oblig.values())

    def saw(self, funcs):
        for f in funcs:
            self.functions.add("%s:%s" % f if isinstance(f, tuple) else f)


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["known"] if k["property"] == pid]


def sites():
    import interp
    return interp.SITES


def _worker(args):
    pid, fn, items = args
    R = Report(pid)
    for it in items:
        try:
            fn(R, *it)
        except RecursionError as e:
            R.unk("engine", it[0], "recursion depth")
        except Exception as e:                      # an input the analysis has no rule for is undecided, never an alarm
            import interp
            if not isinstance(e, interp.Undecided):
                import traceback
                R.notes.append("%s: %s" % (it[0], traceback.format_exc()[-700:]))
            R.unk("engine", it[0], "%s: %s" % (type(e).__name__, e))
    return R.oblig, R.viol, R.undecided, R.functions, R.notes, R.samples, set(sites())


def pmap(R, fn, items, jobs=None, single=False):
    """apply fn(R, *item) to all items on all cores; results are merged in item order of the chunks; single: one item per task"""
    import multiprocessing as mp
    import lab
    lab.prog()
    items = list(items)
    jobs = jobs or min(8, os.cpu_count() or 1)
    if jobs <= 1 or (len(items) < 16 and not single):
        parts = [_worker((R.pid, fn, items))]
    else:
        n = len(items) if single else max(1, min(len(items) // 4, jobs * 4))
        chunks = [items[i::n] for i in range(n)]
        with mp.get_context("fork").Pool(jobs) as pool:
            parts = pool.map(_worker, [(R.pid, fn, c) for c in chunks], 1)
    for ob, vi, un, fu, no, sa, si in parts:
        R.sites |= si
        for k, v in ob.items():
            t = R.oblig.setdefault(k, [0, 0, 0])
            for i in range(3):
                t[i] += v[i]
        R.viol += vi
        R.undecided += un
        R.functions |= fu
        R.notes += no
        for k, v in sa.items():
            l = R.samples.setdefault(k, [])
            l += v[:max(0, 3 - len(l))]
    R.viol.sort(key=lambda v: (v["rule"], v["key"]))
