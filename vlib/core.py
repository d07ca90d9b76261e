"""Worker side of a check: cases, verdicts, observation counters."""
import json
import os
import time
import traceback
import zlib

import numpy as np


class Violation(Exception):
    """The monitored code broke the property; args[0] says how."""


class Skip(Exception):
    """The generated case is outside the property's domain."""


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        if x.size > 40:
            return 'array%s |max|=%.6g' % (x.shape, np.abs(x).max())
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)[:300]


class Case(object):
    def __init__(self, ctx, kind, idx):
        self.ctx, self.kind, self.idx = ctx, kind, idx
        self.rng = np.random.default_rng([ctx.seed, zlib.crc32(ctx.pid.encode()), zlib.crc32(kind.encode()), idx])
        self.desc = {}
        self.nontrivial = False
        self.key = None

    def note(self, **kw):
        self.desc.update(kw)

    # ---- verdicts of the oracle
    def ok(self, cond, msg, **data):
        self.ctx.evaluations += 1
        if not cond:
            self.desc.update(data)
            raise Violation(msg)

    def near(self, err, tol, msg, **data):
        self.ctx.evaluations += 1
        d = self.ctx.margins
        if np.isfinite(err) and err/tol > d.get(msg, [0.])[0]:
            d[msg] = [float(err/tol), '%s#%d %s' % (self.kind, self.idx, jsonable(data))]
        if not (err <= tol):
            self.desc.update(data)
            raise Violation('%s: deviation %.3e exceeds %.1e' % (msg, err, tol))

    def known(self, key, msg):
        """A deviation that equals a recorded defect mechanism."""
        self.ctx.evaluations += 1
        if key in self.ctx.known_keys:
            self.ctx.known_hits[key] = self.ctx.known_hits.get(key, 0) + 1
        else:
            raise Violation('%s (mechanism %s, not a recorded finding)' % (msg, key))

    def seen(self, *key):
        """This case is non-trivial and distinct by this key."""
        self.nontrivial = True
        self.ctx.keys.add('|'.join(str(k) for k in key))


class Ctx(object):
    def __init__(self, pid, tier, seed, shard, nshards, scratch, known_keys, budget, curfile, only=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.shard, self.nshards = shard, nshards
        self.scratch = scratch
        self.known_keys = set(known_keys)
        self.deadline = time.time() + budget
        self.curfile = curfile
        self.only = only
        self.evaluations = 0
        self.cases = 0
        self.keys = set()
        self.events = {}
        self.samples = []
        self.sample_kinds = {}
        self.violations = []
        self.known_hits = {}
        self.errors = []
        self.skipped = 0
        self.margins = {}
        self.timed_out = []
        self.case = None

    @property
    def quick(self):
        return self.tier == 'quick'

    def count(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def _in_code(self, tb):
        for fr in traceback.extract_tb(tb):
            f = fr.filename
            if '/vlib/' in f:
                continue
            if self.scratch in f and '/panels/' in f.replace(self.scratch, ''):
                return True
            if f.startswith('panels/') or f.endswith('.pyx'):
                return True
        return False

    def run(self, kind, nquick, nthorough, func, every_shard=False):
        """func(case) for the cases of this shard."""
        n = nquick if self.quick else nthorough
        done = 0
        for idx in range(n):
            if not every_shard and idx % self.nshards != self.shard:
                continue
            if self.only is not None and self.only != (kind, idx):
                continue
            # on a slow machine the later kinds still get a share of their cases
            if time.time() > self.deadline and done >= max(2, 0.1*n/self.nshards):
                self.timed_out.append('%s@%d/%d' % (kind, idx, n))
                return
            if len(self.violations) >= 3:
                return
            done += 1
            case = Case(self, kind, idx)
            self.case = case
            with open(self.curfile, 'w') as f:
                json.dump({'kind': kind, 'idx': idx}, f)
            bad = None
            try:
                func(case)
            except Violation as e:
                bad = str(e)
            except Skip:
                self.skipped += 1
                continue
            except MemoryError:
                self.errors.append('%s#%d: MemoryError' % (kind, idx))
            except Exception as e:
                text = traceback.format_exc()
                if self._in_code(e.__traceback__):
                    bad = 'valid use raised %s: %s' % (type(e).__name__, str(e)[:300])
                    case.desc['traceback'] = text[-2500:]
                else:
                    self.errors.append('%s#%d: %s' % (kind, idx, text[-2500:]))
            self.cases += 1
            if bad is not None:
                self.violations.append({'kind': kind, 'idx': idx, 'what': bad, 'case': jsonable(case.desc)})
            elif case.nontrivial and self.sample_kinds.get(kind, 0) < 1:
                self.sample_kinds[kind] = 1
                self.samples.append({'kind': kind, 'idx': idx, 'case': jsonable(case.desc)})
        with open(self.curfile, 'w') as f:
            json.dump(None, f)

    def result(self):
        return dict(evaluations=self.evaluations, cases=self.cases, keys=sorted(self.keys),
                    events=self.events, samples=self.samples, violations=self.violations,
                    known_hits=self.known_hits, errors=self.errors, skipped=self.skipped,
                    margins=self.margins, timed_out=self.timed_out)
