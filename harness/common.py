"""Shared machinery of the runtime monitors: verdicts, evidence, known findings.

Every check module defines ``run(ctx)``.  Everything random in a check comes
from ``ctx.rng`` (seeded with VERIF_SEED and the property id), every monitored
execution is registered with ``ctx.case`` and every oracle evaluation with
``ctx.observe`` so that the evidence file shows what monitors really saw.
"""
from __future__ import print_function

import hashlib
import json
import logging
import os
import random
import sys
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE_DIR = os.path.join(VERIF, 'evidence')
REPLAY_DIR = os.path.join(EVIDENCE_DIR, 'replay')
KNOWN_FILE = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')

# Generous real-time bound for a *local* event that needs no waiting at all
# (loopback round trip and so on).  Never used to decide ordering; only to turn
# "never happens" into a verdict.
STALL = float(os.environ.get('VERIF_STALL', '20'))


class Inconclusive(Exception):
    """The monitor could not decide (harness trouble, not a violation)."""


class Violated(Exception):
    """Raised to abandon a scenario whose history already broke the property."""


def jsonable(obj, depth=0):
    if depth > 8:
        return repr(obj)[:200]
    if isinstance(obj, (str, int, float, bool)) or obj is None:
        if isinstance(obj, float) and obj != obj:
            return 'nan'
        return obj if not isinstance(obj, str) else obj[:4000]
    if isinstance(obj, bytes):
        return repr(obj)[:2000]
    if isinstance(obj, dict):
        return dict((str(k) if not isinstance(k, bytes) else repr(k), jsonable(v, depth + 1))
                    for k, v in list(obj.items())[:400])
    if isinstance(obj, (list, tuple, set, frozenset)):
        return [jsonable(x, depth + 1) for x in list(obj)[:400]]
    return repr(obj)[:500]


def load_known(prop):
    """Known (recorded, unrepaired) findings of one property.

    Lines look like ``known: property=C06 key=<mechanism-key> <text>``.
    ``fixed:`` lines are documentation and suppress nothing.
    """
    known = {}
    try:
        with open(KNOWN_FILE) as f:
            for line in f:
                line = line.strip()
                if not line.startswith('known:'):
                    continue
                fields = line[len('known:'):].split()
                if len(fields) < 2 or fields[0] != 'property=' + prop:
                    continue
                key = fields[1].split('=', 1)[1]
                known[key] = ' '.join(fields[2:])
    except IOError:
        pass
    return known


class LogCapture(logging.Handler):
    """Counts log records; keeps the texts of errors for diagnosis."""

    def __init__(self):
        super(LogCapture, self).__init__(level=logging.WARNING)
        self.counts = {}
        self.errors = []

    def emit(self, record):
        key = '%s:%s' % (record.name, record.levelname)
        self.counts[key] = self.counts.get(key, 0) + 1
        if record.levelno >= logging.ERROR and len(self.errors) < 400:
            try:
                text = record.getMessage()
                if record.exc_info:
                    text += ' | ' + repr(record.exc_info[1])
            except Exception as e:
                text = 'unformattable %r' % (e,)
            self.errors.append(text[:600])


class Ctx(object):
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.quick = tier != 'thorough'
        self.seed = seed
        self.rng = random.Random('%s/%s' % (prop, seed))
        self.t0 = time.time()
        self.evaluations = 0
        self._distinct = set()
        self.observed = {}
        self.samples = []
        self.violations = []
        self.known = load_known(prop)
        self.known_hit = {}
        self.rule = ''
        self.assumptions = []
        self.extra = {}
        self.lock = threading.RLock()
        self.logs = LogCapture()
        self._max_violations = 15

    # -- time budget -----------------------------------------------------
    def elapsed(self):
        return time.time() - self.t0

    def scale(self, quick, thorough):
        return quick if self.quick else thorough

    def more(self, done, quick, thorough, quick_s=60.0, thorough_s=420.0):
        """Should a loop that has run `done` scenarios run another?"""
        if len(self.violations) >= self._max_violations:
            return False
        budget = quick_s if self.quick else thorough_s
        if self.elapsed() > budget and done > 0:
            return False
        return done < (quick if self.quick else thorough)

    def subrng(self, *key):
        return random.Random('%s/%s/%s' % (self.prop, self.seed, '/'.join(str(k) for k in key)))

    # -- evidence ----------------------------------------------------------
    def case(self, key, nontrivial=True, n=1):
        with self.lock:
            self.evaluations += n
            if nontrivial:
                if not isinstance(key, (bytes, str)):
                    key = repr(key)
                if isinstance(key, str):
                    key = key.encode('utf-8', 'backslashreplace')
                self._distinct.add(hashlib.blake2b(key, digest_size=8).digest())

    def case_bulk(self, n):
        """n enumerated cases, distinct by construction."""
        with self.lock:
            self.evaluations += n
            self._bulk = getattr(self, '_bulk', 0) + n

    def distinct(self):
        return len(self._distinct) + getattr(self, '_bulk', 0)

    def observe(self, what, n=1):
        with self.lock:
            self.observed[what] = self.observed.get(what, 0) + n

    def sample(self, obj, limit=4):
        with self.lock:
            if len(self.samples) < limit:
                self.samples.append(jsonable(obj))

    # -- verdicts ----------------------------------------------------------
    def violation(self, key, what, **data):
        """Record a violation; `key` names the failing mechanism."""
        with self.lock:
            if key in self.known:
                self.known_hit[key] = self.known_hit.get(key, 0) + 1
                return False
            self.violations.append({'key': key, 'what': what, 'data': jsonable(data)})
            return True

    def expect(self, cond, key, what, **data):
        self.observe('oracle_evaluations')
        if not cond:
            self.violation(key, what, **data)
        return bool(cond)

    def require(self, cond, key, what, **data):
        if not self.expect(cond, key, what, **data):
            raise Violated('%s: %s' % (key, what))

    # -- finish --------------------------------------------------------------
    def finish(self, error=None):
        os.makedirs(REPLAY_DIR, exist_ok=True)
        coverage = {
            'evaluations': self.evaluations,
            'distinct_nontrivial': self.distinct(),
            'rule': self.rule or 'see harness/checks/%s.py' % self.prop.lower(),
            'samples': self.samples or ['(none recorded)'],
            'observed': dict(sorted(self.observed.items())),
            'log_records_seen': self.logs.counts,
        }
        coverage.update(self.extra)
        if self.logs.errors:
            coverage['error_log_samples'] = self.logs.errors[:5]
        evidence = {
            'property': self.prop,
            'tier': self.tier,
            'seed': self.seed,
            'level': 'exploration',
            'coverage': coverage,
            'assumptions': self.assumptions,
            'wall_s': round(self.elapsed(), 3),
            'violations': len(self.violations),
        }
        path = os.path.join(EVIDENCE_DIR, '%s.json' % self.prop)
        tmp = path + '.tmp%d' % os.getpid()
        with open(tmp, 'w') as f:
            json.dump(evidence, f, indent=1, sort_keys=True)
            f.write('\n')
        os.rename(tmp, path)
        for key, text in sorted(self.known.items()):
            print('KNOWN-FINDING: property=%s %s (key=%s, seen %d times this run)'
                  % (self.prop, text, key, self.known_hit.get(key, 0)))
        for i, v in enumerate(self.violations[:self._max_violations]):
            rpath = os.path.join(REPLAY_DIR, '%s-%s-%d.json' % (self.prop, self.seed, i))
            with open(rpath, 'w') as f:
                json.dump({'property': self.prop, 'seed': self.seed, 'tier': self.tier,
                           'replay_cmd': 'VERIF_SEED=%d VERIF_TIER=%s harness/check %s'
                                         % (self.seed, self.tier, self.prop),
                           'violation': v, 'error_logs': self.logs.errors[:20]},
                          f, indent=1, sort_keys=True)
            print('  [%s] %s' % (v['key'], v['what'][:600]))
            print('VIOLATION property=%s replay=%s' % (self.prop, rpath))
        print('%s %s seed=%s: %d evaluations, %d distinct, %d violations, %.1fs'
              % (self.prop, self.tier, self.seed, self.evaluations,
                 self.distinct(), len(self.violations), self.elapsed()))
        if self.violations:
            return 1
        if error is not None:
            print('INCONCLUSIVE %s: %s' % (self.prop, error))
            return 3
        if not self.evaluations:
            print('INCONCLUSIVE %s: nothing was evaluated' % self.prop)
            return 3
        return 0


def dump_threads(out=sys.stderr):
    frames = sys._current_frames()
    for t in threading.enumerate():
        out.write('--- thread %s\n' % t.name)
        f = frames.get(t.ident)
        if f is not None:
            out.write(''.join(traceback.format_stack(f)[-8:]))


def wait_until(pred, timeout=STALL, step=0.002):
    """Poll `pred` (real time).  Returns its truth at the end."""
    end = time.monotonic() + timeout
    while True:
        if pred():
            return True
        if time.monotonic() > end:
            return bool(pred())
        time.sleep(step)
