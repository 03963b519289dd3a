"""Harness: runs generated cases against an oracle, shrinks failures, writes
evidence and replay files.

A check module defines
  ID, RULE, ASSUMPTIONS (optional)
  CHECKS   {name: fn(case, ctx)}: the oracle; raises Violation if `case`, a
           JSON-able dict, breaks the property
  run(ctx) drives the oracles with ctx.bulk(...) and ctx.hyp(...)
"""
import contextlib
import hashlib
import io
import json
import os
import sys
import time
import traceback

from . import boot  # noqa: F401  (first)
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = 'exploration'


class Violation(Exception):
    """The property does not hold for the case."""


class Found(Exception):
    """Raised by the drivers when a (shrunk) failing case was found."""

    def __init__(self, name, case, msg):
        super().__init__(msg)
        self.name, self.case, self.msg = name, case, msg


def jsonable(obj):
    if isinstance(obj, dict):
        return {str(k): jsonable(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [jsonable(v) for v in obj]
    if isinstance(obj, np.ndarray):
        return jsonable(obj.tolist())
    if isinstance(obj, np.generic):
        return obj.item()
    return obj


def canon(case):
    return json.dumps(jsonable(case), sort_keys=True, separators=(',', ':'))


class Ctx:

    def __init__(self, mod, tier, seed):
        self.mod = mod
        self.tier = tier
        self.seed = seed
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.evaluations = 0
        self.cells = 0
        self._nontrivial = set()
        self.samples = []
        self.per_check = {}
        self.extra = {}
        self._mute = False

    # -- bookkeeping ------------------------------------------------------

    def n(self, quick, thorough=None):
        """number of cases for this tier"""
        scale = float(os.environ.get('VERIF_SCALE', '1'))
        n = quick if not self.thorough else (thorough or quick*25)
        return max(1, int(n*scale))

    def rng(self, tag):
        h = hashlib.sha256(f'{self.seed}/{self.mod.ID}/{tag}'.encode()).digest()
        return np.random.default_rng(int.from_bytes(h[:8], 'big'))

    def nontrivial(self, cells=1):
        """called by an oracle when the current case is non-trivial by RULE"""
        if not self._mute:
            self._cur_nontrivial = True
            self.cells += int(cells)

    def stat(self, key, value):
        if not self._mute:
            v = float(value)
            if v == v and v > self.extra.get(key, -1e300):
                self.extra[key] = v

    def evaluate(self, name, case):
        """runs the oracle; returns None or the message of the violation"""
        self._cur_nontrivial = False
        fn = self.mod.CHECKS[name]
        try:
            fn(case, self)
            msg = None
        except Violation as exc:
            msg = str(exc)
        except MemoryError:
            raise
        except Exception as exc:
            # raised by the library, or by the oracle on a result that it cannot even read
            # (e.g., of another shape)
            tb = traceback.extract_tb(exc.__traceback__)
            fr = ([f for f in tb if f.filename.startswith(boot.SRC)]
                  or [f for f in tb if f.filename.startswith(VERIF)])[-1]
            msg = (f'unexpected {type(exc).__name__}: {exc} (raised in '
                   f'{os.path.basename(fr.filename)}:{fr.name}, line {fr.lineno})')
        if not self._mute:
            self.evaluations += 1
            pc = self.per_check.setdefault(name, [0, 0])
            pc[0] += 1
            if self._cur_nontrivial:
                key = hashlib.blake2b((name + canon(case)).encode(), digest_size=12).digest()
                if key not in self._nontrivial:
                    self._nontrivial.add(key)
                    pc[1] += 1
                    if pc[1] in (1, 5):
                        text = canon(case)
                        self.samples.append({
                            'check': name,
                            'case': jsonable(case) if len(text) < 1500 else text[:1500] + '...'})
        return msg

    # -- drivers ----------------------------------------------------------

    def one(self, name, case):
        msg = self.evaluate(name, case)
        if msg is not None:
            self._found(name, case, msg, [])

    def bulk(self, name, gen, n, axes=None, tag=''):
        """`n` random cases of `gen(rng, k)`; failures shrunk by deletion along `axes`

        axes: function case -> list of tuples of names of parallel list fields
        """
        rng = self.rng(name + tag)
        for k in range(n):
            case = gen(rng, k)
            msg = self.evaluate(name, case)
            if msg is not None:
                self._found(name, case, msg, axes(case) if axes else [])

    def _found(self, name, case, msg, axes):
        self._mute = True
        case, msg = shrink(lambda c: self.evaluate(name, c), case, msg, axes)
        raise Found(name, case, msg)

    def hyp(self, name, strategy, n, tag=''):
        """`n` examples of a hypothesis strategy, shrunk by hypothesis"""
        import hypothesis as hy
        from hypothesis import HealthCheck, Phase
        last = []

        # (name of the test function is part of hypothesis' seed derivation)
        @hy.seed(int.from_bytes(hashlib.sha256(
            f'{self.seed}/{self.mod.ID}/{name}{tag}'.encode()).digest()[:6], 'big'))
        @hy.settings(max_examples=n, database=None, deadline=None, derandomize=False,
                     suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                     phases=[Phase.generate, Phase.target, Phase.shrink],
                     print_blob=False, verbosity=hy.Verbosity.quiet)
        @hy.given(strategy)
        def test(case):
            msg = self.evaluate(name, case)
            if msg is not None:
                last[:] = [case, msg]
                self._mute = True
                raise Violation(msg)

        try:
            with contextlib.redirect_stderr(io.StringIO()):
                test()
        except BaseException as exc:
            if not last:
                raise
            if isinstance(exc, KeyboardInterrupt):
                raise
            raise Found(name, last[0], last[1]) from None


# -- shrinking of bulk cases ------------------------------------------------

def _ddmin(fails, case, fields, deadline):
    n = len(case[fields[0]])
    chunk = max(1, n // 2)

    def without(c, lo, hi):
        d = dict(c)
        for f in fields:
            d[f] = list(c[f][:lo]) + list(c[f][hi:])
        return d

    # jump straight to one element, if that is enough
    if n > 1:
        for i in list(range(min(n, 60))):
            if time.time() > deadline:
                return case
            d = dict(case)
            for f in fields:
                d[f] = [case[f][i]]
            if fails(d):
                return d
    while chunk >= 1 and time.time() < deadline:
        i, changed = 0, False
        while i < len(case[fields[0]]) and len(case[fields[0]]) > 1 and time.time() < deadline:
            d = without(case, i, i + chunk)
            if len(d[fields[0]]) and fails(d):
                case, changed = d, True
            else:
                i += chunk
        if chunk == 1 and not changed:
            break
        chunk = max(1, chunk // 2) if chunk > 1 else (1 if changed else 0)
    return case


def shrink(evaluate, case, msg, axes, budget=45.):
    deadline = time.time() + budget
    best = [jsonable(case), msg]

    def fails(c):
        try:
            m = evaluate(c)
        except Exception:
            return False
        if m is not None:
            best[0], best[1] = c, m
            return True
        return False

    if not fails(best[0]):      # must survive the trip through JSON types
        return case, msg
    case = best[0]
    hint = case.pop('_hint', None)
    for fields in axes:
        if len(case[fields[0]]) > 1:
            case = _ddmin(fails, case, fields, deadline)
    for fields in axes:         # simpler values
        for f in fields:
            for i in range(min(len(case[f]), 4)):
                for cand in _simpler(case[f][i]):
                    if time.time() > deadline:
                        break
                    d = dict(case)
                    d[f] = list(case[f])
                    d[f][i] = cand
                    if fails(d):
                        case = d
                        break
    return best[0], best[1]


def _simpler(v):
    if isinstance(v, bool) or v is None:
        return
    if isinstance(v, int):      # unix seconds
        for unit in (86400*365, 86400, 3600, 60):
            w = v - v % unit
            if w != v:
                yield w
    elif isinstance(v, float) and v == v:
        for d in (0, 1, 2, 4):
            w = round(v, d) + 0.
            if w != v:
                yield w


# -- main ---------------------------------------------------------------------

def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('open: property=' + prop + ' '):
                rest = line.split(' ', 2)[2]
                key, _, what = rest.partition(' ')
                out.append((key.partition('=')[2], what))
    return out


def main(mod, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)

    ctx = Ctx(mod, tier, seed)

    if argv and argv[0] == '--replay':
        rep = json.load(open(argv[1]))
        ctx._mute = True
        msg = ctx.evaluate(rep['check'], rep['case'])
        if msg is None:
            print(f'replay of {mod.ID}/{rep["check"]}: the property holds')
            return 0
        print(f'{rep["check"]}: {msg}')
        print(f'VIOLATION property={mod.ID} replay={os.path.relpath(argv[1], VERIF)}')
        return 1

    found = None
    try:
        # findings recorded in known_findings.txt: probed one by one, by their own input
        for key, what in known_findings(mod.ID):
            name, case = mod.FINDINGS[key]
            ctx._mute = True
            still = ctx.evaluate(name, case) is not None
            ctx._mute = False
            if still:
                print(f'KNOWN-FINDING: property={mod.ID} {what}')
        mod.run(ctx)
    except Found as exc:
        found = exc

    coverage = {
        'evaluations': ctx.evaluations,
        'distinct_nontrivial': len(ctx._nontrivial),
        'rule': mod.RULE,
        'cells_checked': ctx.cells,
        'per_check': {k: {'cases': v[0], 'distinct_nontrivial': v[1]}
                      for k, v in ctx.per_check.items()},
        'samples': ctx.samples[:12],
    }
    if ctx.extra:
        coverage['largest_observed'] = {k: float(f'{v:.6g}') for k, v in ctx.extra.items()}
    evidence = {
        'property': mod.ID, 'tier': tier, 'seed': seed, 'level': LEVEL,
        'coverage': coverage,
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', ())),
        'wall_s': round(time.time() - ctx.t0, 2),
        'violations': 0 if found is None else 1,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', mod.ID + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    if found is not None:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        body = {'property': mod.ID, 'check': found.name, 'message': found.msg,
                'case': jsonable(found.case)}
        tag = hashlib.sha256(canon(body).encode()).hexdigest()[:10]
        path = os.path.join('replays', f'{mod.ID}-{tag}.json')
        with open(os.path.join(VERIF, path), 'w') as f:
            json.dump(body, f, indent=1)
        print(f'{mod.ID}/{found.name}: {found.msg}')
        text = canon(found.case)
        print('case: ' + (text if len(text) < 1200 else text[:1200] + '...'))
        print(f'VIOLATION property={mod.ID} replay={path}')
        return 1

    print(f'{mod.ID}: held on {ctx.evaluations} cases ({len(ctx._nontrivial)} distinct '
          f'non-trivial, {ctx.cells} cells), {time.time()-ctx.t0:.1f} s, seed {seed}, {tier}')
    return 0
