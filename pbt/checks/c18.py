"""C18: extraterrestrial irradiance and air mass."""
import numpy as np

from pbt import api, cmp, derived, gen, views
from pbt.core import Violation

ID = 'C18'
RULE = ('a case is one evaluation with the sun at telling zeniths, whose irradiances (several solar constants, '
        'all corrections) and air masses (all parameterizations) are compared with the published formulas '
        'applied to the reported zenith and distance factor; non-trivial: the sun is up in some cell')
ASSUMPTIONS = ['with an air mass correction, the irradiance at night may be zero or missing']


def flat(case, a, text):
    dims, n = api.DIMS[case['usecase']], len(api.cells(case)[0])
    if set(a.dims) != set(dims) or a.size != n:
        raise Violation(f'{text} has dimensions {a.dims} and {a.size} values for {n} cells')
    return np.asarray(a.transpose(*dims).values).ravel()


def close(case, what, got, want, rel, skip, scale=1.):
    err = np.maximum(np.abs(got - want) - 1e-12*scale, 0)/np.maximum(np.abs(want), 1e-12)
    err = np.where(np.isnan(got) & np.isnan(want) | (got == want) | skip, 0, err)
    bad = ~(err <= rel)
    if bad.any():
        i = int(np.argmax(np.where(np.isnan(err), np.inf, err)))
        raise Violation(f'{what} is {got[i]!r}, expected {want[i]!r} ({cmp.where(case, i)})')


def formulas(case, ctx):
    sw = api.call(case)
    cmp.shapes(case, sw)
    it = api.cells(case)[0]
    z = api.raw(sw.zenith).ravel()
    ecf = api.raw(sw.ecf)[it]
    tie = np.abs(z - 90) < 1e-9
    isc = case['isc']
    # air mass
    order = np.argsort(z, kind='stable')
    mass = {}
    for p in derived.AIRMASS:
        m = mass[p] = flat(case, sw.airmass(p), f'airmass({p})')
        close(case, f'airmass({p})', m, derived.airmass(z, p), 1e-9, tie)
        up = m[~np.isnan(m)]
        if (up < 1).any() or (np.isnan(m) & (z < 90) & ~tie).any() or (~np.isnan(m) & (z > 90) & ~tie).any():
            raise Violation(f'airmass({p}) is below 1, missing by day or not missing at night '
                            f'({cmp.config_text(case)})')
        zs, ms = z[order], m[order]
        day = zs < 90 - 1e-9
        dz, dm = np.diff(zs[day]), np.diff(ms[day])
        if (dm < -1e-9*ms[day][1:]).any() or ((dz > 1e-4) & (zs[day][:-1] > 5) & (dm <= 0)).any():
            raise Violation(f'airmass({p}) does not increase with the zenith ({cmp.config_text(case)})')
        if (np.abs(ms[zs < 1e-3] - 1) > 2e-3).any():
            raise Violation(f'airmass({p}) is {ms[0]} overhead ({cmp.config_text(case)})')
    close(case, 'airmass()', flat(case, sw.airmass(), 'airmass()'), mass['gueymard_2003'], 0, tie & False)
    close(case, 'airmass(parameterization=)',
          flat(case, sw.airmass(parameterization='kasten_1965'), 'airmass()'), mass['kasten_1965'], 0, tie & False)
    # irradiance
    up = z < 90
    calls = [('eth()', sw.eth(), 1361.1, 'none'), (f'eth({isc})', sw.eth(isc), isc, 'none'),
             (f'eth(ISC={isc})', sw.eth(ISC=isc), isc, 'none')]
    for c in derived.CORRECTIONS:
        calls.append((f'eth(am_correction={c})', sw.eth(am_correction=c), 1361.1, c))
        calls.append((f'eth({isc}, {c})', sw.eth(isc, c), isc, c))
    for what, a, s, c in calls:
        e = flat(case, a, what)
        want = derived.eth(z, ecf, s, c)
        dark = (z > 90) & ~tie
        if c != 'none':
            want = np.where(dark & (np.isnan(e) | (e == 0)), e, np.where(dark, 0., want))
        elif (e[dark] != 0).any():
            i = int(np.flatnonzero(dark & (e != 0))[0])
            raise Violation(f'{what} is {e[i]!r} at night ({cmp.where(case, i)})')
        close(case, what, e, want, 1e-9, tie & (np.isnan(e) | (np.abs(e) < 1e-6*max(1, s))), max(1., s))
    if up.any():
        ctx.nontrivial(int(up.sum()))


CHECKS = {'formulas': formulas}


def run(ctx):
    combos = [(a, e, u) for a, e in api.CONFIGS for u in api.USECASES]

    def one(cells):
        def g(rng, k):
            a, e, u = combos[k % len(combos)]
            c = gen.numeric(rng, k, alg=a, eng=e, usecase=u, cells=cells)
            if u == 'transect' and rng.random() < .3:
                n = len(c['t'])
                c['lat'], c['lon'] = gen.at_zenith(c['t'], rng.uniform(0, 91, n), rng.uniform(0, 360, n))
                if rng.random() < .4:
                    c['lat'], c['lon'] = gen.vertical(rng, a, c['t'], nadir=False)
            c['isc'] = [1361.1, 1367., 1., 0., 1000, 1366.1, float(rng.uniform(0, 5000)), 1e-3][int(rng.integers(0, 8))]
            return c
        return g
    ctx.bulk('formulas', one(60), ctx.n(21*10), api.axes)
    ctx.bulk('formulas', one(2000), ctx.n(21), api.axes, 'large')
    ctx.bulk('formulas', one(25000), ctx.n(21), api.axes, 'huge')
    ctx.bulk('formulas', lambda r, k: one(200000)(r, 5*k + 1), ctx.n(6), api.axes, 'vast')
