"""C09: unit conversions."""

import json
import os
import re
import warnings
from fractions import Fraction as F

import numpy as np

from rv.core import Scenario, VERIF
from props.spec import spec

PROP = spec('C09')

with open(os.path.join(VERIF, 'ref', 'uom.json')) as f:
    _REF = json.load(f)
UNITS = _REF['units']  # the published Energistics dictionary: base, dimension, A, B, C, D
QUANTITIES = _REF['quantities']
_BY_BASE = {}
for _u, _v in UNITS.items():
    _BY_BASE.setdefault(_v[0], []).append(_u)
_CONVERTIBLE = [b for b, l in sorted(_BY_BASE.items()) if len(l) > 1]
# independently known definitions
KNOWN = {
    'ft': ('m', 0.3048), 'in': ('m', 0.0254), 'yd': ('m', 0.9144), 'mi': ('m', 1609.344), 'km': ('m', 1000), 'cm': ('m', 0.01),
    'mm': ('m', 0.001), 'ft[US]': ('m', 1200 / 3937), 'bbl': ('m3', 0.158987294928), 'ft3': ('m3', 0.3048**3),
    'L': ('m3', 0.001), 'cm3': ('m3', 1e-6), 'gal[US]': ('m3', 0.003785411784),
    'psi': ('Pa', 6894.757293168361), 'bar': ('Pa', 1e5), 'kPa': ('Pa', 1e3), 'MPa': ('Pa', 1e6), 'atm': ('Pa', 101325),
    'd': ('s', 86400), 'h': ('s', 3600), 'min': ('s', 60), 'ms': ('s', 0.001), 'wk': ('s', 604800),
    'dega': ('rad', np.pi / 180), 'cP': ('Pa.s', 0.001), 'D': ('m2', 9.869233e-13), 'mD': ('m2', 9.869233e-16),
    'lbm': ('kg', 0.45359237), 'g': ('kg', 0.001), 'lbf': ('N', 4.4482216152605), '%': ('Euc', 0.01), 'g/cm3': ('kg/m3', 1000),
    'lbm/ft3': ('kg/m3', 0.45359237 / 0.3048**3), 'bbl/d': ('m3/s', 0.158987294928 / 86400), 'ha': ('m2', 10000),
    '1000 ft3/d': ('m3/s', 1000 * 0.3048**3 / 86400), 'kJ': ('J', 1000), 'Btu[IT]': ('J', 1055.05585262),
    'degF': None
}
ALIASES = {  # common spellings and the unit they must mean
    'feet': 'ft', 'foot': 'ft', 'FT': 'ft', 'metres': 'm', 'meter': 'm', 'M': 'm', 'days': 'd', 'day': 'd', 'hours': 'h',
    'hr': 'h', 'sec': 's', 'seconds': 's', 'mins': 'min', 'years': 'a', 'yr': 'a', 'percent': '%', 'pu': '%', 'v/v': 'm3/m3',
    'g/cc': 'g/cm3', 'stb': 'bbl', 'rb': 'bbl', 'BBL': 'bbl', 'mstb': '1000 bbl', 'mmscf': '1E6 ft3', 'mscf': '1000 ft3',
    'sm3': 'm3', 'rm3': 'm3', 'scf': 'ft3', 'cf': 'ft3', 'cc': 'cm3', 'litres': 'L', 'psia': 'psi', 'PSI': 'psi',
    'degrees C': 'degC', 'c': 'degC', 'f': 'degF', 'gapi': 'gAPI', 'count': 'Euc', 'fraction': 'Euc', 'none': 'Euc',
    'stb/day': 'bbl/d', 'scf/stb': 'ft3/bbl', 'mscf/day': '1000 ft3/d', 'sm3/day': 'm3/d', 'btu': 'Btu[IT]', 'lb': 'lbm',
    'gram': 'g', 'ftUS': 'ft[US]', 'weeks': 'wk', 'msec': 'ms', 'BAR': 'bar', 'M3': 'm3', '(m)': 'm', 'mmstb': '1E6 bbl',
    'moles': 'mol', 'stm3/day': 'm3/d', 'ft ': 'ft', 'us/ft': 'us/ft', 'M3/D': 'm3/d', 'feet/day': 'ft/d', 'centimetres': 'cm'
}


def _f(x):
    return F(str(x))


def oracle(x, u1, u2):
    """Exact conversion of rational x."""
    _, _, a, b, c, d = [UNITS[u1][0], UNITS[u1][1]] + [_f(v) for v in UNITS[u1][2:]]
    y = (a + b * x) / (c + d * x)
    a, b, c, d = [_f(v) for v in UNITS[u2][2:]]
    return (a - c * y) / (d * y - b)


def _affine(u):
    return UNITS[u][2] != 0 or UNITS[u][5] != 0


def _tol(e, u1, u2):
    return 1.0e-9 * abs(e) + (1.0e-6 if _affine(u1) or _affine(u2) else 0.0)


def dictionary(ctx):
    """Every unit, exhaustively split over the cases: factors, dimension and quantity membership as published."""
    import resqpy.weights_and_measures as wam
    n = 16
    k = ctx.index % n
    units = sorted(UNITS)[k::n]
    ctx.sig('dictionary', k)
    if k == 0:
        ctx.check(set(wam.valid_uoms()) == set(UNITS), 'unit-set', 'set of units',
                  diff = set(wam.valid_uoms()) ^ set(UNITS))
        ctx.check(set(wam.valid_quantities()) == set(QUANTITIES), 'quantity-set', 'set of quantities')
        ctx.check(set(wam.valid_property_kinds()) == set(_REF['property_kinds']), 'kind-set', 'set of property kinds',
                  diff = set(wam.valid_property_kinds()) ^ set(_REF['property_kinds']))
    for u in units:
        base, dim, (a, b, c, d) = wam.get_conversion_factors(u)
        ctx.check((base, dim) == tuple(UNITS[u][:2]), 'unit-base', f'base and dimension of {u}', got = (base, dim))
        x = F(ctx.integer(-100, 100), 8)
        got = (F(a) + F(b) * x) / (F(c) + F(d) * x)
        exp = (_f(UNITS[u][2]) + _f(UNITS[u][3]) * x) / (_f(UNITS[u][4]) + _f(UNITS[u][5]) * x)
        ctx.close(float(got), float(exp), 'unit-factors', tol = 1e-9 * abs(float(exp)) + 1e-300, message = u)
        ctx.check(wam.rq_uom(u) == u, 'identity-parse', f'unit string {u} must be itself', got = wam.rq_uom(u))
    ctx.observe('units', len(units))
    for q in sorted(QUANTITIES)[k::n]:
        got = wam.valid_uoms(quantity = q)
        exp = set(m for m in QUANTITIES[q] if m in UNITS)
        ctx.check(set(got) == exp, 'quantity-members', q, got = got, expected = exp)
    for u, v in KNOWN.items():
        if v is not None:
            ctx.close(float(wam.convert(1.0, u, v[0])), float(v[1]), 'known-definition', tol = 3e-6 * v[1] if u in ('D', 'mD', 'a') else 1e-9 * v[1], message = u)


def convert_random(ctx):
    import resqpy.weights_and_measures as wam
    base = ctx.choice(_CONVERTIBLE)
    u1, u2, u3 = [ctx.choice(_BY_BASE[base]) for _ in range(3)]
    ctx.sig(u1, u2, u3)
    x = F(ctx.integer(-10**6, 10**6), ctx.choice([1, 2, 8, 1024]))
    e = float(oracle(x, u1, u2))
    x = float(x)
    g = wam.convert(x, u1, u2)
    ctx.close(float(g), e, 'scalar', tol = _tol(e, u1, u2), u = (u1, u2))
    ctx.close(float(wam.convert(g, u2, u1)), x, 'inverse', tol = 1e-9 * abs(x) + (1e-5 if _affine(u1) or _affine(u2) else 0.0), u = (u1, u2))
    e3 = float(oracle(F(x), u1, u3))
    ctx.close(float(wam.convert(g, u2, u3)), e3, 'via-third', tol = 10 * _tol(e3, u1, u3) + (1e-5 * max(1.0, abs(float(oracle(F(1), 'degF', 'degF')))) if _affine(u2) else 0.0),
              rtol = 1e-9, u = (u1, u2, u3))
    shape = ctx.choice([(0,), (1,), (5,), (2, 3)])
    a = ctx.rng.integers(-1000, 1000, size = shape).astype(float)
    ea = np.array([float(oracle(F(v), u1, u2)) for v in a.flatten()]).reshape(shape)
    b = a.copy()
    got = wam.convert(b, u1, u2)
    tol = 1e-9 * (np.max(np.abs(ea)) if ea.size else 1.0) + _tol(0.0, u1, u2)
    ctx.close(got, ea, 'array', tol = tol, u = (u1, u2))
    ctx.equal(b, a, 'input-modified', 'conversion that is not in place must leave its argument alone')
    if not _affine(u1) and not _affine(u2):
        got = wam.convert(b, u1, u2, inplace = True)
        ctx.close(b, ea, 'in-place', tol = tol, u = (u1, u2))
        ctx.close(got, ea, 'in-place-returned', tol = tol)
        v = a.copy().reshape(-1)
        if v.size > 2:  # a view
            w = v[1:]
            wam.convert(w, u1, u2, inplace = True)
            ctx.close(v[1:], ea.reshape(-1)[1:], 'in-place-view', tol = tol)
            ctx.equal(v[0], a.reshape(-1)[0], 'in-place-view-neighbour')
    elif u1 != u2:
        try:
            got = wam.convert(a.copy(), u1, u2, inplace = True)
        except NotImplementedError:
            ctx.n_oracle += 1
        else:
            ctx.close(got, ea, 'in-place', tol = tol, u = (u1, u2))


FAMILIES = [('length', 'convert_lengths'), ('time', 'convert_times'), ('pressure', 'convert_pressures'), ('volume', 'convert_volumes'),
            ('volume per time', 'convert_flow_rates')]


def families(ctx):
    """The per-quantity functions agree with the general conversion and refuse units of other quantities."""
    import resqpy.weights_and_measures as wam
    q, fname = ctx.choice(FAMILIES)
    fn = getattr(wam, fname)
    members = sorted(m for m in QUANTITIES[q] if m in UNITS)
    u1, u2 = ctx.choice(members), ctx.choice(members)
    ctx.sig(q, u1, u2)
    x = ctx.integer(-10000, 10000) / 8.0
    e = float(oracle(F(x), u1, u2))
    ctx.close(float(fn(x, u1, u2)), e, 'family-scalar', tol = _tol(e, u1, u2), f = fname, u = (u1, u2))
    a = ctx.rng.integers(-1000, 1000, size = 4).astype(ctx.choice([float, np.float32, np.float64]))
    ea = np.array([float(oracle(F(float(v)), u1, u2)) for v in a])
    b = a.copy()
    r = fn(b, u1, u2)
    tol = (1e-9 if a.dtype == np.float64 else 1e-5) * np.max(np.abs(ea)) + 1e-300
    if a.dtype == np.float64 or (np.max(np.abs(ea)) < 1e30 and np.min(np.abs(ea[ea != 0.0])) > 1e-30 if np.any(ea) else True):
        ctx.close(b, ea, 'family-in-situ', tol = tol, f = fname, u = (u1, u2))
        ctx.close(r, ea, 'family-returned', tol = tol, f = fname, u = (u1, u2))
    if q == 'time':
        ctx.close(float(wam.convert_times(x, u2, u1, invert = True)), e, 'invert', tol = _tol(e, u1, u2))
        ctx.check(wam.rq_time_unit(u1) == u1, 'rq-time')
    if q == 'length':
        ctx.check(wam.rq_length_unit(u1) == u1, 'rq-length')
    other = ctx.choice([u for u in sorted(UNITS) if UNITS[u][1] != UNITS[u1][1]])
    from resqpy.olio.exceptions import InvalidUnitError, IncompatibleUnitsError
    ctx.raises((InvalidUnitError, IncompatibleUnitsError, ValueError), lambda: fn(1.0, u1, other), 'wrong-quantity-accepted', f'{fname} {u1} {other}')
    ctx.raises((InvalidUnitError, IncompatibleUnitsError, ValueError), lambda: wam.convert(1.0, u1, other), 'wrong-dimension-accepted', f'{u1} {other}')
    ctx.raises((InvalidUnitError, ValueError), lambda: wam.convert(1.0, u1, ctx.choice(['flurbs', 'mm/flurb', '$'])), 'nonsense-accepted')
    quantity = ctx.choice(sorted(QUANTITIES))
    if u1 not in QUANTITIES[quantity]:
        ctx.raises((InvalidUnitError, ValueError), lambda: wam.rq_uom(u1, quantity = quantity), 'quantity-not-enforced')
        ctx.raises((InvalidUnitError, ValueError), lambda: wam.convert(2.0, u1, u1, quantity = quantity), 'quantity-not-enforced-in-convert')
    else:
        ctx.check(wam.rq_uom(u1, quantity = quantity) == u1, 'quantity-refused')


def aliases(ctx):
    import resqpy.weights_and_measures as wam
    from resqpy.olio.exceptions import InvalidUnitError
    for alias, u in ALIASES.items():
        ctx.check(wam.rq_uom(alias) == u, 'alias', f'{alias} must mean {u}', got = wam.rq_uom(alias))
    for u, al in wam.UOM_ALIASES.items():
        for a in al:
            got = wam.rq_uom(a)
            # an alias which is itself a unit of the standard keeps its own meaning
            ctx.check(got == u or got == a, 'alias-table', f'{a}', got = got, expected = u)
    a1, a2 = ctx.choice(sorted(ALIASES)), ctx.choice(sorted(ALIASES))
    u1, u2 = ALIASES[a1], ALIASES[a2]
    ctx.sig(a1, a2)
    if UNITS[u1][0] == UNITS[u2][0]:
        e = float(oracle(F(5, 2), u1, u2))
        ctx.close(float(wam.convert(2.5, a1, a2)), e, 'alias-convert', tol = _tol(e, u1, u2))
    ctx.equal(wam.rq_uom_list([a1, a2, u1]), [u1, u2, u1], 'uom-list')
    ctx.raises((InvalidUnitError, ValueError), lambda: wam.rq_uom(ctx.choice(['', 'xyzzy', 'm//s', 'foo/bar'])), 'bad-unit-accepted')


def transmissibility(ctx):
    import resqpy.weights_and_measures as wam

    def pick():
        return [ctx.choice(sorted(m for m in QUANTITIES[q] if m in UNITS and '.' not in m and '/' not in m and '(' not in m))
                for q in ('volume', 'dynamic viscosity', 'pressure', 'time')]

    f, t = pick(), pick()
    if ctx.flag(0.3):
        f = ['m3', 'cP', 'kPa', 'd']
    if ctx.flag(0.3):
        t = ['bbl', 'cP', 'psi', 'd']
    fu, tu = ['{}.{}/({}.{})'.format(*x) for x in (f, t)]
    ctx.sig(fu, tu)
    v = [oracle(F(1), a, b) for a, b in zip(f, t)]
    factor = float(v[0] * v[1] / v[2] / v[3])
    x = ctx.integer(1, 10000) / 8.0
    ctx.close(float(wam.convert_transmissibilities(x, fu, tu)), x * factor, 'transmissibility', tol = 1e-9 * x * factor, u = (fu, tu))
    a = ctx.rng.random(5) * 100.0
    b = a.copy()
    wam.convert_transmissibilities(b, fu, tu)
    ctx.close(b, a * factor, 'transmissibility-in-situ', tol = 1e-9 * 100.0 * factor, u = (fu, tu))


NEXUS = {  # the unit expected by the simulator
    'METRIC': ('m', 'm2', 'm3', 'm3/m3', 'mD', 'd', 'degC', 'kg/m3', 'kPa', 'm3/d'),
    'METKG/CM2': ('m', 'm2', 'm3', 'm3/m3', 'mD', 'd', 'degC', 'kg/m3', 'kgf/cm2', 'm3/d'),
    'METBAR': ('m', 'm2', 'm3', 'm3/m3', 'mD', 'd', 'degC', 'kg/m3', 'bar', 'm3/d'),
    'LAB': ('cm', 'cm2', 'cm3', 'cm3/cm3', 'mD', 'h', 'degC', 'g/cm3', 'psi', 'cm3/h'),
    'ENGLISH': ('ft', 'ft2', 'ft3', 'ft3/ft3', 'mD', 'd', 'degF', 'lbm/ft3', 'psi', 'bbl/d')
}


def nexus(ctx):
    import resqpy.weights_and_measures as wam
    qs = ('length', 'area', 'volume', 'volume per volume', 'permeability rock', 'time', 'thermodynamic temperature', 'mass per volume', 'pressure', 'volume per time')
    s = ctx.choice(sorted(NEXUS))
    ctx.sig(s, ctx.index)
    for q, u in zip(qs, NEXUS[s]):
        name = s.lower() if ctx.flag() else s
        got = wam.nexus_uom_for_quantity(name, q)
        ctx.check(got == u, 'nexus', f'{s} {q}', got = got, expected = u)
    for fl, q, u in (('PV', 'volume', 'ft3'), ('OVER PV', 'volume', 'bbl'), ('FVF', 'volume per volume', 'bbl/bbl'), ('GOR', 'volume per volume', '1000 ft3/bbl'),
                     ('surface gas rate', 'volume per time', '1000 ft3/d'), ('saturation', 'volume per volume', 'ft3/ft3')):
        ctx.check(wam.nexus_uom_for_quantity('ENGLISH', q, english_volume_flavour = fl) == u, 'nexus-english', f'{fl} {q}')


SCENARIOS = [
    Scenario(dictionary, 16, 64),
    Scenario(convert_random, 1500),
    Scenario(families, 500),
    Scenario(aliases, 40),
    Scenario(transmissibility, 100),
    Scenario(nexus, 20),
]
