"""Shared generators of legal inputs."""

import os
import warnings

import numpy as np

AXIS_ORDERS = {
    # direction of local x and y axes as (east, north) unit vectors
    'easting northing': ((1, 0), (0, 1)),
    'northing easting': ((0, 1), (1, 0)),
    'westing southing': ((-1, 0), (0, -1)),
    'southing westing': ((0, -1), (-1, 0)),
    'northing westing': ((0, 1), (-1, 0)),
    'westing northing': ((-1, 0), (0, 1)),
}
LENGTH_M = {'m': 1.0, 'ft': 0.3048, 'ft[US]': 1200.0 / 3937.0, 'km': 1000.0, 'cm': 0.01, 'in': 0.0254, 'yd': 0.9144}
ANGLE_DEG = {'dega': 1.0, 'rad': 180.0 / np.pi, 'gon': 0.9, 'mina': 1.0 / 60.0, 'rev': 360.0}
TIME_S = {'s': 1.0, 'ms': 0.001, 'min': 60.0, 'h': 3600.0, 'd': 86400.0}

TRICKY_TITLES = [
    'plain', 'With Space', 'UPPER case', 'a<b>&"c"', "o'brien", 'ünïcode é', 'tab-less  double space', 'x', '0', 'None',
    'dots.and-dash_1', '日本語', 'title #7 (b)', 'trailing.', 'percent % d', 'back\\slash', 'semi;colon', '[sq]', 'a/b'
]


def title(ctx, base = None):
    t = ctx.choice(TRICKY_TITLES)
    if base is not None and ctx.flag(0.7):
        t = f'{base} {t}'
    return t


def metadata(ctx, p = 0.5):
    if not ctx.flag(p):
        return None
    keys = ['source', 'Key', 'k e y', 'unit', 'n']
    vals = ['abc', '12', '3.5', 'a < b & c', 'ünï', 'True', 'value with space']
    return {k: ctx.choice(vals) for k in ctx.subset(keys, ctx.integer(1, 3))}


def model(ctx, name = 'm.epc', crs = True, **kwargs):
    """Returns a new empty model with an hdf5 part, optionally with a default crs."""
    import resqpy.model as rq
    import resqpy.crs as rqc
    m = rq.new_model(ctx.path(name))
    if crs:
        c = rqc.Crs(m, title = 'default crs', **kwargs)
        c.create_xml()
    return m


def crs_kwargs(ctx, time = False, extreme = True):
    """Returns random keyword arguments for a Crs, with values on a lattice that xml storage represents exactly."""
    kw = {}
    kw['xy_units'] = ctx.choice(['m', 'm', 'ft', 'ft[US]', 'km'] if extreme else ['m', 'ft'])
    kw['z_units'] = kw['xy_units'] if ctx.flag(0.4) else ctx.choice(['m', 'ft', 'ft[US]', 'cm'] if extreme else ['m', 'ft'])
    if ctx.flag(0.6):
        kw['x_offset'] = ctx.integer(-2000000, 2000000) / 8.0
        kw['y_offset'] = ctx.integer(-2000000, 2000000) / 8.0
    if ctx.flag(0.4):
        kw['z_offset'] = ctx.integer(-4000, 40000) / 8.0
    kw['z_inc_down'] = ctx.flag(0.6)
    kw['axis_order'] = ctx.choice(list(AXIS_ORDERS))
    if ctx.flag(0.6):
        kw['rotation_units'] = ctx.choice(['dega', 'rad', 'gon', 'mina'])
        deg = ctx.choice([0.0, 90.0, 180.0, 270.0, 30.0, 45.0, ctx.uniform(-360, 360), ctx.uniform(0, 360)])
        kw['rotation'] = round(deg / ANGLE_DEG[kw['rotation_units']], 5)
    if time:
        kw['time_units'] = ctx.choice(['s', 'ms'])
    return kw


class CrsOracle:
    """Independent evaluation of local to true frame: (east, north, up) in metres (or upward seconds)."""

    def __init__(self, kw):
        xd, yd = [np.array(v, dtype = float) for v in AXIS_ORDERS[kw.get('axis_order', 'easting northing')]]
        a = np.radians(kw.get('rotation', 0.0) * ANGLE_DEG[kw.get('rotation_units', 'dega')])
        # clockwise rotation of local axes, seen from above
        r = np.array([[np.cos(a), np.sin(a)], [-np.sin(a), np.cos(a)]])
        self.rot_axes = np.array([r @ xd, r @ yd])
        self.axes = np.array([xd, yd])
        self.off = np.array([kw.get('x_offset', 0.0), kw.get('y_offset', 0.0)])
        self.zoff = kw.get('z_offset', 0.0)
        self.zsign = -1.0 if kw.get('z_inc_down', True) else 1.0
        self.xyf = LENGTH_M[kw.get('xy_units', 'm')]
        self.zf = TIME_S[kw['time_units']] if kw.get('time_units') else LENGTH_M[kw.get('z_units', 'm')]

    def to_true(self, p):
        """Local points to (east, north, up) in crs units."""
        p = np.asarray(p, dtype = float)
        en = p[..., :2] @ self.rot_axes + self.off @ self.axes
        up = (p[..., 2] + self.zoff) * self.zsign
        return np.concatenate((en, up[..., np.newaxis]), axis = -1)

    def from_true(self, t):
        t = np.asarray(t, dtype = float)
        xy = (t[..., :2] - self.off @ self.axes) @ self.rot_axes.T
        z = t[..., 2] * self.zsign - self.zoff
        return np.concatenate((xy, z[..., np.newaxis]), axis = -1)

    def convert_to(self, other, p):
        t = self.to_true(p) * np.array([self.xyf, self.xyf, self.zf])
        return other.from_true(t / np.array([other.xyf, other.xyf, other.zf]))

    def handed(self):
        m = np.zeros((3, 3))
        m[:2, :2] = self.axes
        m[2, 2] = self.zsign
        return np.linalg.det(m) > 0
