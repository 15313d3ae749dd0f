"""Content of dataset files, read without the library."""

import hashlib
import os
import zipfile

import h5py
import numpy as np
from lxml import etree


def contents(epc, h5 = None):
    """Dictionary of everything held by an epc file and its hdf5 file: ('xml', name) or ('h5', path) mapped to a digest."""
    out = {}
    with zipfile.ZipFile(epc) as z:
        for n in z.namelist():
            if n.endswith('.rels') or n.startswith('[') or n.startswith('docProps'):
                continue
            out[('xml', n)] = hashlib.sha1(etree.tostring(etree.fromstring(z.read(n)), method = 'c14n')).hexdigest()
    h5 = h5 or epc[:-4] + '.h5'
    if os.path.exists(h5):
        with h5py.File(h5, 'r') as f:

            def visit(name, o):
                if isinstance(o, h5py.Dataset):
                    a = o[()]
                    b = a.tobytes() if isinstance(a, np.ndarray) else repr(a).encode()
                    out[('h5', '/' + name)] = hashlib.sha1(repr((o.shape, str(o.dtype))).encode() + b).hexdigest()

            f.visititems(visit)
    return out


def kept(ctx, before, after, code, superset):
    """Checks that everything present before is unchanged, and that nothing has been added unless superset."""
    for k, v in before.items():
        ctx.check(k in after, code, 'item has gone', item = k)
        ctx.check(after[k] == v, code, 'item has changed', item = k)
    if not superset:
        ctx.check(set(after) == set(before), code, 'items have been added', items = sorted(set(after) - set(before))[:6])
