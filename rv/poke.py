"""Calls to whatever an object offers to be asked without arguments."""

import inspect
import re

# not queries: they make, change, store or remove something
NOT_QUERY = re.compile(r'^_|^(create|write|set|add|append|make|store|delete|remove|clear|change|convert|populate|import|export|rotate|adjust|patch|'
                       r'load|fell|tidy|initiali[sz]e|duplicate|copy|force|inherit|unmerge|merge|reset|invalidate|cache|uncache|prepare|promote|consolidate|'
                       r'normali[sz]e|reorient|sort|swap|reverse|split|resample|refine|coarsen|rescale|scale|shift|translate|move|apply|update|assign|override|'
                       r'rationali[sz]e|derive|compute|generate|build|try_reuse|h5_|extract_inactive|retrieve|expand|to_|from_|consolid|prune|fill|'
                       r'activate|deactivate|slice_|tilted|vertically|horizontally|flip|insert|replace|decache|trim|mask|infer|actually|extrapolate|vertical_rescale|find_faults)')


def queries(o, deny = ()):
    """Names of methods which can be called without arguments and are not obviously actions."""
    out = []
    for name in sorted(dir(type(o))):
        if NOT_QUERY.match(name) or name in deny:
            continue
        f = inspect.getattr_static(type(o), name)
        if isinstance(f, (staticmethod, classmethod, property)) or not inspect.isfunction(f):
            continue
        try:
            s = inspect.signature(f)
        except (TypeError, ValueError):
            continue
        ps = list(s.parameters.values())[1:]
        if all(p.default is not p.empty or p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD) for p in ps):
            out.append(name)
    return out


def attributes(o):
    return [n for n in sorted(dir(type(o))) if not n.startswith('_') and isinstance(inspect.getattr_static(type(o), n), property)]
