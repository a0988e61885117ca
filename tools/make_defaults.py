"""Writes qpmon/defaults.json: the documented default of every optional
argument of the public API.  Reviewed by hand against the docstrings; run once,
on purpose, not by any check."""
import inspect, json, os
import numpy as np
import qetpy as qp, qetpy.plotting as P, qetpy.utils as U, qetpy.cut as C, qetpy.sim as S
from qetpy import core

out, order, kwonly, varargs = {}, {}, {}, []


def take(name, fn):
    try:
        sig = inspect.signature(fn)
    except (TypeError, ValueError):
        return
    name = ".".join(name.split(".")[-2:])
    if name.split(".")[-1].startswith("_"):
        return
    order[name] = [k for k, p in sig.parameters.items() if p.kind == p.POSITIONAL_OR_KEYWORD and k != "self"]
    kwonly[name] = [k for k, p in sig.parameters.items() if p.kind == p.KEYWORD_ONLY]
    if any(p.kind == p.VAR_POSITIONAL for p in sig.parameters.values()) and name not in varargs:
        varargs.append(name)
    d = {k: p.default for k, p in sig.parameters.items()
         if p.default is not p.empty and isinstance(p.default, (bool, int, float, str, list, tuple, type(None)))}
    if d:
        out[name] = d


for mod in (qp, P, U, C, S, core, qp.core.didv):
    for n in dir(mod):
        o = getattr(mod, n)
        if n.startswith("_") or not getattr(o, "__module__", "").startswith("qetpy"):
            continue
        if inspect.isclass(o):
            take(o.__qualname__, o)
            for k in dir(o):
                if k.startswith("__"):
                    continue
                f = inspect.getattr_static(o, k)
                f = getattr(f, "__func__", f)
                if inspect.isfunction(f):
                    take(f.__qualname__, f)
                    take(o.__name__ + "." + k, f)
        elif inspect.isfunction(o):
            take(o.__qualname__, o)
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "qpmon", "defaults.json")
json.dump(dict(defaults=dict(sorted(out.items())), order=dict(sorted(order.items())),
               kwonly={k: v for k, v in sorted(kwonly.items()) if v}, varargs=sorted(varargs)), open(p, "w"), indent=0)
print(len(out), sum(map(len, out.values())))
