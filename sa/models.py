"""Shared models of functions the evaluator does not descend into."""
from .interp import HostFn, Obj, ClassV, ExtV, FuncV, BoundM, Sym, Term, Unk, AbsRaise, ExcV, _MISSING
from . import interp

_THREAD = object()


def const(v):
    return lambda w, a, k, n, f: v


def _same_thread(w, a, k, n):
    return w.modns.setdefault("!thread", {}).setdefault("t", ExtV("main-thread"))


def identity(w, a, k, n, f):
    return a[0]


def _apply(w, dec, val, env, f):
    return w.call(w.eval(dec, env), [val], {}, dec)


def _keep(w, a, k, n, f):
    return a[0] if a else HostFn(lambda w2, a2, k2, n2: a2[0], "keep")


def _argspec(w, a, k, n):
    node = getattr(a[0], "node", None)
    if node is None:
        return Unk("inspect.getfullargspec()")
    return [[x.arg for x in node.args.args], None, None, None, [x.arg for x in node.args.kwonlyargs], None, {}]


def decorators(*names):
    """Apply the named decorators for real instead of passing the function through."""
    m = {"decor:" + x: _apply for x in names}
    m["qache"] = _keep
    return m


ARGSPEC = {"inspect.getfullargspec": _argspec}


def static_models(**extra):
    """Function models for analysing the non-tracing mode."""
    m = {
        "check_for_tracing_mode": const(False),
        # re-orders commuting instructions; decided separately, identity here
        "parallelize_qc": identity,
        "QuantumCircuit.depth": const(1),
    }
    m.update(extra)
    return {k: v for k, v in m.items() if v is not None}


def ext_models(**extra):
    m = {
        "threading.current_thread": _same_thread,
        "threading.main_thread": _same_thread,
        "time.time": lambda w, a, k, n: 0.0,
        "types.MethodType": lambda w, a, k, n: BoundM(a[0], a[1]),
    }
    m.update(extra)
    return m


def _while(w, a, k, n):
    cond, body, v = a
    for _ in range(10000):
        if not w.truth(w.call(cond, [v], {}, n), n):
            return v
        v = w.call(body, [v], {}, n)
    return Unk("while_loop()")


def _fori(w, a, k, n):
    lo, hi, body, v = a[:4]
    if not isinstance(lo, int) or not isinstance(hi, int):
        return Unk("fori_loop()")
    for i in range(lo, hi):
        v = w.call(body, [i, v], {}, n)
    return v


def _cond(w, a, k, n):
    return w.call(a[1] if w.truth(a[0], n) else a[2], list(a[3:]) + ([k["operand"]] if "operand" in k else []), {}, n)


def _switch(w, a, k, n):
    if not isinstance(a[0], int):
        return Unk("switch()")
    return w.call(a[1][min(max(a[0], 0), len(a[1]) - 1)], list(a[2:]), {}, n)


# the loop and branch functions of the array library, followed on known values
LOOPS = {"jax.lax.while_loop": _while, "jax.lax.fori_loop": _fori, "jax.lax.cond": _cond, "jax.lax.switch": _switch}


MACHINE = {"psutil.virtual_memory": lambda w, a, k, n: _namespace(total=2 ** 34)}


class _namespace:
    def __init__(self, **kw):
        self.__dict__.update(kw)
