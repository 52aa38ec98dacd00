"""Helpers shared by the checks that look at extracted gates and circuits."""
import numpy as np

from sa import oracle as O
from sa.interp import (explore, World, Sym, App, Unk, Obj, ClassV, FuncV, BoundM, ExtV, Term, AbsRaise, ExcV,
                       Imprecise, HostFn, free_syms)
from sa.models import static_models, ext_models, const, identity
from sa.loader import loc
from sa.report import AnchorLost

# public constructor name -> (gate name, parameter count)
FACTORIES = {
    "XGate": "x", "YGate": "y", "ZGate": "z", "HGate": "h", "SGate": "s", "TGate": "t", "SXGate": "sx",
    "SXDGGate": "sx_dg", "IDGate": "id", "RXGate": "rx", "RYGate": "ry", "RZGate": "rz", "PGate": "p", "U1Gate": "u1",
    "GPhaseGate": "gphase", "u3Gate": "u3", "RGate": "r", "CXGate": "cx", "CYGate": "cy", "CZGate": "cz", "CPGate": "cp",
    "SwapGate": "swap", "RXXGate": "rxx", "RZZGate": "rzz", "XXYYGate": "xxyy",
}


def psyms(n, kind="float", prefix="p"):
    return [Sym("%s%d" % (prefix, i), kind) for i in range(n)]


def run_paths(ctx, body, syms=(), max_paths=64, samples=True, models=None, emodels=None, limit=120, **kw):
    """Explore body(world); parameter samples prune partitions."""
    pts = O.valuations([s.name for s in syms], limit) if samples and syms else None
    outs, complete = explore(ctx.prog, body, max_paths=max_paths, fmodels=static_models(**(models or {})),
                             emodels=ext_models(**(emodels or {})), samples=pts, **kw)
    for o in outs:
        ctx.visit_world(o.world)
        if o.kind in ("ok", "raise"):
            unknown = [k for k, _ in o.conds if not evaluable(k, (o.world.samples or [{}])[0])]
            if unknown:
                o.kind, o.value = "imprecise", Imprecise("depends on %s" % (str(unknown[0])[:200],))
    return outs, complete


def evaluable(k, env):
    """Whether a condition is about the parameters alone (and not about a call that is not modelled)."""
    env = dict(env)
    for i, name in enumerate(sorted(s.name for s in free_syms(k))):
        env.setdefault(name, O.GENERIC[i % len(O.GENERIC)])
    return O.eval_bool(k, env) is not None


def points(o, syms):
    """Parameter points that belong to the partition of outcome o."""
    if not syms:
        return [{}]
    pts = o.world.samples if o.world.samples is not None else O.valuations([s.name for s in syms])
    return [e for e in pts if O.cond_holds(o.conds, e)]


def describe(conds, n=4):
    return "; ".join("%s=%s" % (str(k)[:80], v) for k, v in conds[:n])


def name_matrix(op, env):
    """Textbook matrix of the operation's published name and parameters, or None."""
    a = op.attrs
    nm = a.get("name")
    if not isinstance(nm, str) or nm not in O.GATES:
        return None
    cs = a.get("ctrl_state")
    nq, npar, f = O.GATES[nm]
    ps = a.get("params")
    if nm == "id":
        return O.I2
    if not isinstance(ps, list) or len(ps) != npar:
        return None
    if isinstance(cs, str) and "0" in cs:
        base = a.get("base_operation")
        if isinstance(base, Obj) and nm.startswith("c") and nm[1:] in O.GATES:
            return O.ctrl(O.GATES[nm[1:]][2](*[O.num(x, env) for x in ps]), len(cs), cs)
        return None
    return f(*[O.num(x, env) for x in ps])


def fn_loc(ctx, modname, name):
    ent = ctx.prog.resolve(modname, name)
    if ent is None:
        return modname + "." + name
    if ent[0] in ("def", "class"):
        return "%s (%s)" % (loc(ent[2]), name)
    return modname + "." + name


def construct(w, name, args=(), kwargs=None, mod="qrisp"):
    return w.call(w.lookup(mod, name), list(args), dict(kwargs or {}), None)


def meth(w, obj, name, /, *args, **kw):
    return w.call(w.getattr(obj, name), list(args), kw, None)


def new_circuit(w, nq, nc=0):
    return construct(w, "QuantumCircuit", [nq, nc], mod="qrisp.circuit")


def gate(w, fac, *args):
    return construct(w, fac, args, mod="qrisp.circuit")


def check_matrix(ctx, rid, key, where, op, ref, syms, o, upto_phase=False, vias=("definition", "denotation")):
    """Compare the denotation of op with ref(env) on the partition's points."""
    pts = points(o, syms)
    done = False
    for env in pts:
        for via in vias:
            try:
                M = O.op_matrix(op, env, via)
                R = ref(env)
            except O.Undenotable as e:
                ctx.unresolved(rid, key, e)
                return
            if M.shape != R.shape or not O.equal(M, R, upto_phase):
                extra = ""
                if M.shape == R.shape and O.equal(M, R, True):
                    extra = " (differs by a global phase)"
                ctx.violate(rid, key, where, "extracted matrix differs from the specification at %s%s [%s] when %s" % (
                    env, extra, via, describe(o.conds)))
                return
            done = True
    if done:
        ctx.ok(rid, key)
