#!/usr/bin/env python3
"""Run one check:  check.py <PROPERTY-ID> [--tier quick|thorough]"""
import importlib
import os
import pickle
import resource
import sys
import threading
import traceback

for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def deep(fn):
    """Run fn on a thread with room for deep recursion."""
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=fn)
    t.start()
    t.join()


def shared(ctx, mod):
    """Divide the obligations between forked processes and collect what they decided."""
    n = max(1, min(8, os.cpu_count() or 1))
    kids = []
    sys.stdout.flush()
    sys.stderr.flush()
    for k in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            out = [None, None]
            # an evaluation that outgrows this is undecided, not fatal
            resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))

            def work():
                try:
                    ctx.share = (k, n)
                    mod.run(ctx)
                    out[0] = ctx.state()
                except BaseException as e:
                    out[1] = (type(e).__name__, str(e), traceback.format_exc())
            deep(work)
            try:
                with os.fdopen(w, "wb") as f:
                    pickle.dump(out, f)
            finally:
                os._exit(0)
        os.close(w)
        kids.append((pid, r))
    fail = None
    lost = False
    got = []
    for pid, r in kids:
        with os.fdopen(r, "rb") as f:
            raw = f.read()
        os.waitpid(pid, 0)
        if not raw:
            lost = True
            continue
        st, err = pickle.loads(raw)
        if err:
            fail = fail or err
        else:
            got.append(st)
    if lost and not fail:
        # a worker was killed from outside: decide everything here
        err = []

        def alone():
            try:
                mod.run(ctx)
            except BaseException as e:
                err.append(e)
        deep(alone)
        if err:
            raise err[0]
        return
    for st in got:
        ctx.merge(st)
    if fail:
        from sa import report
        if fail[0] == "AnchorLost":
            raise report.AnchorLost(fail[1])
        sys.stderr.write(fail[2])
        raise RuntimeError(fail[1])


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "0"))
    except ValueError:
        seed = 0
    from sa import report
    code = [None]

    def guarded(fn):
        try:
            fn()
        except report.AnchorLost as e:
            print("ERROR anchor lost: %s" % e)
            code[0] = 3
        except BaseException:
            traceback.print_exc()
            code[0] = 2

    def run():
        ctx = report.Ctx(pid, tier, seed)
        mod = importlib.import_module("checks." + pid)
        if getattr(mod, "SHARED", False):
            shared(ctx, mod)
        else:
            deep(lambda: guarded(lambda: mod.run(ctx)))
        if code[0] is None:
            code[0] = report.finish(ctx)
    guarded(run)
    sys.stdout.flush()
    os._exit(code[0])


if __name__ == "__main__":
    main()
