"""One solver call in a forked child, so that a call that ignores its time limit can be killed."""
import json
import os
import select
import signal
import time
import z3


def make(tactic, seed=1):
    if tactic == "nlsat":
        s = z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "elim-term-ite", "qfnra-nlsat").solver()
    else:
        s = z3.Solver()
        s.set("random_seed", seed)
    return s


def val(m, v):
    x = m.eval(v, model_completion=True)
    if z3.is_rational_value(x):
        f = x.as_fraction()
        return [f.numerator, f.denominator]
    if z3.is_int_value(x):
        return [x.as_long(), 1]
    if z3.is_algebraic_value(x):
        f = x.approx(30).as_fraction()
        return [f.numerator, f.denominator]
    return None


def solve(cons, seconds, tactic=None, inputs=(), seed=1):
    """-> (verdict, values of the inputs or None); inputs: [(name, term)]"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(int(seconds) + 2)
            out = {"r": "unknown"}
            try:
                s = make(tactic, seed)
                for c in cons:
                    s.add(c)
                v = s.check()
                out["r"] = str(v)
                if v == z3.sat:
                    m = s.model()
                    out["m"] = {n: val(m, t) for n, t in inputs}
            except z3.Z3Exception as ex:
                out["r"] = "unknown"
            os.write(w, json.dumps(out).encode())
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    end = time.time() + seconds
    try:
        while True:
            left = end - time.time()
            if left <= 0:
                break
            ready, _, _ = select.select([r], [], [], left)
            if not ready:
                break
            chunk = os.read(r, 1 << 16)
            if not chunk:
                break
            data += chunk
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    if not data:
        return "unknown", None
    try:
        out = json.loads(data.decode())
    except ValueError:
        return "unknown", None
    return out["r"], out.get("m")
