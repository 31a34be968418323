"""Concrete side: reads assignments (one JSON per line), runs the harness on the real package."""
import json
import os
import sys
import traceback
import warnings


def fresh(repo):
    for k in [k for k in sys.modules if k == "ries" or k.startswith("ries.")]:
        del sys.modules[k]
    if not sys.path or sys.path[0] != repo:
        sys.path.insert(0, repo)


def run_one(prop, name, tier, assignment, verbose=False):
    from . import ctx as C
    import importlib

    repo = C.REPO
    fresh(repo)
    mod = importlib.import_module("harness." + prop.lower())
    h = mod.HARNESSES[name]
    c = C.Concrete(assignment, tier, h.get("params"), rtol=h.get("rtol", 1e-7))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            h["fn"](c)
        return {"status": "ok", "checked": c.checked}
    except C.AssumeFailed as ex:
        return {"status": "assume", "detail": str(ex)}
    except C.CheckFailed as ex:
        return {"status": "violated", "label": str(ex)}
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        rp = os.path.realpath(repo) + os.sep
        inrepo = any(os.path.realpath(f.filename).startswith(rp) for f in tb)
        text = "".join(traceback.format_exception(ex))
        if verbose:
            print(text, file=sys.stderr)
        if inrepo or _unusable_result(ex, tb):
            return {"status": "violated", "label": "%s: %s" % (type(ex).__name__, ex), "trace": text[-800:]}
        return {"status": "error", "detail": text[-1500:]}
    finally:
        c.close()


def _unusable_result(ex, tb):
    """the harness got something from the code that has the wrong type or size (rather than calling it in a wrong way)"""
    here = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
    if not os.path.realpath(tb[-1].filename).startswith(os.path.join(here, "harness") + os.sep):
        return False
    if isinstance(ex, (IndexError, KeyError, ValueError, ZeroDivisionError, OverflowError)):
        return True
    if isinstance(ex, TypeError):
        return "argument" not in str(ex)
    if isinstance(ex, AttributeError):
        return ex.obj is None or _documented(ex.obj, ex.name)
    return False


def _documented(obj, name):
    """whether the class of the object documents the attribute"""
    docs = [d or "" for k in type(obj).__mro__ for d in (k.__dict__.get("__doc__"), getattr(k.__dict__.get("__init__"), "__doc__", None))]
    return any("`%s`" % name in d for d in docs)


def main():
    prop, name, tier = sys.argv[1:4]
    out = os.dup(1)
    os.dup2(2, 1)  # anything the code prints goes elsewhere
    f = os.fdopen(out, "w")
    for line in sys.stdin:
        r = run_one(prop, name, tier, json.loads(line))
        f.write(json.dumps(r) + "\n")
        f.flush()


if __name__ == "__main__":
    main()
