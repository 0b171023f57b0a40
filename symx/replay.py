"""concrete execution of the same harnesses against the untransformed code.

`ConcreteCtx` has the interface of core.Ctx; inputs come from a solver model.  Run as
`python -m symx.replay <check module>` it is a server: one JSON line per instance in, one out.
`python -m symx.replay --file replay.json` reruns one recorded counterexample.
"""
import importlib
import json
import math
import os
import signal
import sys
import tempfile
import traceback

REPO = os.environ.get("SYMX_REPO", "/repo")


class Skip(BaseException):
    """the inputs do not satisfy an assumption of the harness"""


class Failed(BaseException):
    pass


class ConcreteCtx:
    symbolic = False

    def __init__(self, inputs):
        self.v = inputs
        self.labels = []
        self.failures = []

    def _get(self, name, default):
        return self.v.get(name, default)

    def real(self, name, lo=None, hi=None, nonzero=False, positive=False):
        x = float(self._get(name, lo if lo is not None else (1.0 if nonzero or positive else 0.0)))
        if (lo is not None and x < lo) or (hi is not None and x > hi) or (nonzero and x == 0) or (positive and x <= 0):
            raise Skip(name)
        return x

    def angle(self, name, lo=-360, hi=360):
        x = float(self._get(name, 0.0))
        if x < lo:
            x += 360
        if x > hi:
            x -= 360
        if x < lo or x > hi:
            raise Skip(name)
        return x

    def int(self, name, lo=None, hi=None):
        x = int(self._get(name, lo if lo is not None else 0))
        if (lo is not None and x < lo) or (hi is not None and x > hi):
            raise Skip(name)
        return x

    def bool(self, name):
        return bool(self._get(name, False))

    def complex(self, name, **kw):
        return complex(self.real(name + ".re", **kw), self.real(name + ".im", **kw))

    def str(self, name, minlen=1, maxlen=3, alphabet=None, lo=32, hi=126, first=None):
        return str(self._get(name, (first or alphabet or "a")[0] * min(minlen, 1) + (alphabet or "a")[0] * max(minlen - 1, 0)))

    def choice(self, name, options):
        options = list(options)
        return options[int(self._get(name, len(options) - 1 if len(options) == 1 else 0))]

    def perm(self, name, items):
        items = list(items)
        out = []
        k = 0
        while len(items) > 1:
            i = self.choice(f"{name}.{k}", range(len(items)))
            out.append(items.pop(i))
            k += 1
        return out + items

    def assume(self, cond):
        if not bool(cond):
            raise Skip("assume")

    def check(self, cond, label):
        self.labels.append(label)
        import numpy as np
        if isinstance(cond, np.ndarray):
            cond = bool(np.all(cond))
        if not bool(cond):
            self.failures.append(label)
            return False
        return True

    def close(self, a, b, label, rtol=1e-6, atol=1e-9):
        self.labels.append(label)
        ok = self._close(a, b, rtol, atol)
        if not ok:
            self.failures.append(label)
        return ok

    @staticmethod
    def _close(a, b, rtol, atol):
        if a is None or b is None:
            return a is b
        try:
            a, b = complex(a), complex(b)
        except (TypeError, ValueError):
            return False
        for x, y in ((a.real, b.real), (a.imag, b.imag)):
            if math.isnan(x) and math.isnan(y) or x == y:
                continue
            # slack: the symbolic side works on exact rationals, this side on floats
            if not abs(x - y) <= 4 * (atol + rtol * abs(y)):
                return False
        return True

    def fail(self, label):
        self.check(False, label)

    def trig_facts(self):
        pass

    def angle_facts(self):
        pass

    def trust_roots(self):
        pass

    def reach(self, label):
        self.labels.append("reach:" + label)


def setup_plain():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    from loguru import logger
    logger.remove()
    logger.disable("mt_metadata")


def run_one(func, params, inputs, timeout=20):
    ctx = ConcreteCtx(inputs)
    out = {"failures": [], "labels": [], "exc": None, "skip": None}

    def alarm(*_):
        raise TimeoutError("harness time limit")
    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(timeout)
    cwd = os.getcwd()
    try:
        func(ctx, **params)
    except Skip as e:
        out["skip"] = str(e)
    except Failed:
        pass
    except TimeoutError as e:
        out["skip"] = "timeout"
    except MemoryError:
        out["skip"] = "memory"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        out["exc"] = f"{type(e).__name__}: {str(e)[:300]} at {tb[-1].filename}:{tb[-1].lineno}"
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        os.chdir(cwd)
    out["labels"] = ctx.labels
    out["failures"] = ctx.failures
    return out


def find(mod, tier, name):
    for t in (tier, "quick", "thorough"):
        for inst in mod.instances(t):
            if inst[0] == name:
                return inst
    raise KeyError(name)


def serve(modname, tier):
    setup_plain()
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    mod = importlib.import_module(modname)
    insts = {i[0]: i for i in mod.instances(tier)}
    for m in getattr(mod, "IMPORTS", []):
        importlib.import_module(m)
    kids = {}
    import select
    fd = sys.stdin.fileno()
    buf = b""
    eof = False
    queue = []
    while True:
        while queue and len(kids) < 6:
            req = json.loads(queue.pop(0))
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                inst = insts[req["instance"]]
                res = []
                with tempfile.TemporaryDirectory() as tmp:
                    os.environ["SYMX_TMP"] = tmp
                    for it in req["items"]:
                        res.append(run_one(inst[1], inst[2], it))
                with os.fdopen(w, "w") as f:
                    json.dump({"instance": req["instance"], "tag": req.get("tag"), "results": res}, f)
                os._exit(0)
            os.close(w)
            kids[r] = (pid, b"", req)
        rl = list(kids) + ([] if eof else [fd])
        if not rl and not queue:
            return
        ready, _, _ = select.select(rl, [], [], 1.0)
        for q in ready:
            if q == fd:
                d = os.read(fd, 1 << 16)
                if not d:
                    eof = True
                buf += d
                while b"\n" in buf:
                    line, buf = buf.split(b"\n", 1)
                    queue.append(line)
            else:
                pid, acc, req = kids[q]
                d = os.read(q, 1 << 16)
                if d:
                    kids[q] = (pid, acc + d, req)
                else:
                    os.close(q)
                    os.waitpid(pid, 0)
                    del kids[q]
                    out.write((acc.decode() if acc else json.dumps(
                        {"instance": req["instance"], "tag": req.get("tag"), "results": []})) + "\n")
                    out.flush()


def main():
    if sys.argv[1] == "--file":
        rec = json.load(open(sys.argv[2]))
        setup_plain()
        mod = importlib.import_module(rec["module"])
        inst = find(mod, rec["tier"], rec["instance"])
        with tempfile.TemporaryDirectory() as tmp:
            os.environ["SYMX_TMP"] = tmp
            r = run_one(inst[1], inst[2], rec["inputs"])
        print(json.dumps({"property": rec["property"], "instance": rec["instance"], "inputs": rec["inputs"],
                          "failures": r["failures"], "exception": r["exc"], "skipped": r["skip"]}, indent=1))
        sys.exit(1 if r["failures"] or r["exc"] else 0)
    serve(sys.argv[1], sys.argv[2])


if __name__ == "__main__":
    main()
