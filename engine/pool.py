"""Run independent analyses in forked workers (inherit facts, return plain data)."""
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback
from bdd import Blowup
from interp import Unsupported, Unbounded
from facts import MissingAnchor

_fn = None
MEM = 3600 << 20      # address space of one worker
SECONDS = 300         # time of one item


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout(f"more than {SECONDS} s")


def _call(x):
    t = time.time()
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(SECONDS)
        r = _fn(x)
        signal.alarm(0)
        if os.environ.get("VERIF_COST"):
            from bdd import B
            print(f"COST {len(B.lo)} nodes {time.time() - t:.0f} s {str(x)[:150]}", file=sys.stderr)
        return ("ok", x, r)
    except MemoryError:
        from bdd import B
        B.__init__()
        return ("big", x, "the analysis ran out of memory")
    except (Blowup, Timeout) as e:
        return ("big", x, f"{type(e).__name__}: {e}")
    except (Unsupported, Unbounded, MissingAnchor) as e:
        return ("unsup", x, f"{type(e).__name__}: {e}")
    except Exception as e:   # an engine defect is never a verdict
        return ("unsup", x, "engine: " + traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)


def _init():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))


class NoAnswer(Exception):
    pass


PENDING = []          # items without an answer: no verdict "held" is possible


def _map(items, procs, alone=True):
    if os.environ.get("VERIF_SERIAL") or alone and len(items) <= 1:
        return [_call(x) for x in items]
    ctx = mp.get_context("fork")
    with ctx.Pool(procs or min(8, os.cpu_count() or 1, len(items)), maxtasksperchild=1, initializer=_init) as p:
        return p.map(_call, items, chunksize=1)


def pmap(fn, items, procs=None, split=None, rounds=3):
    """[(item, result)] of the items that could be analysed; the others are
    left in PENDING, which check.py turns into "no answer" unless the rest
    already shows a violation.  An item that is too big is replaced by the
    cases that `split` divides it into, if there are any."""
    global _fn
    _fn = fn
    items, done = list(items), []
    for n in range(rounds + 1):
        again = []
        for k, x, r in _map(items, procs, split is None):
            parts = split(x) if k == "big" and split and n < rounds else None
            if k == "ok":
                done.append((x, r))
            elif parts:
                again += parts
            else:
                PENDING.append(f"{x}: {r}")
        items = again
        if not items:
            break
    return done
