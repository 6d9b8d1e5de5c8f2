"""An in-process stand-in for ray: any CPU count, any completion order of the workers; arguments and results pass through
pickling as they do with the real one."""
import contextlib
import pickle
import random
import sys
import types

import cloudpickle
import ray as _real


class Ref:
    def __init__(self, blob):
        self.blob = blob


def _get(x):
    return pickle.loads(x.blob)


class _Remote:
    def __init__(self, fr, f):
        self.fr, self.f = fr, f

    def remote(self, *a, **k):
        a = [_get(x) if isinstance(x, Ref) else pickle.loads(cloudpickle.dumps(x)) for x in a]
        k = {n: _get(x) if isinstance(x, Ref) else pickle.loads(cloudpickle.dumps(x)) for n, x in k.items()}
        self.fr.calls += 1
        return Ref(cloudpickle.dumps(self.f(*a, **k)))

    def options(self, *a, **k):
        return self

    def __call__(self, *a, **k):
        raise TypeError("remote functions cannot be called directly")


class FakeRay(types.ModuleType):
    def __init__(self, rng, cpus, order):
        super().__init__("ray")
        self.rng, self.cpus, self.order, self.calls = rng, cpus, order, 0

    def is_initialized(self):
        return True

    def init(self, *a, **k):
        return None

    def nodes(self):
        return [{"NodeManagerHostname": "fake"}]

    def cluster_resources(self):
        return {"CPU": float(self.cpus), "memory": 8e9, "object_store_memory": 4e9}

    available_resources = cluster_resources

    def put(self, x):
        return Ref(cloudpickle.dumps(x))

    def get(self, x, timeout=None):
        if isinstance(x, (list, tuple)):
            return [_get(y) for y in x]
        return _get(x)

    def wait(self, ids, num_returns=1, timeout=None, fetch_local=True):
        ids = list(ids)
        n = len(ids)
        num_returns = min(num_returns, n)
        if self.order == "fifo":
            pick = list(range(num_returns))
        elif self.order == "lifo":
            pick = list(range(n - num_returns, n))
        else:
            pick = self.rng.sample(range(n), num_returns)
        return [ids[i] for i in pick], [ids[i] for i in range(n) if i not in pick]

    def remote(self, *a, **k):
        if len(a) == 1 and callable(a[0]) and not k:
            return _Remote(self, a[0])
        return lambda f: _Remote(self, f)


@contextlib.contextmanager
def fake_ray(rng=None, cpus=None, order=None):
    rng = rng or random.Random(0)
    fr = FakeRay(random.Random(rng.randrange(2**31)), cpus if cpus is not None else rng.choice([1, 2, 3, 4, 8]), order or rng.choice(["fifo", "lifo", "random"]))
    saved = []
    for name, m in list(sys.modules.items()):
        if not name.startswith("rxn_network") or m is None:
            continue
        for a, v in list(vars(m).items()):
            if v is _real:
                saved.append((m, a, v))
                setattr(m, a, fr)
            elif type(v).__name__ == "RemoteFunction" and hasattr(v, "_function"):
                saved.append((m, a, v))
                setattr(m, a, _Remote(fr, v._function))
    try:
        yield fr
    finally:
        for m, a, v in saved:
            setattr(m, a, v)
