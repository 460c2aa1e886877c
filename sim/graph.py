"""A simulated dask scheduler: executes a task graph in one thread in a seeded order, with results lost,
tasks executed again, and values copied between workers."""
import cloudpickle


class Graph:
    """scheduler=Graph(rng, ...): pass as dask's `scheduler`. order: how the next ready task is chosen."""

    def __init__(self, rng, order="random", redo=0.0, lost=0.0, copy=0.0, budget=200, on=None):
        self.rng, self.order, self.redo, self.lost, self.copy, self.budget = rng, order, redo, lost, copy, budget
        self.on = on or (lambda what: None)
        self.tasks = self.executed = 0

    def __call__(self, dsk, keys, **kw):
        from dask.core import flatten, get_dependencies, istask
        from dask.utils import ensure_dict
        dsk = ensure_dict(dsk)
        rng = self.rng
        deps = {k: sorted(get_dependencies(dsk, k), key=repr) for k in sorted(dsk, key=repr)}
        users = {k: [] for k in dsk}
        for k, ds in deps.items():
            for d in ds:
                users[d].append(k)
        wanted = list(flatten([keys])) if not isinstance(keys, list) else list(flatten(keys))
        rank = {k: n for n, k in enumerate(deps)}
        cache = {}
        needed = set()

        def need(k):
            todo = [k]
            while todo:
                q = todo.pop()
                if q in needed or q in cache:
                    continue
                needed.add(q)
                todo += deps[q]
        for k in wanted:
            need(k)
        self.tasks = len(needed)
        while needed:
            ready = [k for k in sorted(needed, key=rank.get) if all(d in cache for d in deps[k])]
            if self.order == "random":
                k = rng.choice(ready)
            elif self.order == "last":
                k = ready[-1]
            else:
                k = ready[0]
            cache[k] = self.execute(dsk[k], cache)
            needed.discard(k)
            self.executed += 1
            if istask(dsk[k]) and self.budget > 0 and rng.random() < self.redo:
                self.budget -= 1
                cache[k] = self.execute(dsk[k], cache)
                self.executed += 1
                self.on("redo")
            if self.budget > 0 and rng.random() < self.lost:
                # a worker with some results dies; whatever is still wanted is computed again
                self.budget -= 1
                have = sorted(cache, key=rank.get)
                for g in rng.sample(have, min(len(have), rng.randint(1, 3))):
                    del cache[g]
                self.on("lost")
                for q in wanted + [d for q in list(needed) for d in deps[q]]:
                    if q not in cache:
                        need(q)
                for q in list(needed):
                    for d in deps[q]:
                        if d not in cache:
                            need(d)

        def fetch(ks):
            return [fetch(x) for x in ks] if isinstance(ks, list) else cache[ks]
        return fetch(keys)

    def execute(self, task, cache):
        from dask.core import _execute_task
        if self.copy and self.rng.random() < self.copy:
            self.on("copy")
            task, cache = cloudpickle.loads(cloudpickle.dumps((task, {k: cache[k] for k in self.used(task, cache)})))
        return _execute_task(task, cache)

    def used(self, task, cache):
        from dask.core import keys_in_tasks
        return sorted(keys_in_tasks(cache, [task]), key=repr)
