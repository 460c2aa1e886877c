"""A simulated dask.distributed: one scheduler, any number of workers and clients in one process and
one virtual time. Stands in for the names featuretools imports from `distributed`; the code that runs
on it (calculate_feature_matrix, chunk functions, primitives) is the real one.

What is modelled: values and tasks cross a serialisation boundary (cloudpickle); scattered data lives
on workers and is unpickled once per worker; one task per worker at a time; completion order follows
seeded durations; workers may be slow, die before, within or after a task and are replaced by an
empty one; a task may be run twice; every client call may fail; completions are handed out in seeded
batches."""
import hashlib
import heapq
import pickle

SIM = None
CALLS = ("cluster", "connect", "scheduler_info", "list_datasets", "get_dataset", "scatter", "publish_dataset",
         "replicate", "who_has", "map", "submit", "gather", "wait", "close", "cluster_close")


class WorkerDied(BaseException):
    pass


def h(*a):
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:6], "big") / float(1 << 48)


def make_exc(name):
    import distributed
    from distributed.comm.core import CommClosedError
    from distributed.scheduler import KilledWorker
    return {"OSError": lambda: OSError("simulated: connection refused"),
            "TimeoutError": lambda: TimeoutError("simulated: timed out"),
            "CommClosedError": lambda: CommClosedError("simulated: comm closed"),
            "KilledWorker": lambda: KilledWorker("chunk", "tcp://sim", 3),
            "MemoryError": lambda: MemoryError("simulated: out of memory"),
            "ValueError": lambda: ValueError("simulated: bad value"),
            "KeyError": lambda: KeyError("simulated: no such key"),
            "RuntimeError": lambda: RuntimeError("simulated: failure"),
            "KeyboardInterrupt": lambda: KeyboardInterrupt(),
            "CancelledError": lambda: distributed.client.FutureCancelledError("chunk", "lost")
            if hasattr(distributed.client, "FutureCancelledError") else RuntimeError("cancelled")}[name]()


class Sim:
    """One simulated installation. conf: {"seed", "workers", "faults", "mode": "proc|thread", "mem"}"""

    def __init__(self, conf, ctx=None, yielder=None):
        self.conf = conf
        self.seed = conf.get("seed", 0)
        self.faults = [dict(f) for f in conf.get("faults", [])]
        self.ctx = ctx
        self.yielder = yielder
        self.log = []
        self.clients = []
        self.clusters = []
        self.counts = {}
        self.now = 0.0
        self.fired = []
        self.addresses = {}
        self.executions = 0
        self.transfers = {}     # key -> how often its payload was sent from a client to the cluster
        self.completion = []
        self.before_task = None
        self.sent = []
        self.whoami = None
        self.batches = []

    def hit(self, name, n=1):
        if self.ctx is not None:
            self.ctx.hit(name, n)

    def fire(self, f):
        if not f.get("fired"):
            self.fired.append(f)
        f["fired"] = True
        self.hit("fault." + f["k"])

    def call(self, op, who=None):
        """Entry of every client-side call: a scheduling point and a possible failure."""
        n = self.counts[op] = self.counts.get(op, 0) + 1
        self.log.append((op, who))
        if self.yielder is not None:
            self.yielder(op)
        for f in self.faults:
            if f["k"] == "api" and f["op"] == op and f["n"] == n and not f.get("fired"):
                self.fire(f)
                raise make_exc(f["exc"])

    def tick(self, dt):
        if dt > 0:
            self.now += dt
            from sim.seams import Clock, PRESENT
            if PRESENT:
                Clock.advance(dt)
            if self.ctx is not None:
                self.ctx.simtime += dt


class Worker:
    def __init__(self, cluster, n):
        self.cluster = cluster
        self.n = n
        self.addr = "tcp://sim-%d" % n
        self.data = {}
        self.busy = None
        self.alive = True


class Entry:
    """A piece of data on the cluster."""

    def __init__(self, key, payload, obj):
        self.key, self.payload, self.obj = key, payload, obj
        self.holders = set()


class Task:
    def __init__(self, key, payload, order):
        self.key, self.payload, self.order = key, payload, order
        self.status = "pending"
        self.result = None
        self.exc = None
        self.deaths = 0
        self.runs = 0
        self.doomed = False


class _Scheduler:
    def __init__(self, cluster):
        self.cluster = cluster
        self.address = cluster.address

    def identity(self):
        return {"services": {}, "workers": self.cluster.info()}


class SimCluster:
    """Stands for LocalCluster and for a long-lived cluster supplied by the caller."""

    def __init__(self, n_workers=None, threads_per_worker=1, processes=None, diagnostics_port=None, memory_limit=None,
                 owned=True, **kwargs):
        sim = SIM
        self.sim = sim
        self.address = "tcp://scheduler-%d" % len(sim.clusters)
        sim.call("cluster")
        self.owned = owned
        self.kwargs = dict(kwargs, n_workers=n_workers, threads_per_worker=threads_per_worker, processes=processes,
                           diagnostics_port=diagnostics_port, memory_limit=memory_limit)
        n = n_workers or sim.conf.get("workers", 2)
        self.mem = sim.conf.get("mem") or (memory_limit if isinstance(memory_limit, (int, float)) and memory_limit else 8 << 30)
        self.workers = [Worker(self, k) for k in range(n)]
        self.nextw = n
        self.entries = {}
        self.datasets = {}
        self.tasks = {}
        self.queue = []
        self.events = []
        self.seq = 0
        self.closed = 0
        self.scheduler = _Scheduler(self)
        self.scheduler_address = self.address
        self.order = 0
        sim.clusters.append(self)
        sim.addresses[self.address] = self

    # -- cluster interface
    def close(self, timeout=None, **kw):
        self.closed += 1
        self.sim.call("cluster_close")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def scale(self, n=None, **kw):
        pass

    @property
    def dashboard_link(self):
        return "http://sim"

    def info(self):
        return {w.addr: {"memory_limit": self.mem, "nthreads": 1, "name": w.n} for w in self.workers if w.alive}

    def get_client(self):
        return SimClient(self)

    # -- data
    def put(self, key, obj, holders):
        e = self.entries.get(key)
        if e is None:
            payload = None
            if self.sim.conf.get("mode") != "thread":
                import cloudpickle
                payload = cloudpickle.dumps(obj)
                obj = None
            e = self.entries[key] = Entry(key, payload, obj)
        for w in holders:
            e.holders.add(w.n)
        return e

    def value(self, worker, key):
        e = self.entries.get(key)
        if e is None or not e.holders:
            raise make_exc("CancelledError")
        if key not in worker.data:
            worker.data[key] = e.obj if e.payload is None else pickle.loads(e.payload)
            e.holders.add(worker.n)
        return worker.data[key]

    # -- virtual time
    def push(self, dt, kind, *a):
        self.seq += 1
        heapq.heappush(self.events, (self.sim.now + dt, self.seq, kind, a))

    def assign(self):
        for w in self.workers:
            if not self.queue:
                return
            if w.alive and w.busy is None:
                k = 0
                if len(self.queue) > 1 and h(self.sim.seed, "pick", self.order) < 0.3:
                    k = int(h(self.sim.seed, "which", self.order) * len(self.queue))
                self.order += 1
                self.start(w, self.queue.pop(k))

    def duration(self, w, t):
        d = 0.05 + 4.0 * h(self.sim.seed, "dur", t.order, t.runs) ** 2
        for f in self.sim.faults:
            if f["k"] == "slow" and f["w"] % 8 == w.n % 8:
                self.sim.fire(f)
                d *= f.get("factor", 20)
        return d

    def start(self, w, t):
        sim = self.sim
        n = sim.executions = sim.executions + 1
        t.runs += 1
        w.busy = t
        t.status = "running"
        plan = None
        for f in sim.faults:
            if f.get("n") == n and f["k"] in ("die", "dup", "err", "kill") and not f.get("fired"):
                plan = f
                sim.fire(f)
        if plan and plan["k"] == "kill":
            t.doomed = True
        if t.doomed:     # every worker it runs on dies
            self.push(self.duration(w, t) * 0.5, "death", w, t)
            return
        if plan and plan["k"] == "die" and plan.get("at") == "start":
            self.push(self.duration(w, t) * 0.1, "death", w, t)
            return
        if plan and plan["k"] == "err":
            self.push(self.duration(w, t), "done", w, t, None, make_exc(plan["exc"]))
            return
        line = plan["line"] if plan and plan["k"] == "die" and plan.get("at") == "mid" else None
        times = 2 if plan and plan["k"] == "dup" else 1
        res, exc = None, None
        for _ in range(times):
            res, exc = self.execute(w, t, line)
        if isinstance(exc, WorkerDied) or (plan and plan["k"] == "die"):
            self.push(self.duration(w, t), "death", w, t)
        else:
            self.push(self.duration(w, t), "done", w, t, res, exc)

    def execute(self, w, t, line=None):
        from sim import lines
        try:
            if self.sim.before_task is not None:
                self.sim.before_task(self, w, t)
            fn, args, kwargs = t.payload() if callable(t.payload) else pickle.loads(t.payload)
            sub = lambda v: self.value(w, v.key) if isinstance(v, SimFuture) else (
                [self.value(w, x.key) if isinstance(x, SimFuture) else x for x in v] if isinstance(v, list) else v)
            args = [sub(a) for a in args]
            kwargs = {k: sub(v) for k, v in kwargs.items()}
            if line is not None:
                with lines.interrupt_at(line, WorkerDied):
                    r = fn(*args, **kwargs)
            else:
                r = fn(*args, **kwargs)
            if self.sim.conf.get("mode") != "thread":
                import cloudpickle
                r = pickle.loads(cloudpickle.dumps(r))
            return r, None
        except WorkerDied as e:
            return None, e
        except Exception as e:
            return None, e

    def step(self):
        """Process the next event. False when nothing can happen any more."""
        self.assign()
        if not self.events:
            return False
        t, _, kind, a = heapq.heappop(self.events)
        self.sim.tick(t - self.sim.now)
        w, task = a[0], a[1]
        if kind == "done":
            w.busy = None
            if task.status == "running":
                task.result, task.exc = a[2], a[3]
                task.status = "error" if a[3] is not None else "finished"
                self.sim.completion.append(task.order)
        elif kind == "death":
            w.busy = None
            w.alive = False
            for e in self.entries.values():
                e.holders.discard(w.n)
            self.workers.remove(w)
            nw = Worker(self, self.nextw)
            self.nextw += 1
            self.workers.append(nw)
            task.deaths += 1
            if task.deaths > 3:
                task.status, task.exc = "error", make_exc("KilledWorker")
                self.sim.completion.append(task.order)
            else:
                task.status = "pending"
                self.queue.append(task)
        self.assign()
        return True

    def wait_for(self, pred):
        self.assign()
        while not pred():
            if not self.step():
                raise RuntimeError("simulated cluster: waiting for something that cannot happen")


class SimFuture:
    def __init__(self, key=None, client=None, cluster=None):
        self.key = key
        if cluster is None and SIM is not None:
            c = client or (SIM.clients[-1] if SIM.clients else None)
            cluster = c.cluster if c is not None else None
        self.cluster = cluster

    def __reduce__(self):
        return (SimFuture, (self.key,))

    @property
    def task(self):
        return self.cluster.tasks.get(self.key)

    @property
    def status(self):
        t = self.task
        return t.status if t is not None else "finished"

    def done(self):
        return self.status in ("finished", "error")

    def result(self, timeout=None):
        t = self.task
        if t is None:
            e = self.cluster.entries[self.key]
            return e.obj if e.payload is None else pickle.loads(e.payload)
        self.cluster.wait_for(self.done)
        if t.exc is not None:
            raise t.exc
        return t.result

    def exception(self, timeout=None):
        if self.task is None:
            return None
        self.cluster.wait_for(self.done)
        return self.task.exc

    def cancel(self, *a, **k):
        self.cluster.cancel_task(self.key) if hasattr(self.cluster, "cancel_task") else None

    def release(self):
        pass

    def add_done_callback(self, fn):
        raise NotImplementedError

    def __repr__(self):
        return "<SimFuture %s>" % self.key


class SimClient:
    def __init__(self, address=None, *args, **kwargs):
        sim = SIM
        sim.call("connect")
        self.thread = sim.whoami() if sim.whoami else None
        cluster = address
        if isinstance(cluster, str):
            cluster = sim.addresses[cluster]
        if cluster is None:
            cluster = SimCluster()
        if cluster.closed:
            raise OSError("simulated: cluster is closed")
        self.cluster = cluster
        self.sim = sim
        self.id = "Client-%d" % len(sim.clients)
        self.closed = 0
        self.used_after_close = 0
        self.open_tasks_at_close = None
        self.nsub = 0
        sim.clients.append(self)

    @classmethod
    def current(cls, *a, **k):
        raise ValueError("No global client found")

    def _call(self, op):
        if self.closed:
            self.used_after_close += 1
            raise RuntimeError("simulated: client is closed")
        self.sim.call(op, self.id)
        if self.cluster.closed:
            raise make_exc("CommClosedError")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def scheduler_info(self, **kw):
        self._call("scheduler_info")
        return {"address": self.cluster.address, "workers": self.cluster.info()}

    def ncores(self, *a, **k):
        return {w.addr: 1 for w in self.cluster.workers if w.alive}

    nthreads = ncores

    def list_datasets(self, **kw):
        self._call("list_datasets")
        return tuple(sorted(self.cluster.datasets))

    def get_dataset(self, name, *default, **kw):
        self._call("get_dataset")
        if name not in self.cluster.datasets:
            if default:
                return default[0]
            raise KeyError("Dataset '%s' not found" % name)
        return SimFuture(self.cluster.datasets[name], cluster=self.cluster)

    def publish_dataset(self, *args, name=None, override=False, **kwargs):
        self._call("publish_dataset")
        if name is not None:
            kwargs[name] = args[0]
        for k, v in kwargs.items():
            if k in self.cluster.datasets and not override:
                raise KeyError("Dataset %s already exists" % k)
            self.cluster.datasets[k] = v.key
        return None

    def unpublish_dataset(self, name, **kw):
        self._call("unpublish_dataset")
        del self.cluster.datasets[name]

    def scatter(self, data, workers=None, broadcast=False, direct=None, hash=True, timeout=None, asynchronous=None):
        from dask.base import tokenize
        self._call("scatter")
        unpack = not isinstance(data, (list, tuple, set, frozenset, dict))
        if unpack:
            data = [data]
        if isinstance(data, dict):
            items = dict(data)
        else:
            items = {}
            for x in data:
                tok = tokenize(x) if hash else "%s-%d" % (self.id, len(self.cluster.entries))
                items[type(x).__name__ + "-" + tok] = x
        alive = [w for w in self.cluster.workers if w.alive]
        futs = []
        for k, x in items.items():
            tgt = alive if broadcast else [alive[int(h(self.sim.seed, "scatter", len(self.cluster.entries)) * len(alive))]]
            self.sim.transfers[k] = self.sim.transfers.get(k, 0) + 1
            self.sim.sent.append((self.id, k))
            self.cluster.put(k, x, tgt)
            futs.append(SimFuture(k, cluster=self.cluster))
        self.sim.tick(0.3)
        if isinstance(data, dict):
            return {k: f for k, f in zip(items, futs)}
        return futs[0] if unpack else type(data)(futs)

    def replicate(self, futures, n=None, workers=None, **kw):
        self._call("replicate")
        futures = futures if isinstance(futures, (list, tuple)) else [futures]
        frac = self.sim.conf.get("replicate", 1.0)
        for f in futures:
            e = self.cluster.entries.get(f.key)
            if e is None or not e.holders:
                raise make_exc("CancelledError")
            for w in self.cluster.workers:
                if w.alive and h(self.sim.seed, "rep", f.key, w.n) <= frac:
                    e.holders.add(w.n)

    def who_has(self, futures=None, **kw):
        self._call("who_has")
        futures = futures if isinstance(futures, (list, tuple)) else [futures]
        out = {}
        for f in futures:
            e = self.cluster.entries.get(f.key)
            out[f.key] = tuple("tcp://sim-%d" % n for n in sorted(e.holders)) if e is not None else ()
        return out

    def has_what(self, *a, **k):
        return {}

    def _submit(self, fn, args, kwargs, given=None):
        c = self.cluster
        n = len(c.tasks)
        if self.sim.conf.get("mode") == "thread":
            args, kwargs = list(args), dict(kwargs)
            payload = lambda: (fn, args, kwargs)
        else:
            import cloudpickle
            payload = cloudpickle.dumps((fn, list(args), dict(kwargs)))
        if given is not None and given in c.tasks and any(not h.closed for h in c.tasks[given].holders):
            c.tasks[given].holders.append(self)       # as on a real scheduler: a key that is known is not computed again
            return SimFuture(given, cluster=c)
        key = given if given is not None else "%s-%s-%d" % (getattr(fn, "__name__", "fn"), self.id, n)
        c.tasks[key] = Task(key, payload, n)
        c.tasks[key].holders = [self]
        c.queue.append(c.tasks[key])
        return SimFuture(key, cluster=c)

    def map(self, func, *iterables, key=None, workers=None, retries=None, resources=None, priority=0,
            allow_other_workers=False, fifo_timeout="100 ms", actor=False, actors=False, pure=None, batch_size=None, **kwargs):
        self._call("map")
        args = list(zip(*iterables))
        keys = list(key) if isinstance(key, (list, tuple)) else [None] * len(args)
        return [self._submit(func, a, kwargs, k) for a, k in zip(args, keys)]

    def submit(self, func, *args, key=None, workers=None, resources=None, retries=None, priority=0,
               fifo_timeout="100 ms", allow_other_workers=False, actor=False, actors=False, pure=None, **kwargs):
        self._call("submit")
        return self._submit(func, args, kwargs, key)

    def gather(self, futures, errors="raise", direct=None, asynchronous=None):
        self._call("gather")
        if isinstance(futures, SimFuture):
            return futures.result()
        if isinstance(futures, dict):
            return {k: f.result() for k, f in futures.items() if errors != "skip" or f.exception() is None}
        kind = type(futures) if isinstance(futures, (list, tuple, set)) else list
        return kind([f.result() for f in futures if errors != "skip" or f.exception() is None])

    def cancel(self, futures, **kw):
        self._call("cancel")

    def run(self, fn, *args, **kw):
        raise NotImplementedError("simulated cluster: Client.run")

    def wait_for_workers(self, *a, **k):
        self._call("wait")

    def close(self, timeout=None):
        self.open_tasks_at_close = sum(1 for t in self.cluster.tasks.values()
                                       if t.status in ("pending", "running") and all(h is self or h.closed for h in t.holders))
        first = not self.closed
        self.closed += 1
        if first:
            self.sim.call("close", self.id)

    shutdown = close


class as_completed:
    def __init__(self, futures=None, loop=None, with_results=False, raise_errors=True, timeout=None):
        self.left = list(futures or [])
        self.with_results = with_results
        self.raise_errors = raise_errors
        self.nb = 0

    def add(self, f):
        self.left.append(f)

    def update(self, fs):
        self.left += list(fs)

    def count(self):
        return len(self.left)

    def is_empty(self):
        return not self.left

    def __iter__(self):
        return self

    def _ready(self):
        c = self.left[0].cluster
        done = [f for f in self.left if f.done()]
        if not done:
            c.wait_for(lambda: any(f.done() for f in self.left))
            done = [f for f in self.left if f.done()]
        pos = {o: k for k, o in enumerate(c.sim.completion)}
        done.sort(key=lambda f: pos.get(f.task.order, -1) if f.task else -1)
        return done

    def _out(self, f):
        self.left.remove(f)
        if self.with_results:
            return (f, f.result() if self.raise_errors or f.task.exc is None else f.task.exc)
        return f

    def __next__(self):
        if not self.left:
            raise StopIteration
        sim = self.left[0].cluster.sim
        sim.call("wait")
        return self._out(self._ready()[0])

    next = __next__

    def next_batch(self, block=True):
        sim = self.left[0].cluster.sim
        sim.call("wait")
        c = self.left[0].cluster
        # the client may have been away for a while: more than one may have completed
        self.nb += 1
        self._ready()
        more = int(h(sim.seed, "batch", self.nb) * 4)
        while more > 0 and any(not f.done() for f in self.left):
            more -= 1
            if not c.step():
                break
        fs = self._ready()
        sim.batches.append(len(fs))
        return [self._out(f) for f in fs]

    def batches(self):
        while self.left:
            yield self.next_batch()


def wait(fs, timeout=None, return_when="ALL_COMPLETED"):
    fs = list(fs)
    if fs:
        fs[0].cluster.sim.call("wait")
        fs[0].cluster.wait_for(lambda: all(f.done() for f in fs))
    from collections import namedtuple
    return namedtuple("DoneAndNotDoneFutures", "done not_done")(set(fs), set())


def install():
    """Put the stand-ins where featuretools looks for them. Called before it is imported."""
    import dask
    import dask.distributed
    import distributed
    import distributed.client
    import psutil
    dask.config.set(scheduler="synchronous")
    for m in (distributed, distributed.client, dask.distributed):
        m.Client = SimClient
        m.Future = SimFuture
        m.as_completed = as_completed
        m.wait = wait
    for m in (distributed, dask.distributed):
        m.LocalCluster = SimCluster
    if hasattr(distributed, "deploy"):
        distributed.deploy.LocalCluster = SimCluster
        if hasattr(distributed.deploy, "local"):
            distributed.deploy.local.LocalCluster = SimCluster
    psutil.Process.cpu_affinity = lambda self, *a: list(range(8))
    psutil.cpu_count = lambda *a, **k: 8

    class VM:
        total = 64 << 30
        available = 32 << 30
    psutil.virtual_memory = lambda: VM


def start(conf, ctx=None, yielder=None):
    global SIM
    SIM = Sim(conf, ctx, yielder)
    return SIM
