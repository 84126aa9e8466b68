"""Transactions of delayed tasks with arbitrary durations and failures under a
recording lock; every public modification of collections and views (also with
a failing step) with the lock observed at each write; process locks competed
for by forked processes, copied by pickling. Non-trivial: at least one task."""
import os
import threading
import time
import warnings

import numpy

from rtc import base, zc
from rtc import c05


def recording():
    from zcollection import sync

    class RecSync(sync.Sync):

        def __init__(self):
            self.lock = threading.Lock()
            self.held = False
            self.enter = self.leave = 0

        def __enter__(self):
            self.lock.acquire()
            self.held = True
            self.enter += 1
            return True

        def __exit__(self, *a):
            self.held = False
            self.leave += 1
            self.lock.release()

        def is_locked(self):
            return self.held

        def __reduce__(self):
            return (current, ())

    s = RecSync()
    CUR['s'] = s
    return s


CUR = {}


def current():
    return CUR['s']


class Boom(Exception):
    pass


LOG = []


def task(a):
    n, delay, fail = a
    LOG.append(('start', n, current().held))
    time.sleep(delay / 1000)
    LOG.append(('end', n, current().held))
    if fail:
        raise Boom(f'task {n}')
    return n * 10


def transaction(i):
    from zcollection import dask_utils, storage
    cl = base.client()
    s = recording()
    log = LOG
    log.clear()
    err = []
    tasks = [tuple(t) for t in i['tasks']]
    futures = dask_utils.delayed_map('t', task, tasks)
    time.sleep(0.01)
    if log:
        err.append('tasks started before the transaction')
    failing = [t[0] for t in tasks if t[2]]
    try:
        got = storage.execute_transaction(cl, s, futures)
        if failing:
            err.append(f'errors of {failing} swallowed: {got}')
        elif tasks and list(got) != [t[0] * 10 for t in tasks]:
            err.append(f'results {got}')
    except Boom as exc:
        if not failing or int(str(exc).split()[1]) not in failing:
            err.append(f'unexpected {exc!r}')
    if s.held:
        err.append('lock kept')
    n = len(log)
    time.sleep(max([t[1] for t in tasks], default=0) / 1000 + 0.02)
    if len(log) != n:
        err.append('tasks still running after the transaction')
    bad = [x for x in log if not x[2]]
    if bad:
        err.append(f'tasks running without the lock: {bad[:4]}')
    started = {x[1] for x in log if x[0] == 'start'}
    ended = {x[1] for x in log if x[0] == 'end'}
    if started != {t[0] for t in tasks} or started != ended:
        err.append(f'started {sorted(started)} ended {sorted(ended)}')
    return err


WRITES = dict(root=None, bad=[], n=0)


def install():
    """Writes observed through the hook of the fault file system."""

    def hook(path, op):
        root = WRITES['root']
        if root is None or root not in str(path):
            return
        rel = str(path)[str(path).index(root) + len(root):]
        if '=' not in rel and '.immutable' not in rel:
            return  # configuration
        WRITES['n'] += 1
        s = CUR.get('s')
        if s is not None and not s.held:
            WRITES['bad'].append((op, rel))
        if WRITES.get('fail') is not None:
            WRITES['fail'] -= 1
            if WRITES['fail'] < 0:
                raise c05.Injected(5, f'injected in {op}')

    c05.hook = hook


def ops(i):
    real = c05.hook
    install()
    p = base.scratch()
    try:
        fs = c05.FaultFS()
        s = zc.Schema(i['kind'], res='D', ncol=2, delayed=i['delayed'],
                      imm=i['imm'])
        rows = s.rows(i['times'], i['keys'], 2)
        base.client()
        Z = zc.z()
        lock = recording()
        c = Z.create_collection('time', s.dataset(rows), s.handler(), p,
                                filesystem=fs, synchronizer=lock)
        err = []

        def run(label, f, fail=None):
            CUR['s'] = lock
            WRITES.update(root=os.path.dirname(p), bad=[], n=0, fail=fail)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    f()
            except Exception as exc:
                if fail is None:
                    raise
            finally:
                WRITES.update(root=None, fail=None)
            if lock.held or lock.enter != lock.leave:
                err.append(f'{label} fail={fail}: lock kept')
                lock.__exit__()
            if WRITES['bad']:
                err.append(f'{label} fail={fail}: written without the lock '
                           f'{WRITES["bad"][:3]}')
            time.sleep(0.02 if fail is not None else 0)

        m = Z.meta
        nv = m.Variable('w', numpy.dtype('f8'), dimensions=(s.dim, ),
                        fill_value=1.5)
        f = i['fail']
        run('insert', lambda: list(c.insert(s.dataset(rows))), f)
        run('insert', lambda: list(c.insert(s.dataset(rows))))
        run('insert again', lambda: list(c.insert(s.dataset(rows),
                                                  npartitions=2)))
        from zcollection.merging import merge_time_series
        if i['kind'] == 'date':
            run('merge', lambda: list(c.insert(
                s.dataset(rows), merge_callable=merge_time_series)), f)
        run('update', lambda: c.update(
            lambda z: {'v1': zc.values(z['v1']) * 2}, npartitions=2), f)
        run('update', lambda: c.update(
            lambda z: {'v1': zc.values(z['v1']) * 2}))
        run('update overlap', lambda: c.update(
            lambda z: {'v1': zc.values(z['v1'])}, depth=1, trim=True))
        run('add', lambda: c.add_variable(nv))
        vp = p + '-view'
        views = []
        run('create view', lambda: views.append(Z.create_view(
            vp, Z.view.ViewReference(p, filesystem=fs), filesystem=fs,
            synchronizer=lock)))
        v = views[0]
        nw = m.Variable('u', numpy.dtype('f8'), dimensions=(s.dim, ),
                        fill_value=1.5)
        run('view add', lambda: v.add_variable(nw))
        run('view update', lambda: v.update(
            lambda z: {'u': zc.values(z['v1'])}), f)
        run('view sync', lambda: v.sync())
        run('view drop', lambda: v.drop_variable('u'))
        run('drop variable', lambda: c.drop_variable('w'))
        part = next(iter(c.partitions()))
        os.remove(part + '/.zmetadata')
        run('repair', lambda: c.validate_partitions(fix=True))
        run('drop', lambda: c.drop_partitions(), f)
        run('drop', lambda: c.drop_partitions())
        return err[:4]
    finally:
        c05.hook = real
        CUR.clear()
        WRITES.update(root=None, fail=None)
        base.clean(p)


def process(i):
    """Mutual exclusion of processes and state of a process lock."""
    import pickle
    from zcollection.sync import ProcessSync
    p = base.scratch('lock')
    d = os.path.dirname(p)
    err = []
    try:
        a = ProcessSync(p)
        if a.is_locked():
            err.append('new lock reported as held')
        b = pickle.loads(pickle.dumps(a))
        if type(b) is not ProcessSync or str(
                getattr(b.lock.path, 'decode', lambda: b.lock.path)()) != p:
            err.append(f'pickled lock {b.lock.path}')
        with a:
            if not a.is_locked():
                err.append('held lock reported as free')
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    c = pickle.loads(pickle.dumps(b))
                    os.write(w, b'1' if c.is_locked() else b'0')
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)
            if os.read(r, 1) != b'1':
                err.append('lock held by another process reported as free')
            os.close(r), os.close(w)
        if a.is_locked() or b.is_locked():
            err.append('released lock reported as held')
        try:
            with a:
                raise KeyError('x')
        except KeyError:
            pass
        if a.is_locked():
            err.append('lock kept after an error')
        # competition
        counter = os.path.join(d, 'counter')
        open(counter, 'w').write('0')
        pids = []
        for _ in range(i['procs']):
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    s = pickle.loads(pickle.dumps(a))
                    for _ in range(i['rounds']):
                        with s:
                            n = int(open(counter).read())
                            time.sleep(0.0005)
                            open(counter, 'w').write(str(n + 1))
                    code = 0
                finally:
                    os._exit(code)
            pids.append(pid)
        for pid in pids:
            if os.waitpid(pid, 0)[1]:
                err.append('a competing process failed')
        n = int(open(counter).read())
        if n != i['procs'] * i['rounds']:
            err.append(f'exclusion violated: {n}')
        return err
    finally:
        base.clean(p)


CASES = dict(transaction=transaction, ops=ops, process=process)


def generate(seed, tier):
    r = base.rng(seed, 'c17')
    q = tier == 'quick'
    for j in range(40 if q else 400):
        n = int(r.integers(0, 9))
        pf = [0, 0.2, 0.6, 1][r.integers(4)]
        yield 'transaction', dict(tasks=[
            [k, int(r.integers(0, 40)), bool(r.random() < pf)]
            for k in range(n)])
    for j in range(8 if q else 60):
        n = int(r.integers(2, 9))
        yield 'ops', dict(
            kind=['date', 'seq'][j % 2], delayed=bool(r.integers(2)),
            times=zc.rand_times(r, n, 120), keys=zc.rand_keys(r, n, 2),
            imm=bool(r.integers(2)), fail=int(r.integers(0, 12)))
    for j in range(3 if q else 20):
        yield 'process', dict(procs=int(r.integers(2, 7)), rounds=10)
