"""Every mutating file-system call of an insertion (new partition, overwrite,
merge, non-partitioned variables) is failed in turn (once, or from then on),
or the tree is frozen just before it (crash); the tree, the raised error,
listing, loading and retrying are compared with the model.
Non-trivial: the call number is reached."""
import os
import shutil
import threading

import fsspec
from fsspec.implementations.local import LocalFileSystem

from rtc import base, zc

S = dict(root=None, n=0, at=None, mode=None, fired=False, crash=None,
         lock=threading.Lock())


class Injected(OSError):
    pass


def hook(path, op):
    root = S['root']
    if root is None or root not in str(path):
        return
    with S['lock']:
        S['n'] += 1
        if S['at'] is None or S['n'] < S['at']:
            return
        if S['mode'] == 'crash':
            if S['n'] == S['at']:
                S['fired'] = True
                shutil.copytree(root, S['crash'])
            return
        if S['mode'] == 'once' and S['n'] > S['at']:
            return
        S['fired'] = True
    raise Injected(5, f'injected in {op} {S["at"]}')


class FaultFS(LocalFileSystem):
    """Local file system failing at the chosen mutating call."""
    protocol = 'zcfault'

    def _open(self, path, mode='rb', **kw):
        if mode[0] in 'wax' or '+' in mode:
            hook(path, 'open')
        return super()._open(path, mode=mode, **kw)

    def pipe_file(self, path, value, **kw):
        # AbstractFileSystem.pipe_file opens the file for writing
        return super().pipe_file(path, value, **kw)

    def mkdir(self, path, create_parents=True, **kw):
        hook(path, 'mkdir')
        return super().mkdir(path, create_parents=create_parents, **kw)

    def makedirs(self, path, exist_ok=False):
        if not os.path.isdir(self._strip_protocol(path)):
            hook(path, 'makedirs')
        return super().makedirs(path, exist_ok=exist_ok)

    def rm(self, path, recursive=False, maxdepth=None):
        hook(path, 'rm')
        return super().rm(path, recursive=recursive, maxdepth=maxdepth)

    def rm_file(self, path):
        hook(path, 'rm_file')
        return super().rm_file(path)

    def mv_file(self, path1, path2, **kw):
        hook(path1, 'mv')
        return super().mv_file(path1, path2, **kw)


REAL = dict(unlink=os.unlink, rmdir=os.rmdir, rename=os.rename)


def os_hook(name):
    """System call failing like the file system (shutil bypasses it)."""
    real = REAL[name]

    def call(path, *a, dir_fd=None, **k):
        if S['root'] is not None and S.get('os'):
            full = path
            if dir_fd is not None:
                full = os.path.join(os.readlink(f'/proc/self/fd/{dir_fd}'),
                                    os.fspath(path))
            hook(full, 'os.' + name)
        if dir_fd is not None:
            k['dir_fd'] = dir_fd
        return real(path, *a, **k)

    return call


HOOKED = {n: os_hook(n) for n in REAL}


def keep_both(existing, inserted, axis, dim, **kw):
    return existing.concat(inserted, dim)


def bad_merge(existing, inserted, axis, dim, **kw):
    raise RuntimeError('merge refused')


MERGE = dict(none=None, both=keep_both, bad=bad_merge)


def arm(root, at, mode, crash=None, system=False):
    S.update(root=root, n=0, at=at, mode=mode, fired=False, crash=crash,
             os=system)
    if system:
        for n, f in HOOKED.items():
            setattr(os, n, f)


def disarm():
    S.update(root=None, at=None)
    for n, f in REAL.items():
        setattr(os, n, f)


def fault(i):
    s = zc.Schema('seq', ncol=1, imm=i['imm'], delayed=i['delayed'], nx=1, missing=True)
    s.chunk = i.get('chunk')
    base.client(1)
    p = base.scratch()
    fs = FaultFS()
    err = []
    try:
        r0 = s.rows(['2000-01-01'] * len(i['old']), [[k] for k in i['old']], 1)
        r1 = s.rows(['2000-02-01'] * len(i['new']), [[k] for k in i['new']], 2)
        c = zc.create(s, r1, p, filesystem=fs)
        state = {}
        if i['old']:
            list(c.insert(s.dataset(r0)))
            state = s.split(r0)
        before = base.tree(p)
        frozen = os.path.join(os.path.dirname(p), 'frozen', 'c')
        os.makedirs(os.path.dirname(frozen))
        final = dict(state)
        for k, v in s.split(r1).items():
            final[k] = zc.cat([state[k], v]) if (
                k in state and i['merge'] == 'both') else v
        merge = MERGE[i['merge']]
        arm(p, i['at'], i['mode'], frozen, i.get('system', False))
        raised = None
        try:
            list(c.insert(s.dataset(r1), merge_callable=merge))
        except Exception as e:
            raised = e
        finally:
            fired = S['fired']
            disarm()
        newkeys = set(s.split(r1))
        if i['merge'] == 'bad' and newkeys & set(state):
            if raised is None:
                err.append('failing merge function: no error')
            for k in newkeys & set(state):
                err += unchanged(before, base.tree(p), s.relname(k))
            return err[:5] + after_fault(i, s, p, fs, c, state, final, r1,
                                         before, new_absent=False)[:4]
        if i['mode'] == 'crash':
            if raised is not None:
                raise raised
            err += zc.check_store(p, s, final)
            if fired:
                shutil.rmtree(p)
                shutil.move(frozen, p)
                err += after_crash(i, s, p, state, final, r1, before)
            return err[:5]
        if not fired:
            if raised is not None:
                raise raised
            return zc.check_store(p, s, final)
        if raised is None:
            # the failed call may be an ignored one only if the result is
            # complete
            d = zc.check_store(p, s, final)
            return [f'no error reported and {x}' for x in d[:3]]
        return after_fault(i, s, p, fs, c, state, final, r1, before,
                           i['mode'] == 'once')[:5]
    finally:
        disarm()
        base.clean(p)


def sub(tree, rel):
    return {k: v for k, v in tree.items()
            if k == rel + '/' or k.startswith(rel + '/')}


def unchanged(before, now, rel):
    d = base.tree_diff(sub(before, rel), sub(now, rel))
    return [f'{rel}: {x}' for x in d[:3]]


def complete(s, path, rel, rows):
    got = zc.read_store(path).get(rel)
    return got is not None and not zc.diff_rows(
        got, zc.expect(rows, s))


def standby(s, path, rows):
    """The replacement stands complete next to the partition."""
    return any(complete(s, path, t, rows) for t in zc.read_store(path)
               if t.startswith('.'))


def drop_hidden(i, path):
    """A replacement whose partition was removed may stay, hidden."""
    for n in os.listdir(path) if i.get('system') else ():
        if n.startswith('.') and n not in ('.zcollection', '.immutable'):
            shutil.rmtree(os.path.join(path, n))


def after_fault(i, s, p, fs, c, state, final, r1, before, new_absent):
    err = []
    now = base.tree(p)
    for k, v in final.items():
        rel = s.relname(k)
        if k in state:
            if unchanged(before, now, rel) and not complete(
                    s, p, rel, v) and not standby(s, p, v):
                err.append(f'partition {rel} neither kept nor replaced: '
                           f'{unchanged(before, now, rel)}')
        elif new_absent:
            if os.path.exists(os.path.join(p, rel)) and not complete(
                    s, p, rel, v):
                err.append(f'partial partition {rel} left: '
                           f'{sorted(sub(now, rel))[:4]}')
    if now['.zcollection'] != before['.zcollection']:
        err.append('configuration changed')
    c2 = zc.reopen(p)
    names = [x for x in c2.partitions(relative=True)]
    whole = not i.get('system')  # a removal may stop half way
    known = {s.relname(k) for k in final}
    if [x for x in names if x not in known]:
        err.append(f'listed {names}')
    if not err and new_absent and state and whole:
        zds = c2.load(delayed=False)
        if zds is None:
            err.append('nothing loaded after the failure')
    if err:
        return err
    # Retry
    if i['merge'] != 'both':
        list(c2.insert(s.dataset(r1)))
        drop_hidden(i, p)
        err += zc.check_store(p, s, final, label='after retry')
        err += zc.check_load(c2, s, final, delayed=False, label='after retry')
        left = [x for x in os.listdir(p) if x.startswith('.') and
                x not in ('.zcollection', '.immutable')]
        if left:
            err.append(f'leftovers after retry {left}')
    return err


def after_crash(i, s, path, state, final, r1, before):
    err = []
    now = base.tree(path)
    for k, v in final.items():
        rel = s.relname(k)
        if k in state:
            kept = not unchanged(before, now, rel)
            new = complete(s, path, rel, v)
            # the replacement may stand complete next to it
            temp = standby(s, path, v)
            if not (kept or new or temp):
                err.append(f'crash: {rel} lost')
            if not kept and not new and not temp:
                err.append(f'crash: {rel} altered before its replacement '
                           'was complete')
        else:
            z = os.path.join(path, rel, '.zmetadata')
            if os.path.exists(z) and not complete(s, path, rel, v):
                err.append(f'crash: {rel} incomplete but readable')
    c = zc.reopen(path)
    names = list(c.partitions(relative=True))
    if [n for n in names if n not in {s.relname(k) for k in final}]:
        err.append(f'crash: listed {names}')
    bad = [n for n in c.validate_partitions()]
    for n in bad:
        if n[len(path) + 1:] in {s.relname(k) for k in state}:
            k = [k for k in state if s.relname(k) == n[len(path) + 1:]][0]
            if not standby(s, path, final[k]):
                err.append(f'crash: stored partition {n} invalid')
    if i['merge'] != 'both' and not err:
        list(c.insert(s.dataset(r1)))
        drop_hidden(i, path)
        err += zc.check_store(path, s, final, label='after crash and retry')
        err += zc.check_load(c, s, final, delayed=False,
                             label='after crash and retry')
    return err


CASES = dict(fault=fault)
BUDGET = dict(quick=100)


def generate(seed, tier):
    r = base.rng(seed, 'c05')
    q = tier == 'quick'
    yield 'fault', dict(old=[1], new=[1], merge='bad', at=None, mode='once',
                        imm=False, delayed=False)
    yield 'fault', dict(old=[1, 3], new=[1, 2], merge='bad', at=None,
                        mode='once', imm=False, delayed=True)
    scen = [
        dict(old=[1], new=[1], merge='none', imm=False),
        dict(old=[1, 1, 3], new=[1], merge='both', imm=False, chunk=1),
        dict(old=[], new=[1], merge='none', imm=True),
        dict(old=[2], new=[1], merge='none', imm=False, chunk=1),
        dict(old=[1], new=[1, 2], merge='none', imm=True),
    ]
    out = []
    for k, sc in enumerate(scen):
        top = 16 if len(sc['new']) == 1 and not sc['imm'] else 26
        for at in range(1, top + (0 if q else 14)):
            for mode in ('once', 'sticky', 'crash'):
                if mode == 'sticky' and sc['merge'] == 'none' and not (
                        set(sc['new']) <= set(sc['old'])):
                    continue
                out.append(dict(sc, at=at, mode=mode,
                                delayed=bool((at + k) % 2)))
    r.shuffle(out)
    # the removal of the replaced partition, system call by system call
    deep = [dict(old=[1], new=[1], merge='none', imm=False, at=at, mode=mode,
                 delayed=False, system=True)
            for mode in ('once', 'crash') for at in range(12, 44)]
    r.shuffle(deep)
    out = deep[:24 if q else None] + out[:90 if q else None]
    for o in out:
        yield 'fault', o
