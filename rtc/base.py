"""Shared helpers of the run-time contract checks.

Every case runs the real code of /repo on scratch directories created below
one temporary root, removed at the end of the process.
"""
from __future__ import annotations

import logging
import os
import shutil
import sys
import tempfile
import warnings

import numpy

_STATE = {}


def start(shard=0):
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    _STATE['tmp'] = tempfile.mkdtemp(prefix='zcverif-')
    _STATE['n'] = 0


def stop():
    cl = _STATE.pop('client', None)
    if cl is not None:
        try:
            cl.close()
            cl.cluster.close()
        except Exception:
            pass
    tmp = _STATE.pop('tmp', None)
    if tmp and os.path.basename(tmp).startswith('zcverif-'):
        shutil.rmtree(tmp, ignore_errors=True)


def scratch(name='c'):
    if 'tmp' not in _STATE:
        start()
        import atexit
        atexit.register(stop)
    _STATE['n'] += 1
    d = os.path.join(_STATE['tmp'], f"{_STATE['n']}")
    os.makedirs(d)
    return os.path.join(d, name)


def clean(path):
    """Remove the scratch folder of a path given by scratch()."""
    d = os.path.dirname(path)
    if d.startswith(_STATE.get('tmp', '\0')):
        shutil.rmtree(d, ignore_errors=True)


def client(threads=4):
    """A dask client living in this process."""
    if 'client' not in _STATE:
        import dask
        import dask.distributed
        dask.config.set({'distributed.worker.daemon': False})
        _STATE['client'] = dask.distributed.Client(
            processes=False, n_workers=1, threads_per_worker=threads,
            dashboard_address=None)
    return _STATE['client']


def trivial(inputs):
    for v in inputs.values():
        if isinstance(v, (list, dict, str)) and len(v):
            return False
        if isinstance(v, (int, float)) and v:
            return False
    return True


def rng(seed, *salt):
    return numpy.random.default_rng([seed, *[
        sum(ord(c) * (i + 1) for i, c in enumerate(str(s))) for s in salt
    ]])


def tree(path, fs=None):
    """Bytes of every file below path."""
    out = {}
    if fs is None:
        for root, dirs, files in os.walk(path):
            for d in dirs:
                out[os.path.relpath(os.path.join(root, d), path) + '/'] = None
            for f in files:
                p = os.path.join(root, f)
                with open(p, 'rb') as s:
                    out[os.path.relpath(p, path)] = s.read()
    else:
        for p in fs.find(path):
            out[p[p.index(path.strip('/')):]] = fs.cat(p)
    return out


def tree_diff(a, b, skip=()):
    d = []
    for k in sorted(set(a) | set(b)):
        if any(s in k for s in skip):
            continue
        if k not in a:
            d.append(f'new {k}')
        elif k not in b:
            d.append(f'gone {k}')
        elif a[k] != b[k]:
            d.append(f'changed {k}')
    return d


def same(a, b):
    """Equality of arrays: shape, kind, mask, NaN equal to NaN."""
    am = numpy.ma.isMaskedArray(a)
    bm = numpy.ma.isMaskedArray(b)
    if am or bm:
        ma = numpy.ma.getmaskarray(a)
        mb = numpy.ma.getmaskarray(b)
        if ma.shape != mb.shape or not numpy.array_equal(ma, mb):
            return False
        a = numpy.ma.getdata(a)[~ma]
        b = numpy.ma.getdata(b)[~mb]
    a, b = numpy.asarray(a), numpy.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in 'fc' and b.dtype.kind in 'fc':
        return numpy.array_equal(a, b, equal_nan=True)
    if a.dtype.kind in 'mM' and b.dtype.kind in 'mM':
        return numpy.array_equal(a, b) or bool(
            numpy.all((a == b) | (numpy.isnat(a) & numpy.isnat(b))))
    return numpy.array_equal(a, b)
