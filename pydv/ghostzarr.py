"""Ghost of a zarr store at the level of its files.

Assumed contracts of zarr and fsspec: an array directory holds ``.zarray``
(the description given at its creation) and its data; ``consolidate_metadata``
stores a snapshot of the metadata files under the directory; a consolidated
group shows the arrays of that snapshot.  One operation per path may fail
before or after its effect, or be the last one before the process dies."""
from __future__ import annotations

import io
import json

import zarr.errors

from .core import Crash, SimulatedFault, Unsupported, cur

METAS = ('.zarray', '.zattrs', '.zgroup')


class Namespace:

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'use of {name}')


class Map:

    def __init__(self, fs, root):
        self.fs, self.root = fs, root


class ZFS:
    sep = '/'

    def __init__(self, faults=0, crashes=True):
        self.files = {}
        self.faults = faults
        self.crashes = crashes
        self.fault = None
        self.log = []

    # -- faults
    def event(self, what):
        self.log.append(what)
        if not self.faults:
            return False
        v = cur().choose(4 if self.crashes else 3,
                         f'fault at {len(self.log)}: {what}')
        if v == 0:
            return False
        self.faults -= 1
        self.fault = what
        if v == 1:
            raise SimulatedFault(5, what)
        if v == 3:
            raise Crash(what)
        return True  # fails after the effect

    def done(self, late, what):
        if late:
            raise SimulatedFault(5, what)

    # -- fsspec
    def get_mapper(self, root, **kw):
        return Map(self, root)

    def exists(self, path, **kw):
        return path in self.files or any(
            p.startswith(path + '/') for p in self.files)

    isdir = exists

    def rm(self, path, recursive=False):
        late = self.event(f'rm {path}')
        if not self.exists(path):
            raise FileNotFoundError(path)
        for p in list(self.files):
            if p == path or p.startswith(path + '/'):
                del self.files[p]
        self.done(late, 'rm')

    def invalidate_cache(self, path=None):
        pass

    def put(self, path, value):
        late = self.event(f'write {path}')
        self.files[path] = value
        self.done(late, 'write')

    def open(self, path, mode='r', **kw):
        fs = self

        class Stream(io.StringIO):

            def __exit__(self, *exc):
                if 'w' in mode and exc[0] is None:
                    fs.put(path, self.getvalue())
                elif 'w' in mode:
                    fs.files[path] = ''
                return super().__exit__(*exc)

        if 'w' in mode:
            return Stream()
        if path not in self.files:
            raise FileNotFoundError(path)
        return Stream(self.files[path])

    # -- queries
    def tree(self, root):
        return {p[len(root) + 1:]: v for p, v in self.files.items()
                if p.startswith(root + '/')}

    def snapshot(self, root):
        return {p: v for p, v in self.tree(root).items()
                if p.rpartition('/')[2] in METAS}

    def attrs(self, path):
        t = self.files.get(path + '/.zattrs')
        return json.loads(t) if t else {}


class ZArray:

    def __init__(self, fs, path):
        self.fs, self.path = fs, path
        d = fs.files[path + '/.zarray']
        self.shape = d['shape']
        self.fill_value = d['fill_value']
        self.dtype = d['dtype']

    def __setitem__(self, key, value):
        if not (key is Ellipsis or key == slice(None)):
            raise Unsupported('partial assignment')
        self.fs.put(self.path + '/data', value)

    def __getitem__(self, key):
        return self.fs.files.get(self.path + '/data', ('fill', ))


class GhostZarr:
    """Facade of the zarr module."""
    errors = zarr.errors
    Array = ZArray

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'zarr.{name}')

    @staticmethod
    def create(shape, chunks=True, dtype=None, compressor='default',
               fill_value=0, store=None, path=None, overwrite=False,
               filters=None, write_empty_chunks=True, **kw):
        if kw:
            raise Unsupported(f'zarr.create {sorted(kw)}')
        fs = store.fs
        where = store.root if path is None else f'{store.root}/{path}'
        if fs.exists(where + '/.zarray') and not overwrite:
            raise zarr.errors.ContainsArrayError(where)
        if overwrite:
            for p in list(fs.files):
                if p.startswith(where + '/'):
                    del fs.files[p]
        if path is not None and store.root + '/.zgroup' not in fs.files:
            fs.put(store.root + '/.zgroup', json.dumps({'zarr_format': 2}))
        fs.put(where + '/.zarray', dict(
            shape=shape, chunks=chunks, dtype=dtype, compressor=compressor,
            fill_value=fill_value, filters=filters))
        return ZArray(fs, where)

    @staticmethod
    def open_array(store, mode='r', **kw):
        if store.root + '/.zarray' not in store.fs.files:
            if mode == 'a':
                raise Unsupported('creation by open_array')
            raise zarr.errors.ArrayNotFoundError(store.root)
        return ZArray(store.fs, store.root)

    open = open_array

    @staticmethod
    def open_group(store, mode='a', **kw):
        if store.root + '/.zgroup' not in store.fs.files:
            store.fs.put(store.root + '/.zgroup',
                         json.dumps({'zarr_format': 2}))

    @staticmethod
    def consolidate_metadata(store, **kw):
        store.fs.put(store.root + '/.zmetadata',
                     store.fs.snapshot(store.root))


def store(array, target, **kw):
    """dask.array.core.store"""
    target[...] = array.tag
