"""Ghost storage: groups with opaque contents, and a fault at any operation.

A path holds a *group*: absent, partial (some files, no usable metadata),
damaged (being removed) or complete with an opaque content.  Every effect may
fail (an OSError before the effect or in the middle of it) or be the last one
before the process dies; one such event happens per path of the verifier, at
every possible place."""
from __future__ import annotations

import fsspec.implementations.local

from .core import Crash, SimulatedFault, Unsupported, cur

ABSENT = 'absent'
PARTIAL = 'partial'
DAMAGED = 'damaged'
COMPLETE = 'complete'


class Group:

    def __init__(self, state, content=None):
        self.state = state
        self.content = content

    def copy(self):
        return Group(self.state, self.content)

    def __repr__(self):
        return f'{self.state}:{self.content}'


class Mapper:
    """fs.get_mapper(root)"""

    def __init__(self, fs, root):
        self.fs = fs
        self.root = root


class Store:
    """State shared by the facades of one run."""

    def __init__(self, faults=1, crashes=True):
        self.groups = {}
        self.faults = faults
        self.crashes = crashes
        self.fault = None
        self.log = []
        self.watch = []
        self.invalidated = []

    def get(self, path):
        return self.groups.get(path, Group(ABSENT))

    def copy(self):
        return {p: g.copy() for p, g in self.groups.items()}

    def event(self, what):
        """'ok', 'before' or 'middle': where the operation fails."""
        self.log.append(what)
        if not self.faults:
            return 'ok'
        n = 4 if self.crashes else 3
        v = cur().choose(n, f'fault at {len(self.log)}: {what}')
        if v == 0:
            return 'ok'
        self.faults -= 1
        self.fault = what
        if v == 3:
            raise Crash(what)
        return 'before' if v == 1 else 'middle'

    def half(self, what):
        """The process may die in the middle of an operation."""
        if self.faults and self.crashes and cur().choose(
                2, f'crash at {what}'):
            self.faults -= 1
            self.fault = what
            raise Crash(what)

    def fail(self, what):
        raise SimulatedFault(5, what)

    def change(self, path, group, why):
        for w in self.watch:
            w(path, self.get(path), group, why)
        if group.state == ABSENT:
            self.groups.pop(path, None)
        else:
            self.groups[path] = group

    # -- operations ----------------------------------------------------
    def split(self, path):
        """(group path, file or None)"""
        if path in self.groups:
            return path, None
        head, _, tail = path.rpartition('/')
        if tail in ('.zmetadata', '.zgroup', '.zattrs'):
            return head, tail
        return path, None

    def exists(self, path):
        g, f = self.split(path)
        st = self.get(g).state
        if f == '.zmetadata':
            return st in (COMPLETE, DAMAGED)
        if f is not None:
            return st != ABSENT
        if any(p.startswith(path + '/') for p in self.groups):
            return True
        return st != ABSENT

    def rm(self, path, missing_ok=False):
        if self.get(path).state == ABSENT:
            if missing_ok:
                return
            raise FileNotFoundError(path)
        e = self.event(f'rm {path}')
        if e == 'before':
            self.fail(f'rm {path}')
        self.change(path, Group(DAMAGED), 'rm')
        if e == 'middle':
            self.fail(f'rm {path}')
        self.half(f'rm {path}')
        self.change(path, Group(ABSENT), 'rm')

    def move(self, src, dst):
        if self.get(src).state == ABSENT:
            raise FileNotFoundError(src)
        if self.get(dst).state != ABSENT:
            cur().fail('a group is moved onto an existing one')
        e = self.event(f'mv {src} {dst}')
        if e != 'ok':
            self.fail('mv')
        g = self.get(src)
        self.change(dst, g, 'mv')
        self.change(src, Group(ABSENT), 'mv')

    def init(self, path, overwrite):
        st = self.get(path).state
        if st != ABSENT and not overwrite:
            raise ValueError(f'{path} exists')
        e = self.event(f'init {path}')
        if e == 'before':
            self.fail('init')
        self.change(path, Group(PARTIAL), 'init')
        if e == 'middle':
            self.fail('init')

    def write(self, path, content):
        """Contract of storage.write_zarr_group: the metadata comes last; on
        an error the group is incomplete and the error is raised."""
        st = self.get(path).state
        e = self.event(f'write {path}')
        if e == 'before':
            self.fail('write')
        if st not in (ABSENT, PARTIAL):
            # writing over an existing group destroys it
            self.change(path, Group(DAMAGED), 'write')
        else:
            self.change(path, Group(PARTIAL), 'write')
        if e == 'middle':
            self.fail('write')
        self.half(f'write {path}')
        self.change(path, Group(COMPLETE, content), 'write')


class GhostOps:
    """The part of the fsspec interface the code uses."""
    sep = '/'
    protocol = 'ghost'
    cachable = False

    def __init__(self, store):
        self.store = store

    def exists(self, path, **kw):
        return self.store.exists(path)

    def isdir(self, path):
        return self.store.split(path)[1] is None and self.store.exists(path)

    def rm(self, path, recursive=False, maxdepth=None):
        if not recursive:
            raise IsADirectoryError(path)
        self.store.rm(path)

    def mv(self, path1, path2, recursive=False, maxdepth=None, **kw):
        self.store.move(path1, path2)

    def get_mapper(self, root='', **kw):
        return Mapper(self, root)

    def invalidate_cache(self, path=None):
        self.store.invalidated.append(path)

    def _strip_protocol(self, path):
        return path

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'file system operation {name}')


class GhostFS(GhostOps):
    pass


class GhostLocalFS(GhostOps,
                   fsspec.implementations.local.LocalFileSystem):
    """Seen as a local file system by isinstance()."""

    def __new__(cls, *a, **k):
        return object.__new__(cls)

    def __init__(self, store):
        object.__setattr__(self, 'store', store)


class Content:
    """Opaque dataset; every method returns a new opaque value."""

    def __init__(self, name, **attrs):
        self.__dict__['name'] = name
        self.__dict__.update(attrs)
        self.__dict__['calls'] = []

    def __repr__(self):
        return f'<{self.name}>'
