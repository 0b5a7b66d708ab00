"""Minimal implementations of the six abstract base classes, used by C21.

Each implements only what its base class documents as abstract, over a tuple, list, dict or
frozenset, and a constructor that takes an iterable (which __reduce__ and the batch edits of
the base classes presuppose).  None of them shares code with the library's own types.
"""
from operator import index
import pcollections as pc
from pcollections.abc import (PersistentSequence, TransientSequence, PersistentSet, TransientSet, PersistentMapping,
                              TransientMapping)


class MinPSeq(PersistentSequence):
    __slots__ = ('_x',)

    def __new__(cls, it=()):
        o = super().__new__(cls)
        object.__setattr__(o, '_x', tuple(it))
        return o

    def _where(self, i):
        n = len(self._x)
        if not -n <= i < n:
            raise IndexError(i)
        return i % n

    def set(self, index, obj):
        i = self._where(index)
        return MinPSeq(self._x[:i] + (obj,) + self._x[i + 1:])

    def delete(self, index=-1):
        i = self._where(index)
        return MinPSeq(self._x[:i] + self._x[i + 1:])

    def append(self, obj):
        return MinPSeq(self._x + (obj,))

    def prepend(self, obj):
        return MinPSeq((obj,) + self._x)

    def insert(self, index, obj):
        x = list(self._x)
        x.insert(index, obj)
        return MinPSeq(x)

    def clear(self):
        return MinPSeq()

    def transient(self):
        return MinTSeq(self._x)

    def __iter__(self):
        return iter(self._x)

    def __len__(self):
        return len(self._x)

    def __getitem__(self, i):
        return self._x[index(i)]


class MinTSeq(TransientSequence):
    __slots__ = ('_x',)

    def __new__(cls, it=()):
        o = super().__new__(cls)
        o._x = list(it)
        return o

    def clear(self):
        self._x = []

    def persistent(self):
        return MinPSeq(self._x)

    def __iter__(self):
        # Like the library's own lists, refuse to go on when the length changes.
        n = len(self._x)
        for i in range(n):
            if len(self._x) != n:
                raise RuntimeError('changed during iteration')
            yield self._x[i]

    def __len__(self):
        return len(self._x)

    def __getitem__(self, i):
        return self._x[index(i)]

    def __setitem__(self, i, v):
        self._x[index(i)] = v

    def __delitem__(self, i):
        del self._x[index(i)]

    def append(self, obj):
        self._x.append(obj)

    def prepend(self, obj):
        self._x.insert(0, obj)

    def insert(self, index, obj):
        self._x.insert(index, obj)


class MinPSet(PersistentSet):
    __slots__ = ('_x',)

    def __new__(cls, it=()):
        o = super().__new__(cls)
        object.__setattr__(o, '_x', dict.fromkeys(it))
        return o

    def __iter__(self):
        return reversed(self._x)

    def __len__(self):
        return len(self._x)

    def __contains__(self, v):
        return v in self._x

    def transient(self):
        return MinTSet(self._x)

    def add(self, obj):
        return MinPSet(list(self._x) + [obj])

    def discard(self, obj):
        d = dict(self._x)
        d.pop(obj, None)
        return MinPSet(d)

    def clear(self):
        return MinPSet()


class MinTSet(TransientSet):
    __slots__ = ('_x',)

    def __new__(cls, it=()):
        o = super().__new__(cls)
        o._x = dict.fromkeys(it)
        return o

    def __len__(self):
        return len(self._x)

    def __contains__(self, v):
        return v in self._x

    def __iter__(self):
        return iter(self._x)              # (a dict iterator: refuses to go on when the size changes)

    def add(self, obj):
        self._x[obj] = None

    def discard(self, obj):
        self._x.pop(obj, None)

    def persistent(self):
        return MinPSet(self._x)

    def clear(self):
        self._x.clear()


class MinPMap(PersistentMapping):
    __slots__ = ('_x',)

    def __new__(cls, /, *args, **kw):
        o = super().__new__(cls)
        object.__setattr__(o, '_x', dict(*args, **kw))
        return o

    def __len__(self):
        return len(self._x)

    def __iter__(self):
        return iter(self._x)

    def __getitem__(self, k):
        return self._x[k]

    def transient(self):
        return MinTMap(self._x)

    def set(self, key, val):
        d = dict(self._x)
        d[key] = val
        return MinPMap(d)

    def drop(self, key):
        d = dict(self._x)
        d.pop(key, None)
        return MinPMap(d)

    def clear(self):
        return MinPMap()


class MinTMap(TransientMapping):
    __slots__ = ('_x',)

    def __new__(cls, /, *args, **kw):
        o = super().__new__(cls)
        o._x = dict(*args, **kw)
        return o

    def __len__(self):
        return len(self._x)

    def __iter__(self):
        return iter(self._x)

    def __getitem__(self, k):
        return self._x[k]

    def __setitem__(self, k, v):
        self._x[k] = v

    def __delitem__(self, k):
        del self._x[k]

    def persistent(self):
        return MinPMap(self._x)

    def clear(self):
        self._x.clear()


ABSTRACT = {
    MinPSeq: 'set delete append prepend insert clear transient __iter__ __len__ __getitem__',
    MinTSeq: 'clear persistent __iter__ __len__ __getitem__ __setitem__ __delitem__ append prepend insert',
    MinPSet: '__iter__ __len__ __contains__ transient add discard clear',
    MinTSet: '__len__ __contains__ __iter__ add discard persistent clear',
    MinPMap: '__len__ __iter__ __getitem__ transient set drop clear',
    MinTMap: '__len__ __iter__ __getitem__ __setitem__ __delitem__ persistent clear'}
