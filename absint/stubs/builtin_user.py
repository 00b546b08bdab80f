"""bases standing in for dict and list where the sources derive a class from them"""
from collections.abc import MutableMapping, MutableSequence


class DictBase(MutableMapping):
    def __init__(self, *args, **kwargs):
        self._ai_items().update(*args, **kwargs)

    def _ai_items(self):
        try:
            return object.__getattribute__(self, "_ai_data")
        except AttributeError:
            d = {}
            object.__setattr__(self, "_ai_data", d)
            return d

    def __len__(self):
        return len(self._ai_items())

    def __getitem__(self, key):
        d = self._ai_items()
        if key in d:
            return d[key]
        if hasattr(self.__class__, "__missing__"):
            return self.__class__.__missing__(self, key)
        raise KeyError(key)

    def __setitem__(self, key, item):
        self._ai_items()[key] = item

    def __delitem__(self, key):
        del self._ai_items()[key]

    def __iter__(self):
        return iter(self._ai_items())

    def __reversed__(self):
        return reversed(list(self._ai_items()))

    def __contains__(self, key):
        return key in self._ai_items()

    def get(self, key, default=None):
        return self._ai_items().get(key, default)

    def setdefault(self, key, default=None):
        return self._ai_items().setdefault(key, default)

    def pop(self, *args):
        return self._ai_items().pop(*args)

    def popitem(self):
        return self._ai_items().popitem()

    def clear(self):
        self._ai_items().clear()

    def update(self, *args, **kwargs):
        self._ai_items().update(*args, **kwargs)

    def keys(self):
        return self._ai_items().keys()

    def values(self):
        return self._ai_items().values()

    def items(self):
        return self._ai_items().items()

    def copy(self):
        return dict(self._ai_items())

    def __or__(self, other):
        return dict(self._ai_items()) | dict(other)

    def __ror__(self, other):
        return dict(other) | dict(self._ai_items())

    def __ior__(self, other):
        self._ai_items().update(other)
        return self

    def __repr__(self):
        return repr(self._ai_items())

    def __eq__(self, other):
        if isinstance(other, DictBase):
            other = other._ai_items()
        if not isinstance(other, dict):
            return NotImplemented
        return self._ai_items() == other

    __hash__ = None

    @classmethod
    def fromkeys(cls, keys, value=None):
        r = cls()
        for k in keys:
            r[k] = value
        return r


class ListBase(MutableSequence):
    def __init__(self, items=()):
        self._ai_items()[:] = list(items)

    def _ai_items(self):
        try:
            return object.__getattribute__(self, "_ai_data")
        except AttributeError:
            d = []
            object.__setattr__(self, "_ai_data", d)
            return d

    def __len__(self):
        return len(self._ai_items())

    def __iter__(self):
        return iter(self._ai_items())

    def __getitem__(self, i):
        return self._ai_items()[i]

    def __setitem__(self, i, item):
        self._ai_items()[i] = item

    def __delitem__(self, i):
        del self._ai_items()[i]

    def __add__(self, other):
        return self._ai_items() + list(other)

    def __radd__(self, other):
        return list(other) + self._ai_items()

    def __iadd__(self, other):
        self.extend(other)
        return self

    def __mul__(self, n):
        return self._ai_items() * n

    def __contains__(self, item):
        return item in self._ai_items()

    def __repr__(self):
        return repr(self._ai_items())

    def __eq__(self, other):
        if isinstance(other, ListBase):
            other = other._ai_items()
        if not isinstance(other, list):
            return NotImplemented
        return self._ai_items() == other

    def __lt__(self, other):
        return self._ai_items() < list(other)

    __hash__ = None

    def copy(self):
        return list(self._ai_items())

    def sort(self, key=None, reverse=False):
        self._ai_items().sort(key=key, reverse=reverse)

    def insert(self, i, item):
        self._ai_items().insert(i, item)

    def append(self, item):
        self._ai_items().append(item)

    def extend(self, items):
        self._ai_items().extend(items)

    def pop(self, *args):
        return self._ai_items().pop(*args)

    def remove(self, item):
        self._ai_items().remove(item)

    def reverse(self):
        self._ai_items().reverse()

    def index(self, *args):
        return self._ai_items().index(*args)

    def count(self, item):
        return self._ai_items().count(item)

    def clear(self):
        self._ai_items().clear()
