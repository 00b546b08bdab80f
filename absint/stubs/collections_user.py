from collections.abc import MutableMapping, MutableSequence, Sequence


class UserString(Sequence):
    def __init__(self, seq):
        if isinstance(seq, str):
            self.data = seq
        elif isinstance(seq, UserString):
            self.data = seq.data
        else:
            self.data = str(seq)

    def __str__(self):
        return str(self.data)

    def __repr__(self):
        return repr(self.data)

    def __hash__(self):
        return hash(self.data)

    def __eq__(self, string):
        if isinstance(string, UserString):
            return self.data == string.data
        return self.data == string

    def __lt__(self, string):
        if isinstance(string, UserString):
            return self.data < string.data
        return self.data < string

    def __gt__(self, string):
        if isinstance(string, UserString):
            return self.data > string.data
        return self.data > string

    def __le__(self, string):
        return not self > string

    def __ge__(self, string):
        return not self < string

    def __contains__(self, char):
        if isinstance(char, UserString):
            char = char.data
        return char in self.data

    def __len__(self):
        return len(self.data)

    def __iter__(self):
        for c in self.data:
            yield self.__class__(c)

    def __getitem__(self, index):
        return self.__class__(self.data[index])

    def __add__(self, other):
        if isinstance(other, UserString):
            return self.__class__(self.data + other.data)
        elif isinstance(other, str):
            return self.__class__(self.data + other)
        return self.__class__(self.data + str(other))

    def __radd__(self, other):
        return self.__class__(str(other) + self.data)

    def __mod__(self, args):
        return self.__class__(self.data % args)

    def __wrap1(self, name, *args):
        return self.__class__(getattr(self.data, name)(*args))

    def upper(self):
        return self.__wrap1("upper")

    def lower(self):
        return self.__wrap1("lower")

    def casefold(self):
        return self.__wrap1("casefold")

    def capitalize(self):
        return self.__wrap1("capitalize")

    def title(self):
        return self.__wrap1("title")

    def strip(self, chars=None):
        return self.__wrap1("strip", chars)

    def lstrip(self, chars=None):
        return self.__wrap1("lstrip", chars)

    def rstrip(self, chars=None):
        return self.__wrap1("rstrip", chars)

    def replace(self, old, new, maxsplit=-1):
        if isinstance(old, UserString):
            old = old.data
        if isinstance(new, UserString):
            new = new.data
        return self.__wrap1("replace", old, new, maxsplit)

    def translate(self, *args):
        return self.__wrap1("translate", *args)

    def startswith(self, prefix, *a):
        return self.data.startswith(prefix, *a)

    def endswith(self, suffix, *a):
        return self.data.endswith(suffix, *a)

    def find(self, sub, *a):
        return self.data.find(str(sub), *a)

    def rfind(self, sub, *a):
        return self.data.rfind(str(sub), *a)

    def index(self, sub, *a):
        return self.data.index(sub, *a)

    def count(self, sub, *a):
        return self.data.count(str(sub), *a)

    def format(self, *args, **kwds):
        return self.data.format(*args, **kwds)

    def join(self, seq):
        return self.data.join(seq)

    def split(self, sep=None, maxsplit=-1):
        return self.data.split(sep, maxsplit)

    def rsplit(self, sep=None, maxsplit=-1):
        return self.data.rsplit(sep, maxsplit)

    def splitlines(self, keepends=False):
        return self.data.splitlines(keepends)

    def partition(self, sep):
        return self.data.partition(sep)

    def rpartition(self, sep):
        return self.data.rpartition(sep)

    def isdigit(self):
        return self.data.isdigit()

    def isupper(self):
        return self.data.isupper()

    def islower(self):
        return self.data.islower()

    def isspace(self):
        return self.data.isspace()

    def encode(self, *a):
        return self.data.encode(*a)


class UserDict(MutableMapping):
    def __init__(self, dict=None, **kwargs):
        self.data = {}
        if dict is not None:
            self.update(dict)
        if kwargs:
            self.update(kwargs)

    def __len__(self):
        return len(self.data)

    def __getitem__(self, key):
        if key in self.data:
            return self.data[key]
        if hasattr(self.__class__, "__missing__"):
            return self.__class__.__missing__(self, key)
        raise KeyError(key)

    def __setitem__(self, key, item):
        self.data[key] = item

    def __delitem__(self, key):
        del self.data[key]

    def __iter__(self):
        return iter(self.data)

    def __contains__(self, key):
        return key in self.data

    def copy(self):
        return self.__class__(self.data)


class UserList(MutableSequence):
    def __init__(self, initlist=None):
        self.data = list(initlist) if initlist is not None else []

    def __len__(self):
        return len(self.data)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.__class__(self.data[i])
        return self.data[i]

    def __setitem__(self, i, item):
        self.data[i] = item

    def __delitem__(self, i):
        del self.data[i]

    def __add__(self, other):
        return self.__class__(self.data + list(other))

    def __radd__(self, other):
        return self.__class__(list(other) + self.data)

    def __mul__(self, n):
        return self.__class__(self.data * n)

    def __repr__(self):
        return repr(self.data)

    def copy(self):
        return self.__class__(self)

    def sort(self, key=None, reverse=False):
        self.data.sort(key=key, reverse=reverse)

    def insert(self, i, item):
        self.data.insert(i, item)

    def __eq__(self, other):
        return self.data == (other.data if isinstance(other, UserList) else other)

    def __contains__(self, item):
        return item in self.data
