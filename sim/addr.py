"""Addresses of objects, as ``id()`` shows them to pyirf.

Which address a new object gets, and how soon the address of a dead one is used again,
depends on everything the process did before.  Here it is part of the simulation: an
address is handed out at the first question, and the address of an object that died is
given to the next new one at once.  That is a legal behaviour of the allocator, the
worst one for code that identifies an object by its address after it is gone, and the
same in every execution.
"""
import builtins
import sys
import weakref

_real = builtins.id


class Addresses:
    def __init__(self):
        self.known = {}     # real address -> (reference, simulated address, weak)
        self.free = []
        self.next = 1 << 20

    def _drop(self, real, ref):
        e = self.known.get(real)
        if e is not None and e[0] is ref:
            del self.known[real]
            self.free.append(e[1])

    def _sweep(self):
        """Objects without weak references are kept alive here and released once nobody else has them."""
        for real in [k for k, e in self.known.items() if not e[2]]:
            # the tuple and the argument of getrefcount
            if sys.getrefcount(self.known[real][0]) <= 2:
                self.free.append(self.known.pop(real)[1])

    def __call__(self, obj, /):
        real = _real(obj)
        e = self.known.get(real)
        if e is not None and (e[0]() if e[2] else e[0]) is obj:
            return e[1]
        self._sweep()
        if obj is None or isinstance(obj, (type, str, int, float, bool, type(sys))):
            # practically immortal, or without an identity anybody may rely on
            return real
        sim = self.free.pop() if self.free else self.next
        if sim == self.next:
            self.next += 64
        try:
            ref = weakref.ref(obj, lambda r: self._drop(real, r))
            self.known[real] = (ref, sim, True)
        except TypeError:
            self.known[real] = (obj, sim, False)
        return sim


def install():
    """Give the modules of pyirf the simulated ``id``."""
    a = Addresses()
    for n, m in list(sys.modules.items()):
        if (n == "pyirf" or n.startswith("pyirf.")) and m is not None and "id" not in vars(m):
            vars(m)["id"] = a
    return a
