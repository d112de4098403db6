"""Use objects in many ways before the use that is checked: whatever an object remembers must not show later"""
import zlib

from proofmarshal.proof import Proof


def sometimes(case, one_in=2):
    """Depends on the case only"""
    return zlib.crc32(repr(case).encode()) % one_in == 0


NAMES = ('hash', 'data_hash', 'txhash', 'tx', 'txin', 'txout', 'prefix', 'seal', 'is_pruned', 'is_fully_pruned')


def quiet(fn, *args):
    try:
        return fn(*args)
    except Exception:
        return None


def use(obj, deep=6, calls=('verify',), extra=()):
    """Everything about an object and its parts that can be asked without arguments"""
    if deep < 0 or not isinstance(obj, Proof):
        return
    for name in NAMES:
        quiet(getattr, obj, name)
    for name in calls:
        m = quiet(getattr, obj, name)
        if m is not None:
            quiet(m)
    quiet(len, obj)
    quiet(lambda: [k for k in obj])
    quiet(lambda: list(obj.keys()))
    quiet(lambda: obj[0])
    quiet(hash, obj)
    quiet(lambda: obj == obj.prune())
    quiet(repr, obj)
    quiet(obj.serialize)
    for x in extra:
        quiet(x, obj)
    for name, cls in obj.SERIALIZED_ATTRS:
        use(quiet(getattr, obj, name), deep - 1, calls, extra)
    for x in extra:
        quiet(x, obj)
