"""Model of joblib and io.BytesIO: a serialized value is an opaque Blob holding
an independent deep copy; equal values hash equally and different values
differently (joblib.hash is executed for concrete values)."""
import copy
import joblib as _joblib
from harness.env.world import W, point


class Blob:
    def __init__(self, value, size):
        self.value = value
        self.size = size

    def __len__(self):
        return self.size

    def __deepcopy__(self, memo):
        return self


class Partial:
    """a file whose writer died half way"""


def content_hash(obj):
    return _joblib.hash(obj)   # replaced by the engine's model when interpreted


def hash(obj, *args, **kwargs):
    return content_hash(obj)


def blob_size(obj):
    """bytes; values of class Big (harness.env.values) say their size"""
    if isinstance(obj, Blob):
        return obj.size + 100
    s = 100
    if isinstance(obj, (list, tuple)):
        for x in obj:
            s += blob_size(x) - 90
    n = getattr(obj, "blob_size", None)
    return n if n is not None else s


def dump(value, target, *args, **kwargs):
    b = Blob(copy.deepcopy(value), blob_size(value))
    if isinstance(target, BytesIO):
        target.data = b
        return [None]
    point("file")
    W.files[target] = Partial()
    point("file")
    W.files[target] = b
    return [target]


def load(source, *args, **kwargs):
    if isinstance(source, BytesIO):
        b = source.data
    else:
        point("read")
        if source not in W.files:
            raise FileNotFoundError(source)
        b = W.files[source]
    if not isinstance(b, Blob):
        raise EOFError("truncated")
    return copy.deepcopy(b.value)


class BytesIO:
    def __init__(self, data=None):
        self.data = data

    def getvalue(self):
        return self.data

    def read(self):
        return self.data

    def seek(self, n):
        return n

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


def dumps(value, *args, **kwargs):
    return Blob(copy.deepcopy(value), blob_size(value))


def loads(data, *args, **kwargs):
    if not isinstance(data, Blob):
        raise EOFError("truncated")
    return copy.deepcopy(data.value)
