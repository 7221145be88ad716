"""Model of the os functions mandala uses."""
import os as _os
from harness.env.world import W, point
sep = "/"
environ = {}


class path:
    @staticmethod
    def exists(p):
        point("read")
        return p in W.files or p in W.dbs or p in W.dirs

    @staticmethod
    def isfile(p):
        point("read")
        return p in W.files or p in W.dbs

    @staticmethod
    def isdir(p):
        point("read")
        return p in W.dirs

    @staticmethod
    def join(a, *more):
        for b in more:
            if b.startswith("/"):
                a = b
            elif a == "" or a.endswith("/"):
                a = a + b
            else:
                a = a + "/" + b
        return a

    @staticmethod
    def splitext(p):
        for ext in (".joblib", ".tmp", ".part", ".pkl", ".json"):
            if p.endswith(ext):
                return p[:-len(ext)], ext
        return _os.path.splitext(p)

    basename = staticmethod(_os.path.basename)
    dirname = staticmethod(_os.path.dirname)

    @staticmethod
    def getsize(p):
        if p not in W.files:
            raise FileNotFoundError(p)
        return W.files[p].size


def makedirs(p, mode=0o777, exist_ok=False):
    point("file")
    if p in W.dirs:
        if not exist_ok:
            raise FileExistsError(p)
        return
    W.dirs[p] = True


mkdir = makedirs


def listdir(p):
    point("read")
    pre = p + "/"
    return [f[len(pre):] for f in W.files if f.startswith(pre)]


def remove(p):
    point("file")
    if p not in W.files:
        raise FileNotFoundError(p)
    del W.files[p]


unlink = remove


def replace(a, b):
    point("file")
    if a not in W.files:
        raise FileNotFoundError(a)
    W.files[b] = W.files[a]
    del W.files[a]


rename = replace


def getpid():
    return 1
