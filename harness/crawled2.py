"""Another module, whose objects a module under test may import."""
import functools
from mandala.model import op


def there(x):
    return x * 2


@op
def opthere(x):
    return there(x)


class Base:
    def __init__(self):
        self.z = 1

    def run(self):
        return self.z


class Plain:
    def look(self):
        return 1


def deco(f):
    @functools.wraps(f)
    def run(*args, **kwargs):
        return f(*args, **kwargs)
    return run


def plaindeco(f):
    def run(*args):
        return f(*args)
    return run
