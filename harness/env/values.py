"""Values whose serialized size is chosen by the harness."""


class Big:
    """a value of a given identity and serialized size"""

    def __init__(self, tag, n):
        self.tag = tag
        self.blob_size = n
        self.payload = None

    def __eq__(self, other):
        return isinstance(other, Big) and self.tag == other.tag and self.blob_size == other.blob_size


def make(nd, tag, n):
    b = Big(tag, n)
    if not nd.symbolic:
        import joblib, io

        def size():
            f = io.BytesIO()
            joblib.dump(b, f)
            return len(f.getvalue())
        b.payload = b""
        for i in range(4):
            b.payload = b"x" * max(0, len(b.payload) + n - size())
    return b
