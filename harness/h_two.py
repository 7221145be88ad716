"""C27: sessions sharing a database."""
from symex.registry import harness
from harness.stlib import *


class Two(Hist):
    """steps are "1 inc(x0)" or "2 commit": which session does what"""

    def __init__(self, nd):
        Hist.__init__(self, nd)
        self.sts = [self.st, Storage(self.path)]
        self.calls = []

    def step(self, s):
        who, what = s.strip().split(" ", 1)
        i = int(who) - 1
        st = self.sts[i]
        if what == "commit":
            st.commit()
        elif what == "clear":
            st.commit()
            st.clear_cache()
        elif what == "preload":
            st.preload()
        elif what == "reopen":
            st.commit()
            self.sts[i] = Storage(self.path)
        else:
            name, pos, raw, kw, rawkw = self.parse(what)
            res = st.call(OPS[name], pos, kw, config={"save_calls": True})
            val = PURE[name](*raw, **rawkw)
            self.res.append((res, val))
            self.calls.append((name, raw, rawkw, val))
            self.nd.check(st.unwrap(res) == val, "the call returns its value")


HS = ["1 inc(x0) / 2 inc(x1) / 1 commit / 2 commit",
      "1 inc(x0) / 2 add(x1,x2) / 2 commit / 1 add(x0,x1) / 1 commit",
      "1 inc(x0) / 2 inc(x1) / 1 commit / 2 inc(r1) / 1 inc(r0) / 2 commit / 1 commit",
      "1 lst(x0,x1) / 2 lst(x1,x2) / 2 commit / 1 commit",
      "1 pair(x0) / 2 inc(x0) / 1 inc(r0.1) / 2 pair(x1) / 2 inc(r3.1) / 2 commit / 1 commit",
      "1 inc(x0) / 1 commit / 2 inc(r0) / 1 inc(x1) / 2 commit / 1 commit",
      "1 inc(x0) / 2 preload / 2 inc(x1) / 1 clear / 2 preload / 2 inc(x2) / 2 commit",
      ]


@harness("C27", quick=[dict(h=h) for h in HS],
         thorough=[dict(h="1 inc(x0) / 2 inc(x1) / 1 commit / 2 inc(x2) / 2 commit / 1 inc(x2) / 1 add(x0,x1) / 2 add(x1,x0) / 1 reopen / 2 commit"),
                   dict(h="1 dct(x0,x1) / 2 dct(x2,x1) / 1 inc(r0.p) / 2 inc(r1.p) / 2 commit / 1 commit / 2 inc(r0.q) / 2 commit")],
         bounds="the listed interleavings of two sessions (up to 7 calls and 4 commits), all integer arguments and coincidences")
def overlap(nd, h):
    T = Two(nd)
    for s in h.split(" / "):
        T.step(s)
    st = Storage(T.path)
    st.allow_new_calls(False)
    n = dict(RUNS)
    for name, raw, kw, val in T.calls:
        try:
            res = st.call(OPS[name], raw, kw, config={"save_calls": True})
            ok = True
        except RuntimeError:
            ok = False
        nd.check(ok, "every recorded call is retrievable from a new session")
        nd.check(st.unwrap(res) == val, "with its value")
    nd.check(RUNS == n, "without executing it")
    refs = T.res
    for ref, val in refs:
        nd.check(st.unwrap(st.load_ref(ref.hid)) == val if not isinstance(ref, tuple) else True, "every returned reference is loadable")
