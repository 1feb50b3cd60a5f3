"""Affine terms and an affine-inequality abstract domain (Fourier-Motzkin elimination)."""
from functools import lru_cache


class Lin:
    """sum(coef * atom) + const, canonical and hashable. Atoms are hashable terms."""
    __slots__ = ("c", "t", "_h")

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t if isinstance(t, tuple) else tuple(sorted(((a, k) for a, k in t.items() if k), key=_key))
        self._h = hash((self.c, self.t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self._h == o._h and self.c == o.c and self.t == o.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        d = dict(self.t)
        for a, k in o.t:
            d[a] = d.get(a, 0) + k
        return Lin(self.c + o.c, d)

    def __neg__(self):
        return Lin(-self.c, tuple((a, -k) for a, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def scale(self, n):
        if n == 0:
            return Lin(0)
        return Lin(self.c * n, tuple((a, k * n) for a, k in self.t))

    def is_const(self):
        return not self.t

    def atoms(self):
        return [a for a, _ in self.t]

    def coef(self, a):
        for b, k in self.t:
            if b == a:
                return k
        return 0

    def __repr__(self):
        return show_lin(self)


_keys = {}


def _key(p):
    a = p[0]
    k = _keys.get(a)
    if k is None:
        k = repr(a)
        _keys[a] = k
    return k


def atom(a):
    return Lin(0, ((a, 1),))


def const(n):
    return Lin(n)


def show_lin(l):
    if not l.t:
        return str(l.c)
    out = []
    for a, k in l.t:
        n = show_atom(a)
        out.append(n if k == 1 else ("-" + n if k == -1 else f"{k}*{n}"))
    s = " + ".join(out)
    if l.c:
        s += f" + {l.c}"
    return s.replace("+ -", "- ")


def show_atom(a):
    if isinstance(a, tuple):
        if not a:
            return "()"
        if a[0] == "arg":
            return str(a[-1])
        if a[0] in ("PL", "cap", "res", "maxcap", "h", "pub"):
            return f"{a[0]}{a[-1] if isinstance(a[-1], int) else ''}"
        return f"{a[0]}({','.join(show_atom(x) for x in a[1:])})"
    if isinstance(a, Lin):
        return show_lin(a)
    return str(a)


def signed_atom(a):
    return isinstance(a, tuple) and a and a[0] == "s"


# constraint: Lin l meaning l <= 0
def _norm(l):
    """gcd-normalise with integer tightening"""
    from math import gcd
    g = 0
    for _, k in l.t:
        g = gcd(g, abs(k))
    if g <= 1:
        return l
    c = -((-l.c) // g)  # ceil
    return Lin(c, tuple((a, k // g) for a, k in l.t))


LIMIT = 260


def unsat(cons):
    """True if the conjunction of l <= 0 is definitely unsatisfiable over the naturals."""
    cs = set()
    for l in cons:
        l = _norm(l)
        if l.is_const():
            if l.c > 0:
                return True
            continue
        cs.add(l)
    while True:
        # pick the atom with the fewest products
        cnt = {}
        for l in cs:
            for a, k in l.t:
                p = cnt.setdefault(a, [0, 0])
                p[0 if k > 0 else 1] += 1
        if not cnt:
            return False
        best = min(cnt.items(), key=lambda x: (x[1][0] * x[1][1] - x[1][0] - x[1][1], _key((x[0], 0))))[0]
        pos, neg, rest = [], [], set()
        for l in cs:
            k = l.coef(best)
            if k > 0:
                pos.append((k, l))
            elif k < 0:
                neg.append((-k, l))
            else:
                rest.add(l)
        for kp, p in pos:
            for kn, n in neg:
                r = _norm(p.scale(kn) + n.scale(kp))
                if r.is_const():
                    if r.c > 0:
                        return True
                    continue
                rest.add(r)
        # drop subsumed: same terms, smaller const
        bestc = {}
        for l in rest:
            o = bestc.get(l.t)
            if o is None or l.c > o.c:
                bestc[l.t] = l
        cs = set(bestc.values())
        if len(cs) > LIMIT:
            return False
        if not cs:
            return False


class Facts:
    """append-only conjunction of l<=0, l==0, l!=0"""
    __slots__ = ("le", "ne")

    def __init__(self, le=(), ne=()):
        self.le = le
        self.ne = ne

    def copy(self):
        return self

    def add_le(self, l):
        if l.is_const() and l.c <= 0:
            return self
        if l in self.le:
            return self
        return Facts(self.le + (l,), self.ne)

    def add_eq(self, l):
        return self.add_le(l).add_le(-l)

    def add_ne(self, l):
        if l.is_const() and l.c != 0:
            return self
        return Facts(self.le, self.ne + (l,))

    def either(self, o, may_differ, idle):
        """one conjunction that says the same as "self or o"; None if there is none in reach"""
        if self.le == o.le and self.ne == o.ne:
            return self
        mine, other = set(self.le), set(o.le)
        da, db, le = [], [], []
        for l in self.le:
            if l in other or o.proves_le(l):
                le.append(l)
            else:
                da.append((l, 0))
        for l in o.le:
            if l not in mine:
                if self.proves_le(l):
                    le.append(l)
                else:
                    db.append((l, 0))
        mn, on = set(self.ne), set(o.ne)
        ne = []
        for l in self.ne:
            if l in on or o.proves_ne(l):
                ne.append(l)
            else:
                da.append((l, 1))
        for l in o.ne:
            if l not in mn:
                if self.proves_ne(l):
                    ne.append(l)
                else:
                    db.append((l, 1))
        m = Facts(tuple(le), tuple(ne))
        da = [x for x in da if not any(idle(t) for t in x[0].atoms())]
        db = [x for x in db if not any(idle(t) for t in x[0].atoms())]
        if (da or db) and not may_differ or len(da) * len(db) > 16:
            return None
        # (all of da) or (all of db) holds anyway
        for f, fk in da:
            for g, gk in db:
                x = [(-f) + 1] if fk == 0 else [f, -f]
                y = [(-g) + 1] if gk == 0 else [g, -g]
                if not m.contradicts(x + y):
                    return None
        return m

    def relevant(self, seeds):
        want = set(seeds)
        le = list(self.le)
        chosen = []
        changed = True
        while changed and le:
            changed = False
            nxt = []
            for l in le:
                at = l.atoms()
                if not at or any(a in want for a in at):
                    chosen.append(l)
                    for a in at:
                        if a not in want:
                            want.add(a)
                    changed = True
                else:
                    nxt.append(l)
            le = nxt
        return chosen, want

    def contradicts(self, extra):
        """facts and all(extra <= 0) unsatisfiable?"""
        return _contradicts(self.le, self.ne, tuple(extra))

    def proves_le(self, l):
        if l.is_const():
            return l.c <= 0
        return self.contradicts([(-l) + 1])

    def proves_lt(self, l):
        return self.proves_le(l + 1)

    def proves_eq(self, l):
        if l.is_const():
            return l.c == 0
        return self.proves_le(l) and self.proves_le(-l)

    def proves_ne(self, l):
        if l.is_const():
            return l.c != 0
        if l in self.ne or (-l) in self.ne:
            return True
        return self.contradicts([l, -l])

    def inconsistent(self):
        seeds = set()
        for l in self.le:
            seeds.update(l.atoms())
        return self.contradicts([])


@lru_cache(maxsize=200000)
def _contradicts(le, ne, extra):
    f = Facts(le, ne)
    seeds = set()
    for e in extra:
        seeds.update(e.atoms())
    if extra:
        chosen, want = f.relevant(seeds)
    else:
        chosen = list(le)
        want = set()
        for l in le:
            want.update(l.atoms())
    base = chosen + list(extra)
    for a in want:
        if not signed_atom(a):
            base.append(Lin(0, ((a, -1),)))  # -a <= 0
    if unsat(base):
        return True
    rel = [n for n in ne if any(a in want for a in n.atoms())]
    # each disequality may be split; use those forced to one side first
    todo = []
    for n in rel:
        lo = unsat(base + [n])      # n <= 0 impossible -> n > 0
        if lo:
            continue
        hi = unsat(base + [-n])
        if hi:
            continue
        # n <= 0 and n >= 0 both possible; strict versions
        a = unsat(base + [n + 1])   # n < 0 impossible
        b = unsat(base + [(-n) + 1])
        if a and b:
            return True
        if a:
            base.append((-n) + 1)
        elif b:
            base.append(n + 1)
        else:
            todo.append(n)
    if unsat(base):
        return True
    for n in todo[:2]:
        if unsat(base + [n + 1]) and unsat(base + [(-n) + 1]):
            return True
    return False
