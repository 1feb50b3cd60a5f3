"""Loading of the extracted program (types, signatures, MIR bodies)."""
import json


class Ty:
    """reference to a type of a dump"""
    __slots__ = ("d", "i")

    def __init__(self, d, i):
        self.d = d
        self.i = i

    def __eq__(self, o):
        return isinstance(o, Ty) and self.d is o.d and self.i == o.i

    def __hash__(self):
        return hash((self.d.tag, self.i))

    def __repr__(self):
        return self.raw["s"]

    @property
    def raw(self):
        return self.d.types[self.i]

    @property
    def k(self):
        return self.raw["k"]

    @property
    def s(self):
        return self.raw["s"]

    @property
    def path(self):
        p = self.raw.get("path")
        return self.d.fix(p) if self.k == "adt" else p

    @property
    def e(self):
        return Ty(self.d, self.raw["e"])

    def args(self):
        return [Ty(self.d, a) for a in self.raw.get("args", [])]

    def field(self, variant, i):
        r = self.raw
        try:
            if r["k"] == "adt":
                return Ty(self.d, r["vf"][variant][i])
            if r["k"] in ("tuple", "closure"):
                return Ty(self.d, r["args"][i])
        except (KeyError, IndexError):
            pass
        return None

    def nfields(self, variant):
        r = self.raw
        if r["k"] == "adt":
            return len(r["vf"][variant]) if "vf" in r else 0
        if r["k"] in ("tuple", "closure"):
            return len(r["args"])
        return 0

    def variants(self):
        return self.d.adts.get(self.raw.get("path"), {}).get("variants", [])

    def is_enum(self):
        return self.k == "adt" and self.d.adts.get(self.raw["path"], {}).get("enum", False)


class Body:
    def __init__(self, d, key, b):
        self.d = d
        self.key = key
        self.raw = b
        self.path = b["path"]
        self.name = b.get("name", "")
        self.local = b["local"] and d.tag == "crate"
        self.blocks = b["blocks"]
        self.argc = b["argc"]
        self.span = b["span"]
        self.closure = b["closure"]
        self._loops = None
        self._order = None
        self._live = None

    @property
    def order(self):
        """block -> position in a reverse postorder"""
        if self._order is None:
            seen, post = {0}, []
            stack = [(0, iter(self.succs(0)))]
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succs(s))))
                        break
                else:
                    post.append(b)
                    stack.pop()
            self._order = {b: i for i, b in enumerate(post[::-1])}
        return self._order

    @property
    def joins(self):
        """block with several predecessors -> locals that may still be read from there on"""
        if self._live is not None:
            return self._live
        n = len(self.blocks)
        use, kill, taken, preds = [], [], {0}, [[] for _ in range(n)]

        def places(x, out):
            if not isinstance(x, list):
                return
            if len(x) == 2 and type(x[0]) is int and isinstance(x[1], list):
                out.add(x[0])
                out.update(e[1] for e in x[1] if e and e[0] == "i")
                return
            for y in x:
                places(y, out)

        for i in range(n):
            u, k = set(), set()

            def step(reads, dest):
                r = set()
                places(reads, r)
                if dest is not None:
                    if dest[1]:
                        places(dest, r)
                    u.update(r - k)
                    if not dest[1]:
                        k.add(dest[0])
                else:
                    u.update(r - k)
            for s in self.blocks[i]["s"]:
                if s[0] == "=":
                    rv = s[2]
                    if rv[0] in ("ref", "raw") and (not rv[2][1] or all(e[0] != "*" for e in rv[2][1])):
                        taken.add(rv[2][0])
                    step(rv, s[1])
                elif s[0] == "sd":
                    step(s[1], None)
                elif s[0] == "dead":
                    k.add(s[1])
                elif s[0] == "intr":
                    pass
            t = self.blocks[i]["t"]
            if t[0] == "call":
                step([t[1], t[2]], t[3])
            elif t[0] == "drop":
                taken.add(t[1][0])
            elif t[0] == "switch":
                step([t[1]], None)
            else:
                step(t[1:] if t[0] == "assert" else [], None)
            use.append(u)
            kill.append(k)
            for x in self.succs(i):
                preds[x].append(i)
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                new = set(use[i])
                for x in self.succs(i):
                    new |= live[x] - kill[i]
                if new != live[i]:
                    live[i] = new
                    ch = True
        self._live = {i: live[i] | taken for i in range(n) if len(preds[i]) > 1}
        return self._live

    def lty(self, n):
        return Ty(self.d, self.raw["locals"][n])

    def succs(self, i):
        t = self.blocks[i]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        return []

    @property
    def loops(self):
        """header -> set of blocks of its natural loop"""
        if self._loops is not None:
            return self._loops
        n = len(self.blocks)
        order, seen = [], set()
        stack = [(0, iter(self.succs(0)))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(b)
                stack.pop()
        rpo = order[::-1]
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succs(b):
                preds[s].append(b)
        dom = {b: set(rpo) for b in rpo}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = set.intersection(*[dom[p] for p in preds[b]]) | {b}
                if new != dom[b]:
                    dom[b] = new
                    ch = True
        loops = {}
        for b in rpo:
            for s in self.succs(b):
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        self._loops = loops
        return loops


class Dump:
    def __init__(self, path, tag):
        with open(path) as f:
            d = json.load(f)
        self.tag = tag
        self.types = d["types"]
        self.adts = d["adts"]
        self.roots = d["roots"]
        self.impls = d["impls"]
        self.structs = d["structs"]
        self.fns = {k: Body(self, k, b) for k, b in d["fns"].items() if b}
        self.missing = [k for k, b in d["fns"].items() if not b]

    def fix(self, p):
        if p is None:
            return None
        if self.tag == "models":
            a = self.adts.get(p)
            if a and a["local"]:
                return "m::" + p
        return p
