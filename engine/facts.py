"""The extracted program: types, constants and monomorphic MIR bodies."""
import json
import os
import re

GEN = re.compile(r"::<'_>")


class Facts:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.path = path
        self.crate = d["crate"]
        self.insts = d["insts"]
        self.tys = d["tys"]
        self.allocs = d["allocs"]
        self.statics = d["statics"]
        self.roots = d["roots"]
        self.entry = d["entry"]
        self.impls = d["impls"]
        for t in self.tys:
            if t["k"] == "pat":      # a value of a restricted range, represented like its base type
                for f, x in self.tys[t["base"]].items():
                    if f not in ("s",):
                        t[f] = x
        self.byname = {}
        for k, v in self.insts.items():
            v["key"] = k
            v["nm"] = GEN.sub("", v["name"])
            self.byname.setdefault(v["nm"], []).append(k)
        self._rpo = {}
        self._kill = {}

    # -- lookup ---------------------------------------------------------------
    def find(self, name):
        """The one instance called `name` (fail closed)."""
        c = self.byname.get(name, [])
        if len(c) != 1:
            raise MissingAnchor(f"{self.crate}: {len(c)} instances named {name}")
        return c[0]

    def maybe(self, name):
        c = self.byname.get(name, [])
        return c[0] if len(c) == 1 else None

    def body(self, key):
        return self.insts[key].get("body")

    def ty_named(self, s):
        for i, t in enumerate(self.tys):
            if t["s"] == s:
                return i
        raise MissingAnchor(f"type {s}")

    # -- CFG ---------------------------------------------------------------------
    @staticmethod
    def succ(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            r = [b for _, b in t[2]]
            if t[3] is not None:
                r.append(t[3])
            return r
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [] if t[4] is None else [t[4]]
        if k == "assert":
            return [t[4]]
        return []

    def kill(self, key):
        r = self._kill.get(key)
        if r is None:
            r = self._kill[key] = live_kill(self, key)
        return r

    def rpo(self, key):
        r = self._rpo.get(key)
        if r is None:
            blocks = self.insts[key]["body"]["blocks"]
            seen = set()
            order = []
            st = [(0, iter(self.succ(blocks[0]["t"])))]
            seen.add(0)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(self.succ(blocks[s]["t"]))))
                        break
                else:
                    order.append(b)
                    st.pop()
            order.reverse()
            r = {b: i for i, b in enumerate(order)}
            self._rpo[key] = r
        return r


def live_kill(F, key):
    """For each block: the never-borrowed locals that are dead on entry."""
    body = F.insts[key]["body"]
    n = len(body["locals"])
    borrowed = set()
    use, defs = [], []

    def place(pl, u):
        u.add(pl[0])
        for e in pl[1]:
            if e[0] == "i":
                u.add(e[1])

    def operand(o, u):
        if o and isinstance(o, list) and o[0] in ("cp", "mv"):
            place(o[1], u)

    def anyuse(x, u):
        # every operand or place nested in an rvalue
        if isinstance(x, list):
            if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list) \
                    and all(isinstance(e, list) and e and isinstance(e[0], str) for e in x[1]):
                place(x, u)
                return
            for y in x:
                anyuse(y, u)
    for blk in body["blocks"]:
        u, d = set(), set()

        def read(x):
            t = set()
            anyuse(x, t)
            u.update(t - d)
        for s in blk["s"]:
            if s[0] == "=":
                rv = s[2]
                if rv[0] in ("ref", "addr"):
                    if not any(e[0] == "*" for e in rv[2][1]):
                        borrowed.add(rv[2][0])
                read(rv)
                if s[1][1]:
                    read(s[1])
                else:
                    d.add(s[1][0])
            elif s[0] == "dead":
                d.add(s[1])
            else:
                read(s[1:])
        t = blk["t"]
        if t[0] == "call":
            read([t[1].get("p")] if isinstance(t[1], dict) and "p" in t[1] else [])
            read(t[2])
            if t[3][1]:
                read(t[3])
            else:
                d.add(t[3][0])
        elif t[0] == "return":
            if 0 not in d:
                u.add(0)
        else:
            read(t[1:])
        use.append(u)
        defs.append(d)
    live = [set(u) for u in use]
    change = True
    order = sorted(F.rpo(key), key=F.rpo(key).__getitem__, reverse=True)
    while change:
        change = False
        for b in order:
            x = set(use[b])
            for s in F.succ(body["blocks"][b]["t"]):
                x |= live[s] - defs[b]
            if x != live[b]:
                live[b] = x
                change = True
    every = set(range(n)) - borrowed
    out = {}
    pred = {}
    for b in order:
        for s in F.succ(body["blocks"][b]["t"]):
            pred.setdefault(s, []).append(b)
    for b in order:
        # only locals that a predecessor may still hold
        k = every - live[b]
        have = set()
        for q in pred.get(b, []):
            have |= live[q] | defs[q]
        out[b] = tuple(sorted(k & have))
    return out


class MissingAnchor(Exception):
    pass
