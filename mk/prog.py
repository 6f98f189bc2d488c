"""The dumped program: bodies, impls, CFG utilities."""
import json


def last(p):
    """last path segment without generic decoration"""
    depth = 0
    out = []
    seg = ""
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            depth += 1
        elif c == ">" and p[i - 1] != "-":
            depth -= 1
        if depth == 0 and p.startswith("::", i):
            out.append(seg)
            seg = ""
            i += 2
            continue
        seg += c
        i += 1
    out.append(seg)
    return out[-1]


class Cfg:
    def __init__(self, mir):
        self.mir = mir
        bl = mir["blocks"]
        n = len(bl)
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(bl):
            if b["cleanup"]:
                continue
            t = b["t"]
            k = t["k"]
            if k in ("goto", "drop", "assert"):
                self.succ[i] = [t["t"]]
            elif k == "switch":
                s = [x[1] for x in t["ts"]] + [t["o"]]
                self.succ[i] = list(dict.fromkeys(s))
            elif k == "call" and t["t"] is not None:
                self.succ[i] = [t["t"]]
        rets = [i for i, b in enumerate(bl) if b["t"]["k"] == "return" and not b["cleanup"]]
        pred = [[] for _ in range(n)]
        for i in range(n):
            for s in self.succ[i]:
                pred[s].append(i)
        live = set()
        st = list(rets)
        while st:
            x = st.pop()
            if x in live:
                continue
            live.add(x)
            st += pred[x]
        self.live = live            # blocks that can reach a return
        self.reach = set()
        st = [0]
        while st:
            x = st.pop()
            if x in self.reach:
                continue
            self.reach.add(x)
            st += self.succ[x]
        self.rets = [r for r in rets if r in self.reach]
        self.nodes = live & self.reach
        self.pred = pred
        self._loops()

    def _loops(self):
        # natural loops via DFS-based dominators (small graphs: iterative sets)
        nodes = self.nodes
        order = []
        seen = set()

        def dfs(r):
            st = [(r, iter([s for s in self.succ[r] if s in nodes]))]
            seen.add(r)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        st.append((y, iter([s for s in self.succ[y] if s in nodes])))
                        break
                else:
                    order.append(x)
                    st.pop()

        self.loops = {}
        self.irreducible = False
        if 0 not in nodes:
            self.rpo = []
            return
        dfs(0)
        self.rpo = order[::-1]
        idx = {x: i for i, x in enumerate(self.rpo)}
        dom = {x: None for x in self.rpo}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for x in self.rpo[1:]:
                ps = [dom[p] for p in self.pred[x] if p in idx and dom[p] is not None]
                d = set.intersection(*ps) | {x} if ps else {x}
                if dom[x] != d:
                    dom[x] = d
                    ch = True
        self.dom = dom
        for x in self.rpo:
            for s in self.succ[x]:
                if s in idx and idx[s] <= idx[x]:
                    if s in dom[x]:
                        body = self.loops.setdefault(s, {s})
                        st = [x]
                        while st:
                            y = st.pop()
                            if y in body:
                                continue
                            body.add(y)
                            st += [p for p in self.pred[y] if p in nodes]
                    else:
                        self.irreducible = True


class Prog:
    def __init__(self, path, *more):
        self.d = json.load(open(path))
        for m in more:                                   # witness crates analysed together with the library
            e = json.load(open(m))
            for k in ("bodies", "adts", "impls", "traits", "statics", "unsafe_blocks"):
                self.d[k] = self.d[k] + e[k]
        self.bodies = {}
        self.bypath = {}
        for b in self.d["bodies"]:
            self.bodies[b["sp"]] = b
            self.bypath.setdefault(b["path"], b)
        self.impls = {i["sp"]: i for i in self.d["impls"]}
        self.traits = {t["path"]: t for t in self.d["traits"]}
        self.adts = {a["path"]: a for a in self.d["adts"]}
        self._cfg = {}
        # trait method sp -> path
        self.default = {}
        for t in self.d["traits"]:
            for it in t["items"]:
                if it["default"]:
                    self.default[it["path"]] = it["sp"]
        # (trait path, method) -> list of (impl, item)
        self.impl_items = {}
        for i in self.d["impls"]:
            if "trait" in i:
                for it in i["items"]:
                    self.impl_items.setdefault((i["trait"], it["name"]), []).append((i, it))

    def cfg(self, mir):
        k = id(mir)
        if k not in self._cfg:
            self._cfg[k] = Cfg(mir)
        return self._cfg[k]

    def adt_by_last(self, name):
        return [a for p, a in self.adts.items() if last(p) == name]

    def impls_of(self, trait_last):
        return [i for i in self.d["impls"] if "trait" in i and last(i["trait"]) == trait_last]

    def inherent(self, adt_last):
        """bodies of inherent methods of a local type"""
        out = []
        for b in self.d["bodies"]:
            im = self.impls.get(b.get("impl"))
            if im and "trait" not in im and im["self"]["k"] == "adt" and last(im["self"]["path"]) == adt_last and b["kind"] == "AssocFn":
                out.append((b, im))
        return out

    def trait_methods(self, trait_last, method=None):
        """bodies implementing a trait's methods: [(body, impl)]"""
        out = []
        for i in self.impls_of(trait_last):
            for it in i["items"]:
                if it["kind"] == "Fn" and (method is None or it["name"] == method):
                    b = self.bodies.get(it["sp"])
                    if b:
                        out.append((b, i))
        return out
