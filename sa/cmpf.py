"""Congruence of guarded values: does the code compute what the rule requires?

Two canonical values are congruent when every feasible combination of their
guards selects congruent leaves.  Guards are decided by polyhedral entailment."""
from .terms import *
from .lin import *
from .evalf import rename, fv, mkp, nanatom


class Mismatch(Exception):
    pass


WORK = [0]
WORKLIMIT = 200000


class Cmp:
    def __init__(self, facts=None, pairs=0):
        self.facts = [facts or Facts()]
        self.memo = {}
        self.why = None
        self.n = 0
        self.whystack = []
        self.ser = [0]
        self.sers = {}
        self.deep = 0

    # -------------------------------------------------------------- helpers
    def consistent(self, lits):
        f = self.facts[-1].copy()
        for a, v in lits:
            f.add_lit(a, v)
        # boolean literal theory
        for a, v in lits:
            for b, w in lits:
                if a is not b:
                    r = implied(a, v, b)
                    if r is not None and r != w:
                        return False
        for l, v in f.lits.items():
            for b, w in lits:
                r = implied(l, v, b)
                if r is not None and r != w:
                    return False
        # three-valued float comparisons: lt, gt, eq all false -> unordered
        fl = {}
        for a, v in lits:
            if a.op in ("flt", "feq"):
                key = frozenset(a.args)
                fl.setdefault(key, []).append((a, v))
        nan = {a.args[0]: v for a, v in list(lits) + list(f.lits.items()) if a.op == "nan"}
        for key, l in fl.items():
            if len(l) == 3 and not any(v for a, v in l):
                ks = list(key)
                if all(nan.get(nanroot(x)) is False or x.op in ("f", "i2f") for x in ks):
                    return False
        for p in f.prem:
            for a, v in lits:
                p = restrict(p, a, v)
                for b in p.sup:
                    r = implied(a, v, b)
                    if r is not None:
                        p = restrict(p, b, r)
            if p is FALSE:
                return False
        for n in f.nes:
            if f.entails_ge(n) and f.entails_ge(pscale(n, -1)):
                return False
        return feasible(f.ges, f.eqs)

    def ddeq(self, A, B):
        if A is B:
            return True
        key = (A.uid, B.uid, self.ser[-1])
        r = self.memo.get(key)
        if r is not None:
            return r
        r = self._ddeq(A, B)
        self.memo[key] = r
        return r

    def _ddeq(self, A, B):
        # unify congruent atoms
        F = self.facts[-1]
        A = F.simp(A)
        B = F.simp(B)
        if A is B:
            return True
        onlyB = [b for b in B.sup if b not in A.sup]
        onlyA = [a for a in A.sup if a not in B.sup]
        for b in onlyB:
            for a in list(onlyA):
                if a.op == b.op and a.op not in ("ge", "eq") and self.teq(a, b, quiet=True):
                    B = subst_atom(B, b, a)
                    onlyA.remove(a)
                    break
                if a.op == b.op and a.op in ("ge", "eq"):
                    if a.args[1] == b.args[1] and self.teq(a.args[0], b.args[0], quiet=True):
                        B = subst_atom(B, b, a)
                        onlyA.remove(a)
                        break
        if A is B:
            return True
        bad = apply2(lambda x, y: True if x is y else (x, y), A, B)
        # less, equal, greater or unordered: there is no fifth case
        three = {}
        for a in bad.sup:
            if a.op in ("flt", "feq"):
                three.setdefault(frozenset(a.args), []).append(a)
        for key, l in three.items():
            if len(l) == 3:
                c = FALSE
                for a in l:
                    c = OR(c, lit(a))
                for x in key:
                    c = OR(c, nanatom(x))
                bad = ite(c, bad, leaf(True))
        try:
            cs = cubes(bad, lambda l: l is not True, limit=3000)
        except TooBig:
            self.fail("too many guard combinations differ", A, B)
            return False
        for lits, pr in cs:
            x, y = pr
            if isinstance(x, T) and x.op == "BOT" or isinstance(y, T) and y.op == "BOT":
                continue
            if not self.consistent(lits):
                continue
            if isinstance(x, T) and isinstance(y, T):
                more = lits and self.deep < 2 and (x.op == y.op or x.op in ("st", "arr") or y.op in ("st", "arr"))
                if self.teq(x, y, quiet=more):
                    continue
                if more:
                    # both are computed under this guard: what it says may settle what is inside
                    self.deep += 1
                    self.assume(lits)
                    try:
                        ok = self.teq(x, y)
                    finally:
                        self.pop()
                        self.deep -= 1
                    if ok:
                        continue
            self.fail("under guard [%s]" % " & ".join(("" if v else "!") + show(a, 5) for a, v in lits), x, y)
            return False
        return True

    def fail(self, msg, a, b):
        self.whystack.append((msg, a, b))
        self.why = (msg, a, b)

    def teq(self, a, b, quiet=False):
        if a is b:
            return True
        WORK[0] += 1
        if WORK[0] > WORKLIMIT:
            raise TooBig("comparison exceeds its work limit")
        if not isinstance(a, T) or not isinstance(b, T):
            return self.veq(a, b)
        if a.op != b.op and not (a.op in ("arr", "st") or b.op in ("arr", "st")):
            return False
        key = (a.uid, b.uid, "t", self.ser[-1])
        r = self.memo.get(key)
        if r is not None:
            return r
        self.memo[key] = False
        sv = self.why, len(self.whystack)
        r = self._teq(a, b)
        if quiet and not r:
            self.why = sv[0]
            del self.whystack[sv[1]:]
        self.memo[key] = r
        return r

    def _teq(self, a, b):
        o = a.op
        if o == "p":
            return self.polyeq(a, b)
        if o in ("arr", "st") or b.op in ("arr", "st"):
            return self.updeq(a, b)
        if o in ("f", "sym", "param", "k", "str", "glob"):
            return False
        if o in ("loop",):
            if a.args[0] != b.args[0]:
                return False
            self.push(a.args[0], None)
            try:
                return a.args[2] == b.args[2] and self.ddeq(a.args[1], b.args[1])
            finally:
                self.pop()
        if o == "final":
            if a.args[0].args[0] != b.args[0].args[0] or not self.teq(a.args[0], b.args[0]):
                return False
            self.push(a.args[0].args[0], None)
            try:
                return self.veq(a.args[1:], b.args[1:])
            finally:
                self.pop()
        if o in ("mu", "memmu"):
            i = 1 if o == "mu" else 2
            if a.args[0] != b.args[0] or not self.veq(a.args[1:i + 1], b.args[1:i + 1]):
                return False
            self.push(a.args[0], None)
            try:
                return self.veq(a.args[i + 1:], b.args[i + 1:])
            finally:
                self.pop()
        if o == "ld" and a.args[0] is not b.args[0]:
            if not self.teq(a.args[1], b.args[1]):
                return False
            if self.teq(a.args[0], b.args[0], quiet=True):
                return True
            return self.updeq(a.args[0], b.args[0], a.args[1])
        if len(a.args) != len(b.args):
            return False
        if o in ("fadd", "fmul", "feq"):
            x, y = a.args
            u, v = b.args
            return (self.teq(x, u) and self.teq(y, v)) or (self.teq(x, v) and self.teq(y, u))
        return self.veq(a.args, b.args)

    def push(self, d, cont):
        """enter the body of a loop at depth d"""
        key = (self.ser[-1], d, None if cont is None else cont.uid)
        if key not in self.sers:
            f = self.facts[-1].outside(d)
            f.add_ge(patom(mk("k", d)))
            if cont is not None:
                f.add_dd(cont)
            self.sers[key] = f, len(self.sers) + 1
        f, n = self.sers[key]
        self.facts.append(f)
        self.ser.append(n)

    def assume(self, lits):
        key = (self.ser[-1], tuple((a.uid, v) for a, v in lits))
        if key not in self.sers:
            f = self.facts[-1].copy()
            for a, v in lits:
                f.add_lit(a, v)
            self.sers[key] = f, len(self.sers) + 1
        f, n = self.sers[key]
        self.facts.append(f)
        self.ser.append(n)

    def pushdd(self, c):
        key = (self.ser[-1], "dd", c.uid)
        if key not in self.sers:
            f = self.facts[-1].copy()
            f.add_dd(c)
            self.sers[key] = f, len(self.sers) + 1
        f, n = self.sers[key]
        self.facts.append(f)
        self.ser.append(n)

    def pop(self):
        self.facts.pop()
        self.ser.pop()

    def veq(self, x, y):
        if x is y or (not isinstance(x, (T, DD)) and x == y):
            return True
        if isinstance(x, DD) and isinstance(y, DD):
            return self.ddeq(x, y)
        if isinstance(x, DD) and x.var is None:
            return self.veq(x.leaf, y)
        if isinstance(y, DD) and y.var is None:
            return self.veq(x, y.leaf)
        if isinstance(x, T) and isinstance(y, T):
            return self.teq(x, y)
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(self.veq(p, q) for p, q in zip(x, y))
        if isinstance(x, frozenset) and isinstance(y, frozenset):
            return self.seteq(x, y)
        return False

    def seteq(self, x, y):
        x, y = set(x), set(y)
        com = x & y
        x -= com
        y = list(y - com)
        if len(x) != len(y):
            return False
        for p in x:
            for q in y:
                if self.veq(p, q):
                    y.remove(q)
                    break
            else:
                return False
        return True

    def polyeq(self, a, b):
        d = psub(a, b)
        if pisconst(d):
            return pval(d) == 0
        f = self.facts[-1]
        if f.entails_eq(d):
            return True
        xa = [t for t in patoms(a) if t not in patoms(b)]
        xb = [t for t in patoms(b) if t not in patoms(a)]
        if not xa or not xb:
            return False
        for t in xb:
            for s in xa:
                if s.op == t.op and self.teq(s, t):
                    b = substpoly(b, t, s)
                    xa.remove(s)
                    break
        d = psub(a, b)
        if pisconst(d):
            return pval(d) == 0
        return f.entails_eq(d)

    # ------------------------------------------------ memory update chains
    def chain(self, v):
        """version -> (base version, updates oldest first)"""
        ups = []
        while True:
            if v.op == "st":
                ups.append(((), v.args[2], v.args[3] if isinstance(v.args[3], DD) else leaf(v.args[3]), v))
                v = v.args[1]
            elif v.op == "arr":
                reg, ini, d, cont, ents = v.args
                for doms, addr, val in sorted(ents, key=lambda e: (e[1].uid, e[2].uid)):
                    if val is NOSTORE:
                        continue
                    ups.append((((d, cont),) + doms, addr, val, v))
                v = ini
                if isinstance(v, DD):
                    if v.var is not None:
                        break
                    v = v.leaf
            else:
                break
        ups.reverse()
        return v, ups

    def near(self, ups, addr):
        """the updates that can touch the location"""
        out = []
        for u in ups:
            if self.overlap(u, ((), addr, None, None)):
                out.append(u)
        return out

    def updeq(self, a, b, addr=None):
        """same memory: same base and the same set of guarded updates.  Updates of
        one chain that cannot touch the same address may come in any order."""
        va, ua = self.chain(a)
        vb, ub = self.chain(b)
        if addr is not None:
            na, nb = self.near(ua, addr), self.near(ub, addr)
            if len(na) == len(ua) and len(nb) == len(ub):
                return False
            ua, ub = na, nb
        pos = {}
        left = list(range(len(ub)))
        for i, x in enumerate(ua):
            hit = None
            for j in left:
                if x[:3] == ub[j][:3]:
                    hit = j
                    break
            if hit is None:
                for j in left:
                    if self.entryeq(x, ub[j], quiet=True):
                        hit = j
                        break
            if hit is None and (self.noop(ua, i, va) or self.unset(x, ub, vb)):
                continue
            if hit is None:
                # report against the most similar update
                for j in left:
                    if len(ub[j][0]) == len(x[0]) and self.sameaddr(x, ub[j]):
                        n = len(self.whystack)
                        self.memo = {}
                        self.entryeq(x, ub[j])
                        if len(self.whystack) == n:
                            self.fail("memory update differs", x[1:3], ub[j][1:3])
                        return False
                self.fail("memory update is not allowed by the rule", x[1], x[2])
                return False
            pos[i] = hit
            left.remove(hit)
        left = [j for j in left if not self.noop(ub, j, vb)]
        if left:
            u = ub[left[0]]
            self.fail("a memory update required by the rule is missing", u[1], u[2])
            return False
        if not self.veq(va, vb):
            self.fail("the updated memory differs before the update", va, vb)
            return False
        for i in range(len(ua)):
            for j in range(i + 1, len(ua)):
                if i in pos and j in pos and pos[i] > pos[j] and self.overlap(ua[i], ua[j]):
                    self.fail("order of two updates of the same location", ua[i][1], ua[j][1])
                    return False
        return True

    def unset(self, x, ub, vb):
        """the update fills a local or new storage the rule leaves uninitialised, where any content will do"""
        if isinstance(vb, DD):
            if vb.var is not None:
                return False
            vb = vb.leaf
        if not (isinstance(vb, T) and vb.op == "init") or x[1].op != "p":
            return False
        base = pptr(x[1])[0]
        if base is not None and base.op == "alloc" and base.args[0] == "malloc":
            off = pptr(x[1])[1]
            return pisconst(off) and all(u[1].op == "p" and (pptr(u[1])[0] is not base or pisconst(pptr(u[1])[1]) and pptr(u[1])[1] is not off) for u in ub)
        if base is None or base.op != "loc":
            return False
        return all(u[1].op == "p" and pptr(u[1])[0] is not base for u in ub)

    def noop(self, ups, i, base):
        """the update stores the value its location already holds"""
        doms, addr, x = ups[i][:3]
        if doms or not isinstance(x, DD):
            return False
        for u in reversed(ups[:i]):
            if not self.overlap(u, ups[i]):
                continue
            if u[0] or not self.teq(u[1], addr, quiet=True) or not isinstance(u[2], DD):
                return False
            cur = u[2]
            break
        else:
            if isinstance(base, DD):
                if base.var is not None:
                    return False
                base = base.leaf
            t = mk("ld", base, addr)
            cur = leaf(t)
            if x.var is None and not isinstance(x.leaf, T):
                return False
            y = x
            while y.var is not None:
                y = y.hi
            if isinstance(y.leaf, T) and (y.leaf.op == "p" or getattr(y.leaf, "isptr", False)):
                cur = leaf(patom(t))
        sv = self.why, len(self.whystack)
        r = self.ddeq(x, cur)
        if not r:
            self.why = sv[0]
            del self.whystack[sv[1]:]
        return r

    def overlap(self, x, y):
        if x[3] is y[3] and x[3].op == "arr":
            return False        # same loop: order inside a loop is part of its summary
        from .evalf import rename
        ges = []
        ad = []
        eqs = []
        for n, u in enumerate((x, y)):
            doms, addr = u[0], u[1]
            ren = {mk("k", d): mk("kk%d" % n, d) for d, c in doms}
            for d, c in doms:
                ges.append(patom(ren[mk("k", d)]))
                f = Facts()
                f.add_dd(c)
                for p in f.ges:
                    ges.append(rename(p, ren))
            ad.append(rename(addr, ren))
        return may_alias(ad[0], ad[1], self.facts[-1], ges)

    def sameaddr(self, x, y):
        n = 0
        try:
            for (d1, c1), (d2, c2) in zip(x[0], y[0]):
                if d1 != d2:
                    return False
                self.push(d1, c1)
                n += 1
            return self.teq(x[1], y[1], quiet=True)
        finally:
            for _ in range(n):
                self.pop()

    def entryeq(self, x, y, quiet=False):
        sv = self.why, len(self.whystack)
        r = self._entryeq(x, y)
        if quiet and not r:
            self.why = sv[0]
            del self.whystack[sv[1]:]
        return r

    def _entryeq(self, x, y):
        dx, ax, vx = x[:3]
        dy, ay, vy = y[:3]
        if len(dx) != len(dy):
            return False
        n = 0
        try:
            for (d1, c1), (d2, c2) in zip(dx, dy):
                if d1 != d2 or not self.ddeq(c1, c2):
                    return False
                self.push(d1, c1)
                n += 1
            if not self.teq(ax, ay, quiet=True):
                return False
            return self.ddeq(vx, vy)
        finally:
            for _ in range(n):
                self.pop()


def split2(addr):
    offs = []
    base, off = pptr(addr)
    offs.append(off)
    if base is not None and base.op == "ld":
        b2, o2 = pptr(base.args[1])
        if b2 is not None:
            return (base.args[0], b2), [o2, off]
    return base, offs


def may_alias(a, b, facts, ges):
    ra, oa = split2(a)
    rb, ob = split2(b)
    if ra is None or rb is None:
        return True
    if ra != rb or len(oa) != len(ob):
        ba, _ = pptr(a)
        bb, _ = pptr(b)
        from .evalf import separate
        return ba is None or bb is None or not separate(ba, bb)
    E = [psub(x, y) for x, y in zip(oa, ob)]
    return feasible(list(facts.ges) + ges, list(facts.eqs) + E)


def apply2(fn, A, B):
    memo = {}

    def rec(a, b):
        if a is b:
            return TRUE
        key = (a.uid, b.uid)
        r = memo.get(key)
        if r is not None:
            return r
        from .terms import _top, _cof
        v = _top((a, b))
        if v is None:
            r = fn(a.leaf, b.leaf)
            r = leaf(r)
        else:
            h = rec(_cof(a, v, True), _cof(b, v, True))
            l = rec(_cof(a, v, False), _cof(b, v, False))
            r = node(v, h, l)
        memo[key] = r
        return r
    return rec(A, B)


def subst_atom(d, b, a):
    memo = {}

    def rec(x):
        if b not in x.sup:
            return x
        r = memo.get(x.uid)
        if r is None:
            v = a if x.var is b else x.var
            r = ite(lit(v), rec(x.hi), rec(x.lo))
            memo[x.uid] = r
        return r
    return rec(d)


def substpoly(p, t, s):
    r = ZERO
    for m, c in p.args:
        q = pconst(c)
        for a in m:
            q = pmul(q, patom(s if a is t else a))
        r = padd(r, q)
    return r
