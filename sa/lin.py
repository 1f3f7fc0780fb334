"""Integer linear entailment (Fourier-Motzkin with gcd tightening, Omega-style
equality elimination).  Used to decide array-subscript, guard and domain facts."""
import re
from math import gcd
from .terms import *

# constraint: (dict mono->coef, const) meaning sum + const >= 0 ; equality kept separately


def _norm(d, c):
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if g == 0:
        return (frozenset(), c)
    if g > 1:
        d = {m: k // g for m, k in d.items()}
        c = c // g          # floor: integer tightening
    return (frozenset(d.items()), c)


class Infeasible(Exception):
    pass


def conversions(t):
    """the number of conversions in the constant format of a call of sscanf"""
    f = t.args[1][1] if len(t.args[1]) > 1 else None
    f = pptr(f)[0] if isinstance(f, T) and f.op == "p" else f
    if not isinstance(f, T) or f.op != "str" or not isinstance(f.args[0], str):
        return None
    return len(re.findall(r"%(?!\*)[^%]", f.args[0].replace("%%", "")))


NONNEG = {"kd_getnodeorigid"}      # results of an unsigned type


def feasible(ges, eqs=(), limit=4000):
    """ges: polys >= 0; eqs: polys == 0.  False only if proved infeasible over the integers."""
    G = []
    E = []
    for p in eqs:
        d = pdict(p)
        c = d.pop((), 0)
        E.append((d, c))
    for p in ges:
        d = pdict(p)
        c = d.pop((), 0)
        G.append((d, c))
    try:
        # eliminate equalities
        fresh = 0
        guard = 0
        while E:
            guard += 1
            if guard > 60:
                break
            E.sort(key=lambda dc: len(dc[0]))
            d, c = E.pop(0)
            d = {m: k for m, k in d.items() if k}
            if not d:
                if c != 0:
                    return False
                continue
            g = 0
            for k in d.values():
                g = gcd(g, abs(k))
            if c % g:
                return False
            d = {m: k // g for m, k in d.items()}
            c //= g
            unit = [m for m, k in d.items() if abs(k) == 1]
            if unit:
                m = unit[0]
                s = d[m]
                # m = -s*(rest + c)
                rest = {x: -s * k for x, k in d.items() if x is not m and x != m}
                rc = -s * c
                E = [_subst(e, m, rest, rc) for e in E]
                G = [_subst(e, m, rest, rc) for e in G]
            else:
                # Omega: introduce a fresh variable
                m = min(d, key=lambda x: abs(d[x]))
                a = d[m]
                if a < 0:
                    d = {x: -k for x, k in d.items()}
                    c = -c
                    a = -a
                fresh += 1
                sig = (mk("omega", guard, fresh),)
                q = {x: k // a for x, k in d.items() if x != m}
                qc = c // a
                # m = sig - sum q x - qc
                rest = {x: -k for x, k in q.items()}
                rest[sig] = 1
                rc = -qc
                E.append((d, c))
                E = [_subst(e, m, rest, rc) for e in E]
                G = [_subst(e, m, rest, rc) for e in G]
        S = set()
        for d, c in G:
            d = {m: k for m, k in d.items() if k}
            n = _norm(d, c)
            if not n[0]:
                if n[1] < 0:
                    return False
                continue
            S.add(n)
        S = _dominate(S)
        while True:
            vars = {}
            for f, c in S:
                for m, k in f:
                    v = vars.setdefault(m, [0, 0])
                    v[0 if k > 0 else 1] += 1
            if not vars:
                return True
            m = min(vars, key=lambda x: vars[x][0] * vars[x][1] - vars[x][0] - vars[x][1])
            pos, neg, rest = [], [], set()
            for f, c in S:
                k = dict(f).get(m, 0)
                if k > 0:
                    pos.append((dict(f), c, k))
                elif k < 0:
                    neg.append((dict(f), c, -k))
                else:
                    rest.add((f, c))
            for d1, c1, k1 in pos:
                for d2, c2, k2 in neg:
                    d = {}
                    for x, k in d1.items():
                        d[x] = d.get(x, 0) + k2 * k
                    for x, k in d2.items():
                        d[x] = d.get(x, 0) + k1 * k
                    d = {x: k for x, k in d.items() if k}
                    n = _norm(d, k2 * c1 + k1 * c2)
                    if not n[0]:
                        if n[1] < 0:
                            return False
                        continue
                    rest.add(n)
            S = _dominate(rest)
            if len(S) > limit:
                return True
    except Infeasible:
        return False


def _subst(e, m, rest, rc):
    d, c = e
    k = d.get(m)
    if not k:
        return e
    d = {x: v for x, v in d.items() if x != m}
    for x, v in rest.items():
        d[x] = d.get(x, 0) + k * v
    d = {x: v for x, v in d.items() if v}
    return (d, c + k * rc)


def _dominate(S):
    best = {}
    for f, c in S:
        o = best.get(f)
        if o is None or c < o:
            best[f] = c
    # quick contradiction: f + c >= 0 and -f + c' >= 0 with c + c' < 0
    for f, c in best.items():
        nf = frozenset((m, -k) for m, k in f)
        o = best.get(nf)
        if o is not None and c + o < 0:
            raise Infeasible()
    return set(best.items())


_bound = {}


def bound(t):
    """depths (as bits) of the loops whose counters or carried values occur free in t"""
    if isinstance(t, (tuple, list)):
        r = 0
        for x in t:
            r |= bound(x)
        return r
    if not isinstance(t, (T, DD)):
        return 0
    key = (isinstance(t, T), t.uid)
    r = _bound.get(key)
    if r is not None:
        return r
    if isinstance(t, DD):
        r = bound(t.leaf) if t.var is None else bound(t.var) | bound(t.hi) | bound(t.lo)
    elif t.op == "k":
        r = 1 << t.args[0]
    elif t.op in ("mu", "memmu"):
        r = 1 << t.args[0] | bound(t.args[1:])
    elif t.op == "arr":
        r = bound(t.args[1]) | bound(t.args[3:]) & (1 << t.args[2]) - 1
    elif t.op == "final":
        r = bound(t.args) & (1 << t.args[0].args[0]) - 1
    elif t.op == "loop":
        r = bound(t.args) & (1 << t.args[0]) - 1
    else:
        r = bound(t.args)
    _bound[key] = r
    return r


class Facts:
    """conjunction of linear facts plus a set of boolean literals"""

    def __init__(self, parent=None):
        self.ges = list(parent.ges) if parent else []
        self.eqs = list(parent.eqs) if parent else []
        self.nes = list(parent.nes) if parent else []
        self.lits = dict(parent.lits) if parent else {}
        self.prem = list(parent.prem) if parent else []
        self._memo = {}

    def copy(self):
        return Facts(self)

    def outside(self, d):
        """what is known outside of the loops at depth d and deeper: their counters and
        loop-carried values mean something else to another loop at the same depth"""
        f = Facts()
        f.ges = [p for p in self.ges if not bound(p) >> d]
        f.eqs = [p for p in self.eqs if not bound(p) >> d]
        f.nes = [p for p in self.nes if not bound(p) >> d]
        f.lits = {a: v for a, v in self.lits.items() if not bound(a) >> d}
        f.prem = [p for p in self.prem if not bound(p) >> d]
        return f

    def add_ge(self, p):
        if pisconst(p):
            return
        self.ges.append(p)
        self._memo = {}

    def add_eq(self, p):
        if pisconst(p):
            return
        self.eqs.append(p)
        self._memo = {}

    def add_lit(self, atom, val):
        if atom.op == "ge":
            p, c = atom.args
            if val:
                self.add_ge(padd(p, pconst(-c)))
            else:
                self.add_ge(psub(pconst(c - 1), p))
        elif atom.op == "eq":
            p, c = atom.args
            if val:
                self.add_eq(padd(p, pconst(-c)))
            else:
                self.nes.append(padd(p, pconst(-c)))
                self._memo = {}
        else:
            self.lits[atom] = val
            self._memo = {}

    def add_dd(self, d):
        """add the literals implied by a conjunction-shaped DD"""
        while d.var is not None:
            if d.lo is FALSE:
                self.add_lit(d.var, True)
                d = d.hi
            elif d.hi is FALSE:
                self.add_lit(d.var, False)
                d = d.lo
            else:
                # disjunction: implied literals, and the rest as a premise
                if len(d.sup) <= 60:
                    for a in d.sup:
                        if a not in d.sup:
                            continue
                        for v in (True, False):
                            if restrict(d, a, not v) is FALSE:
                                self.add_lit(a, v)
                self.prem.append(d)
                break

    def _relevant(self, extra):
        """facts connected to the query through shared monomials (sound to drop others
        only for proving, and unconnected facts cannot help)"""
        seen = set()
        for p in extra:
            for m, c in p.args:
                if m != ():
                    seen.add(m)
        ges = list(self.ges)
        eqs = list(self.eqs)
        changed = True
        ug, ue = [], []
        while changed:
            changed = False
            for src, dst in ((ges, ug), (eqs, ue)):
                for p in list(src):
                    ms = [m for m, c in p.args if m != ()]
                    if any(m in seen for m in ms):
                        dst.append(p)
                        src.remove(p)
                        for m in ms:
                            if m not in seen:
                                seen.add(m)
                        changed = True
        for m in seen:
            for t in m:
                if t.op == "kexit":
                    ug.append(patom(t))
                    if t.args[2]:
                        ug.append(psub(t.args[1], patom(t)))
                elif t.op == "max0":
                    ug.append(patom(t))
                    ug.append(psub(patom(t), t.args[0]))
                elif t.op == "call" and t.args[0] in NONNEG:
                    ug.append(patom(t))
                elif t.op == "call" and t.args[0] == "sscanf" and conversions(t) is not None:
                    ug += [padd(patom(t), pconst(1)), psub(pconst(conversions(t)), patom(t))]
                elif t.op == "sdivp" and self._nowneg(t):
                    rem = psub(t.args[0], pmul(t.args[1], patom(t)))
                    ug += [patom(t), rem, psub(padd(t.args[1], pconst(-1)), rem)]
        return ug, ue

    def _nowneg(self, t):
        """is t the quotient of something that is not negative by something positive?"""
        if self.__dict__.get("_dividing"):
            return False
        self._dividing = True
        saved, self._memo = self._memo, {}
        try:
            return self.entails_ge(t.args[0]) and self.entails_ge(padd(t.args[1], pconst(-1)))
        finally:
            self._dividing = False
            self._memo = saved

    def entails_ge(self, p):
        """p >= 0 ?"""
        if pisconst(p):
            return pval(p) >= 0
        key = ("g", p)
        r = self._memo.get(key)
        if r is None:
            neg = psub(pconst(-1), p)
            g, e = self._relevant([neg])
            r = not feasible(g + [neg], e)
            if not r:
                # try ne facts: p == -1 boundary excluded
                for q in self.nes:
                    for s in (q, pscale(q, -1)):
                        if padd(p, pconst(1)) == s:
                            # p+1 != 0 : p >= -1 entails p >= 0
                            neg2 = psub(pconst(-2), p)
                            g, e = self._relevant([neg2])
                            if not feasible(g + [neg2], e):
                                r = True
            self._memo[key] = r
        return r

    def entails_eq(self, p):
        return self.entails_ge(p) and self.entails_ge(pscale(p, -1))

    def entails_ne(self, p):
        if pisconst(p):
            return pval(p) != 0
        key = ("n", p)
        r = self._memo.get(key)
        if r is None:
            r = False
            for q in self.nes:
                if q is p or pscale(q, -1) is p:
                    r = True
            if not r:
                g, e = self._relevant([p])
                r = not feasible(g, e + [p])
            self._memo[key] = r
        return r

    def consistent(self):
        return feasible(self.ges, self.eqs)

    def atom(self, a):
        """True / False / None for a boolean atom under the facts"""
        if a in self.lits:
            return self.lits[a]
        if a.op == "ge":
            p = padd(a.args[0], pconst(-a.args[1]))
            if self.entails_ge(p):
                return True
            if self.entails_ge(psub(pconst(-1), p)):
                return False
            return None
        if a.op == "eq":
            p = padd(a.args[0], pconst(-a.args[1]))
            if self.entails_ne(p):
                return False
            if self.entails_eq(p):
                return True
            return None
        for l, v in self.lits.items():
            r = implied(l, v, a)
            if r is not None:
                return r
        return None

    def simp(self, d):
        for a in sorted(d.sup, key=order):
            if a not in d.sup:
                continue
            r = self.atom(a)
            if r is not None:
                d = restrict(d, a, r)
        return d


# ------------------------------------------------ atoms from comparisons
def absterm(p):
    """an absolute value among the terms of p"""
    for m, k in p.args:
        if len(m) == 1 and m[0].op == "fn" and m[0].args[0] == "abs":
            x = m[0].args[1]
            x = x[0] if type(x) is tuple else x
            if isinstance(x, T) and x.op == "p":
                return m[0], k, x
    return None, 0, None


def atom_ge0(p, facts=None):
    """DD for p >= 0"""
    if pisconst(p):
        return TRUE if pval(p) >= 0 else FALSE
    if facts is not None:
        if facts.entails_ge(p):
            return TRUE
        if facts.entails_ge(psub(pconst(-1), p)):
            return FALSE
    t, k, x = absterm(p)
    if t is not None:
        rest = psub(p, pscale(patom(t), k))
        u, v = atom_ge0(padd(rest, pscale(x, k)), facts), atom_ge0(psub(rest, pscale(x, k)), facts)
        return OR(u, v) if k > 0 else AND(u, v)
    # k <= floor(a/m) <=> m*k <= a
    if facts is not None:
        dv = [(m[0], k) for m, k in p.args if len(m) == 1 and m[0].op == "sdiv" and isinstance(m[0].args[1], int)]
        if len(dv) == 1 and abs(dv[0][1]) == 1:
            t, s = dv[0]
            a, m = t.args
            rest = psub(p, pscale(patom(t), s))
            low = pscale(rest, -1) if s > 0 else padd(rest, pconst(1))      # t >= low, or not
            if m > 0 and (facts.entails_ge(a) or facts.entails_ge(padd(low, pconst(-1)))):
                r = atom_ge0(psub(a, pscale(low, m)), facts)
                return r if s > 0 else NOT(r)
    q, g, c = _normlin(p)
    if g > 0:      # g*q + c >= 0 <=> q >= ceil(-c/g)
        return lit(mk("ge", q, -(c // g)))
    # -|g| q + c >= 0 <=> q <= floor(c/|g|) <=> not (q >= floor+1)
    return NOT(lit(mk("ge", q, c // (-g) + 1)))


STRID = {}


def _lit(t):
    """the text of a string literal argument"""
    if isinstance(t, T) and t.op == "p" and len(t.args) == 1 and len(t.args[0][0]) == 1 and t.args[0][1] == 1:
        b = t.args[0][0][0]
        if b.op == "str" and isinstance(b.args[0], (bytes, str)):
            return b.args[0]
    return None


def textcmp(p):
    """a comparison of text with a literal is an equation over the text, so that
    comparisons of one text with different literals exclude each other"""
    if p.op == "p" and len(p.args) == 1 and len(p.args[0][0]) == 1 and abs(p.args[0][1]) == 1:
        t = p.args[0][0][0]
        if t.op == "call" and t.args[0] in ("strcmp", "strcasecmp") and len(t.args[1]) == 2:
            a, b = t.args[1]
            la, lb = _lit(a), _lit(b)
            if (la is None) != (lb is None):
                s, x = (lb, a) if la is None else (la, b)
                s = s.lower() if t.args[0] == "strcasecmp" else s
                return psub(patom(mk("text", t.args[0], x, t.args[2])), pconst(STRID.setdefault(s, 1000 + len(STRID))))
    return p


def atom_eq0(p, facts=None):
    p = textcmp(p)
    if pisconst(p):
        return TRUE if pval(p) == 0 else FALSE
    if facts is not None:
        if facts.entails_ne(p):
            return FALSE
        if facts.entails_eq(p):
            return TRUE
    q, g, c = _normlin(p)
    if c % abs(g):
        return FALSE
    c0 = -c // g
    # one-sided bounds turn equality into an inequality
    if facts is not None:
        e = padd(q, pconst(-c0))
        if facts.entails_ge(e):
            return NOT(lit(mk("ge", q, c0 + 1)))
        if facts.entails_ge(pscale(e, -1)):
            return lit(mk("ge", q, c0))
    return lit(mk("eq", q, c0))


from .terms import _normlin  # noqa: E402
