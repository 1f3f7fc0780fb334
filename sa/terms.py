"""Hash-consed terms, integer polynomials and guarded (decision-diagram) values.

A value of the analysed program is a DD: an ordered, reduced decision diagram
over boolean atoms whose leaves are terms.  All of it is built by value
numbering over the SSA form; nothing is executed.
"""
import struct
from math import gcd

# ----------------------------------------------------------------- terms
_tab = {}


class T:
    __slots__ = ("op", "args", "uid", "isptr", "_atoms")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.uid < o.uid


def mk(op, *args):
    key = (op,) + args
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.uid = len(_tab)
        t.isptr = False
        t._atoms = None
        _tab[key] = t
    return t


# ------------------------------------------------------- integer polynomials
# poly term: op 'p', args = tuple of (mono, coef), mono = tuple of atoms (T) sorted by uid
def _mkpoly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    items.sort(key=lambda mc: tuple(a.uid for a in mc[0]))
    return mk("p", *items)


def pconst(c):
    return _mkpoly({(): c})


ZERO = pconst(0)
ONE = pconst(1)


def patom(t):
    if t.op == "p":
        return t
    return _mkpoly({(t,): 1})


def pdict(p):
    return dict(p.args)


def padd(a, b, k=1):
    d = dict(a.args)
    for m, c in b.args:
        d[m] = d.get(m, 0) + k * c
    return _mkpoly(d)


def psub(a, b):
    return padd(a, b, -1)


def pscale(a, k):
    return _mkpoly({m: c * k for m, c in a.args})


def pmul(a, b):
    d = {}
    for m, c in a.args:
        for n, e in b.args:
            mn = tuple(sorted(m + n, key=lambda t: t.uid))
            d[mn] = d.get(mn, 0) + c * e
    return _mkpoly(d)


def pisconst(p):
    return p.op == "p" and (len(p.args) == 0 or (len(p.args) == 1 and p.args[0][0] == ()))


def pval(p):
    return p.args[0][1] if p.args else 0


def pc0(p):
    """constant part"""
    for m, c in p.args:
        if m == ():
            return c
    return 0


def psingle(p):
    """atom if p is exactly one atom with coefficient 1"""
    if p.op == "p" and len(p.args) == 1 and p.args[0][1] == 1 and len(p.args[0][0]) == 1:
        return p.args[0][0][0]
    return None


def patoms(p):
    s = []
    for m, c in p.args:
        for a in m:
            if a not in s:
                s.append(a)
    return s


def pptr(p):
    """split an address into (pointer atom, byte offset poly); None if not exactly one"""
    base = None
    rest = {}
    for m, c in p.args:
        if len(m) == 1 and m[0].isptr:
            if base is not None or c != 1:
                return None, p
            base = m[0]
        else:
            rest[m] = c
    return base, _mkpoly(rest)


# ----------------------------------------------------------------- floats
# Real algebra: two sums/products/quotients over the same atoms that are equal as
# rational functions are one term.  Equality is decided on their images in the
# field of integers modulo a 127-bit prime (atoms map to fixed field elements).
PRIME = (1 << 127) - 1
_fp = {}
_fatoms = {}
_frep = {}
ALLCACHES = [_fp, _fatoms, _frep]
FOPS = ("fadd", "fmul", "fdiv", "fneg", "f", "i2f")


def _h(n):
    import hashlib
    return int.from_bytes(hashlib.blake2b(b"%d" % n, digest_size=16).digest(), "big") % PRIME


def _pfp(p):
    r = 0
    for m, c in p.args:
        t = c
        for a in m:
            t = t * fingerprint(a) % PRIME
        r += t
    return r % PRIME


def fingerprint(t):
    r = _fp.get(t)
    if r is not None:
        return r
    o = t.op
    a = t.args
    r = None
    if o == "f":
        v = fval(t)
        if v == v and abs(v) != float("inf"):
            n, d = v.as_integer_ratio()
            r = n * pow(d, -1, PRIME) % PRIME
    elif o == "fadd":
        r = (fingerprint(a[0]) + fingerprint(a[1])) % PRIME
    elif o == "fmul":
        r = fingerprint(a[0]) * fingerprint(a[1]) % PRIME
    elif o == "fneg":
        r = -fingerprint(a[0]) % PRIME
    elif o == "fdiv":
        d = fingerprint(a[1])
        if d:
            r = fingerprint(a[0]) * pow(d, -1, PRIME) % PRIME
    elif o == "i2f":
        r = _pfp(a[0])
    if r is None:
        r = _h(t.uid)
    _fp[t] = r
    return r


def fatoms(t):
    r = _fatoms.get(t)
    if r is None:
        if t.op in ("fadd", "fmul", "fdiv"):
            r = fatoms(t.args[0]) | fatoms(t.args[1])
        elif t.op == "fneg":
            r = fatoms(t.args[0])
        elif t.op == "f":
            r = frozenset()
        elif t.op == "i2f":
            r = frozenset(a for m, c in t.args[0].args for a in m)
        else:
            r = frozenset([t])
        _fatoms[t] = r
    return r


def mkf(op, *args):
    t = mk(op, *args)
    if op == "fdiv" and fingerprint(args[1]) == 0:
        return t
    k = (fingerprint(t), fatoms(t))
    r = _frep.get(k)
    if r is None:
        n = (-k[0] % PRIME, k[1])
        r = _frep.get(n)
        if r is not None and r.op != "fneg":
            r = mk("fneg", r)
        else:
            _frep[k] = r = t
    return r


def fconst(x):
    return mk("f", struct.pack(">d", x))


def isfconst(t):
    return t.op == "f"


def fval(t):
    return struct.unpack(">d", t.args[0])[0]


F0 = fconst(0.0)
F1 = fconst(1.0)
FNAN = mk("f", struct.pack(">d", float("nan")))


def fneg(a):
    if a.op == "f":
        if fval(a) != fval(a):
            return FNAN
        return fconst(-fval(a))
    if a.op == "fneg":
        return a.args[0]
    return mk("fneg", a)


def fadd(a, b):
    if a.op == "f" and b.op == "f":
        return fconst(fval(a) + fval(b))
    if a.op == "f" and fval(a) == 0.0:
        return b
    if b.op == "f" and fval(b) == 0.0:
        return a
    if b.uid < a.uid:
        a, b = b, a
    # sign canonicalisation: pull the sign of the structurally first operand out
    core = lambda t: t.args[0] if t.op == "fneg" else t
    ca, cb = core(a), core(b)
    if cb.uid < ca.uid:
        a, b = b, a
        ca, cb = cb, ca
    if a.op == "fneg":
        return fneg(mkf("fadd", *_srt(ca, fneg(b))))
    return mkf("fadd", *_srt(a, b))


def _srt(a, b):
    core = lambda t: t.args[0] if t.op == "fneg" else t
    return (a, b) if core(a).uid <= core(b).uid else (b, a)


def fmul(a, b):
    if a.op == "f" and b.op == "f":
        return fconst(fval(a) * fval(b))
    if a.op == "f" and fval(a) == 1.0:
        return b
    if b.op == "f" and fval(b) == 1.0:
        return a
    neg = False
    if a.op == "fneg":
        a = a.args[0]
        neg = not neg
    elif a.op == "f" and fval(a) < 0:
        a = fconst(-fval(a))
        neg = not neg
    if b.op == "fneg":
        b = b.args[0]
        neg = not neg
    elif b.op == "f" and fval(b) < 0:
        b = fconst(-fval(b))
        neg = not neg
    if a.op == "f" and fval(a) == 1.0:
        r = b
    elif b.op == "f" and fval(b) == 1.0:
        r = a
    else:
        r = mkf("fmul", *((a, b) if a.uid <= b.uid else (b, a)))
    return fneg(r) if neg else r


def fdiv(a, b):
    if b.op == "f":
        v = fval(b)
        if v != 0 and v == v and abs(v) != float("inf"):
            m, e = _frexp(abs(v))
            if m == 0.5:
                return fmul(a, fconst(1.0 / v))
        if a.op == "f" and v != 0:
            return fconst(fval(a) / v)
    neg = False
    if a.op == "fneg":
        a = a.args[0]
        neg = not neg
    if b.op == "fneg":
        b = b.args[0]
        neg = not neg
    r = mkf("fdiv", a, b)
    return fneg(r) if neg else r


def _frexp(v):
    import math
    return math.frexp(v)


# ------------------------------------------------------------ atoms for DDs
# boolean atoms are terms:
#   ge(p, c): p >= c ; eq(p, c): p == c   (p: normalised poly without constant)
#   flt(a,b) feq(a,b) nan(a) cls(mask,a) even(p) bool(t) leaves(..)
def _normlin(p):
    """p -> (q, g, c) with p = s*g*q + c0 ; q primitive with positive leading coeff"""
    c = pc0(p)
    d = {m: k for m, k in p.args if m != ()}
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    first = min(d.items(), key=lambda mc: tuple(a.uid for a in mc[0]))
    s = 1 if first[1] > 0 else -1
    q = _mkpoly({m: s * k // g for m, k in d.items()})
    return q, s * g, c


# ----------------------------------------------------------------- DDs
class DD:
    __slots__ = ("var", "hi", "lo", "leaf", "uid", "sup")

    def __repr__(self):
        return showdd(self)


_leafs = {}
_nodes = {}
_order = {}
_cnt = [0]


def leaf(v):
    d = _leafs.get(v)
    if d is None:
        d = DD()
        d.var = None
        d.leaf = v
        d.hi = d.lo = None
        d.uid = _cnt[0]
        _cnt[0] += 1
        d.sup = frozenset()
        _leafs[v] = d
    return d


TRUE = leaf(True)
FALSE = leaf(False)
BOT = leaf(mk("BOT"))
NOSTORE = leaf(mk("NOSTORE"))


def order(a):
    o = _order.get(a)
    if o is None:
        if a.op == "ge" or a.op == "eq":        # tests of one value are neighbours
            g = ("cmp", a.args[0])
            n = _order.get(g)
            if n is None:
                n = _order[g] = len(_order)
            o = (n, a.args[1], a.op)
        else:
            o = (len(_order), 0, "")
        _order[a] = o
    return o


_impl_cache = {}


def implied(a, val, b):
    """does literal a=val force atom b? returns True/False/None"""
    key = (a, val, b)
    r = _impl_cache.get(key, 0)
    if r == 0:
        r = _implied(a, val, b)
        _impl_cache[key] = r
    return r


def nanroot(x):
    """the value that is NaN exactly when x is"""
    while x.op == "fneg" or (x.op == "fn" and x.args[0] == "fabs"):
        x = x.args[0] if x.op == "fneg" else x.args[1]
        if type(x) is tuple:
            x = x[0]
    return x if ALIAS is None else ALIAS(x)


ALIAS = None


def _implied(a, val, b):
    ao, bo = a.op, b.op
    if ao in ("ge", "eq") and bo in ("ge", "eq"):
        pa, ca = a.args
        pb, cb = b.args
        if pa is not pb:
            return None
        if ao == "ge":
            if bo == "ge":
                if val and ca >= cb:
                    return True
                if not val and ca <= cb:
                    return False
                return None
            if val and cb < ca:
                return False
            if not val and cb >= ca:
                return False
            return None
        # a is eq
        if not val:
            return None
        if bo == "ge":
            return ca >= cb
        return False if ca != cb else True
    if ao in ("flt", "feq", "nan", "cls") and bo in ("flt", "feq", "nan", "cls"):
        if not val:
            return None
        if ao == "nan":
            x = a.args[0]
            if bo == "flt" or bo == "feq":
                return False if any(nanroot(y) is x for y in b.args) else None
            if bo == "cls" and b.args[1] is x:
                return bool(b.args[0] & 3) if (b.args[0] & 3) in (0, 3) else None
            return None
        if ao == "cls":
            m, x = a.args
            if bo == "nan" and b.args[0] is x:
                if m & 3 == 0:
                    return False
                if m & ~3 == 0:
                    return True
            if bo == "cls" and b.args[1] is x:
                if m & ~b.args[0] == 0:
                    return True
                if m & b.args[0] == 0:
                    return False
            return None
        x, y = a.args
        if bo == "nan":
            return False if b.args[0] is nanroot(x) or b.args[0] is nanroot(y) else None
        if bo == "cls":
            if b.args[1] in (x, y) and b.args[0] & ~3 == 0:
                return False
            return None
        u, v = b.args
        if ao == "flt":
            if bo == "flt":
                if u is y and v is x:
                    return False
                # constants: x < c1 => x < c2 ; not (c2 < x)
                if u is x and y.op == "f" and v.op == "f" and fval(y) <= fval(v):
                    return True
                if v is x and y.op == "f" and u.op == "f" and fval(y) <= fval(u):
                    return False
                if v is y and x.op == "f" and u.op == "f" and fval(u) <= fval(x):
                    return True
                if u is y and x.op == "f" and v.op == "f" and fval(v) <= fval(x):
                    return False
                return None
            if bo == "feq":
                if {u, v} == {x, y}:
                    return False
                for t, c in ((u, v), (v, u)):
                    if c.op == "f":
                        if t is x and y.op == "f" and fval(y) <= fval(c):
                            return False
                        if t is y and x.op == "f" and fval(c) <= fval(x):
                            return False
            return None
        if ao == "feq":
            if bo == "flt":
                if {u, v} == {x, y}:
                    return False
                for t, c in ((x, y), (y, x)):
                    if c.op == "f":
                        if u is t and v.op == "f":
                            return fval(c) < fval(v)
                        if v is t and u.op == "f":
                            return fval(u) < fval(c)
            if bo == "feq":
                for t, c in ((x, y), (y, x)):
                    if c.op == "f":
                        for s, e in ((u, v), (v, u)):
                            if s is t and e.op == "f":
                                return fval(c) == fval(e)
            return None
    return None


_mk_cache = {}


def _meets(a, x, y):
    """d such that x and y (polynomials) are equal where the tested value p is c + d"""
    if not (isinstance(x, T) and isinstance(y, T) and x.op == "p" and y.op == "p"):
        return None
    p, c = a.args
    d = psub(x, y)
    m, k = p.args[0]
    if m == ():
        m, k = p.args[1]
    f = dict(d.args).get(m, 0)
    if f == 0 or f % k:
        return None
    r = psub(d, pscale(p, f // k))
    if not pisconst(r):
        return None
    r = pval(r)                     # x - y = f/k * p + r
    f //= k
    return -r // f - c if r % f == 0 else None


def node(a, hi, lo):
    if hi is lo:
        return hi
    if a.op in ("ge", "eq") and hi.var is None and lo.var is None:
        # the two sides agree at the boundary: one spelling of minimum, maximum, clamping
        k = _meets(a, hi.leaf, lo.leaf)
        if k == 0 and a.op == "eq":
            return lo
        if k == -1 and a.op == "ge":
            a = mk("ge", a.args[0], a.args[1] - 1)
    key = (a, hi.uid, lo.uid)
    d = _mk_cache.get(key)
    if d is not None:
        return d
    for b in hi.sup:
        r = implied(a, True, b)
        if r is not None:
            hi = restrict(hi, b, r)
    for b in lo.sup:
        r = implied(a, False, b)
        if r is not None:
            lo = restrict(lo, b, r)
    if hi is lo:
        _mk_cache[key] = hi
        return hi
    # one side already says what the other does where the test goes the other way
    w = lo
    for b in lo.sup:
        r = implied(a, True, b)
        if r is not None:
            w = restrict(w, b, r)
    if w is hi:
        _mk_cache[key] = lo
        return lo
    w = hi
    for b in hi.sup:
        r = implied(a, False, b)
        if r is not None:
            w = restrict(w, b, r)
    if w is lo:
        _mk_cache[key] = hi
        return hi
    k2 = (a, hi.uid, lo.uid)
    d = _nodes.get(k2)
    if d is None:
        d = DD()
        d.var = a
        d.hi = hi
        d.lo = lo
        d.leaf = None
        d.uid = _cnt[0]
        _cnt[0] += 1
        d.sup = hi.sup | lo.sup | {a}
        _nodes[k2] = d
        if len(_nodes) > LIMIT[0]:
            raise TooBig("decision diagram table too large")
    _mk_cache[key] = d
    return d


class TooBig(Exception):
    pass


LIMIT = [400000]


_base = {}


def reset():
    """drop all tables (between independent analyses)"""
    if not _base:
        _base.update(_tab)
    _tab.clear()
    _tab.update(_base)
    for t in _tab.values():
        t._atoms = None
    for t in ALLCACHES:
        t.clear()
    for t in (_leafs, _nodes, _order, _impl_cache, _mk_cache, _restr, _ite, _con):
        t.clear()
    for d in (TRUE, FALSE, BOT, NOSTORE):
        _leafs[d.leaf] = d


_restr = {}


def restrict(d, a, val):
    if a not in d.sup:
        return d
    key = (d.uid, a, val)
    r = _restr.get(key)
    if r is None:
        if d.var is a:
            r = d.hi if val else d.lo
        else:
            r = node(d.var, restrict(d.hi, a, val), restrict(d.lo, a, val))
        _restr[key] = r
    return r


def _top(ds):
    best = None
    for d in ds:
        if d.var is not None:
            if best is None or order(d.var) < order(best):
                best = d.var
    return best


def _cof(d, v, val):
    if d.var is v:
        return d.hi if val else d.lo
    return d


_ite = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    key = (c.uid, a.uid, b.uid)
    r = _ite.get(key)
    if r is None:
        v = _top((c, a, b))
        h = ite(_cof(c, v, True), _ass(_cof(a, v, True), v, True), _ass(_cof(b, v, True), v, True))
        l = ite(_cof(c, v, False), _ass(_cof(a, v, False), v, False), _ass(_cof(b, v, False), v, False))
        r = node(v, h, l)
        _ite[key] = r
    return r


def _ass(d, a, val):
    """restrict atoms of d implied by the literal (keeps diagrams small)"""
    for b in d.sup:
        r = implied(a, val, b)
        if r is not None:
            d = restrict(d, b, r)
    return d


def AND(a, b):
    return ite(a, b, FALSE)


def OR(a, b):
    return ite(a, TRUE, b)


def NOT(a):
    return ite(a, FALSE, TRUE)


def lit(atom):
    return node(atom, TRUE, FALSE)


def apply(fn, *ds):
    """pointwise n-ary operation on leaves; fn(leaf values) -> DD or leaf value"""
    memo = {}

    def rec(ds):
        key = tuple(d.uid for d in ds)
        r = memo.get(key)
        if r is not None:
            return r
        v = _top(ds)
        if v is None:
            if any(d is BOT for d in ds):
                r = BOT
            else:
                r = fn(*[d.leaf for d in ds])
                if not isinstance(r, DD):
                    r = leaf(r)
        else:
            h = rec(tuple(_cof(d, v, True) for d in ds))
            l = rec(tuple(_cof(d, v, False) for d in ds))
            r = ite(lit(v), h, l)   # fn may introduce new atoms: keep ordered
        memo[key] = r
        return r
    return rec(ds)


_con = {}


def constrain(f, c):
    """generalised cofactor: agrees with f on c, don't-care elsewhere"""
    if c is TRUE or f.var is None and f is not BOT:
        return f
    if c is FALSE:
        return f
    key = (f.uid, c.uid)
    r = _con.get(key)
    if r is None:
        v = _top((f, c))
        if v is None:
            r = f
        else:
            ch, cl = _cof(c, v, True), _cof(c, v, False)
            fh, fl = _cof(f, v, True), _cof(f, v, False)
            if ch is FALSE:
                r = constrain(fl, cl)
            elif cl is FALSE:
                r = constrain(fh, ch)
            else:
                r = node(v, constrain(fh, ch), constrain(fl, cl))
        _con[key] = r
    return r


def leaves(d):
    seen = set()
    out = []
    st = [d]
    while st:
        x = st.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        if x.var is None:
            out.append(x.leaf)
        else:
            st.append(x.hi)
            st.append(x.lo)
    return out


def cubes(d, want=lambda l: True, limit=20000):
    """enumerate (literals, leaf)"""
    out = []

    def rec(x, lits):
        if len(out) > limit:
            raise TooBig("too many cubes")
        if x.var is None:
            if want(x.leaf):
                out.append((list(lits), x.leaf))
            return
        lits.append((x.var, True))
        rec(x.hi, lits)
        lits[-1] = (x.var, False)
        rec(x.lo, lits)
        lits.pop()
    rec(d, [])
    return out


def cond_of(d, pred):
    """BDD of the condition under which the leaf satisfies pred"""
    return apply(lambda l: bool(pred(l)), ite(TRUE, d, d)) if BOT not in (d,) else FALSE


def subterms(x, seen=None):
    """all terms reachable from a term / DD / nested tuples"""
    if seen is None:
        seen = {}
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, (T, DD)):
            if id(y) in seen:
                continue
            seen[id(y)] = y
            if isinstance(y, T):
                st.extend(y.args)
            else:
                if y.var is None:
                    st.append(y.leaf)
                else:
                    st.append(y.var)
                    st.append(y.hi)
                    st.append(y.lo)
        elif isinstance(y, (tuple, list, frozenset)):
            st.extend(y)
    return seen.values()


# ----------------------------------------------------------------- printing
def show(t, depth=6):
    if isinstance(t, DD):
        return showdd(t, depth)
    if isinstance(t, (tuple, list)):
        return "(" + ", ".join(show(x, depth) for x in t) + ")"
    if isinstance(t, frozenset):
        return "{" + ", ".join(show(x, depth) for x in t) + "}"
    if isinstance(t, bytes):
        return repr(t)
    if not isinstance(t, T):
        return str(t)
    if depth <= 0:
        return "…"
    o = t.op
    d = depth - 1
    if o == "p":
        if not t.args:
            return "0"
        parts = []
        for m, c in t.args:
            s = "*".join(show(a, d) for a in m)
            if s == "":
                parts.append(str(c))
            elif c == 1:
                parts.append(s)
            elif c == -1:
                parts.append("-" + s)
            else:
                parts.append("%d*%s" % (c, s))
        r = parts[0]
        for x in parts[1:]:
            r += x if x.startswith("-") else "+" + x
        return r if len(parts) == 1 else "(" + r + ")"
    if o == "f":
        return repr(fval(t))
    if o == "ge":
        return "%s>=%d" % (show(t.args[0], d), t.args[1])
    if o == "eq":
        return "%s==%d" % (show(t.args[0], d), t.args[1])
    if o in ("fadd", "fmul", "fdiv", "flt", "feq"):
        return "(%s %s %s)" % (show(t.args[0], d), {"fadd": "+", "fmul": "*", "fdiv": "/", "flt": "<", "feq": "=="}[o], show(t.args[1], d))
    if o == "fneg":
        return "-" + show(t.args[0], d)
    if o == "k":
        return "k%d" % t.args[0]
    if o == "param":
        return "arg%d" % t.args[0]
    if o == "ld":
        return "[%s]%s" % (show(t.args[1], d), "" if t.args[0].op == "init" else "@" + show(t.args[0], 1))
    if o == "init":
        return "init"
    return "%s(%s)" % (o, ", ".join(show(a, d) for a in t.args))


def showdd(d, depth=6):
    if d.var is None:
        return show(d.leaf, depth)
    if depth <= 0:
        return "…"
    if d.hi is TRUE and d.lo is FALSE:
        return show(d.var, depth - 1)
    if d.hi is FALSE and d.lo is TRUE:
        return "!" + show(d.var, depth - 1)
    if d.lo is FALSE:
        return "%s & %s" % (show(d.var, depth - 1), showdd(d.hi, depth - 1))
    return "{%s ? %s : %s}" % (show(d.var, depth - 1), showdd(d.hi, depth - 1), showdd(d.lo, depth - 1))
