"""Decide a property: congruence of the code with its reference rules, plus
source-level rules, over the current tree.  Reports constructs, writes evidence."""
import json
import os
import re
import sys
import time
from . import exits, ir
from . import terms
from . import evalf
from .terms import *
from .lin import *
from .evalf import *
from . import cmpf
from .cmpf import Cmp

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
sys.setrecursionlimit(200000)


class Finding:
    def __init__(self, where, what, detail=""):
        self.where = where        # file:line (function)
        self.what = what
        self.detail = detail

    def key(self):
        return self.what

    def text(self):
        return "%s: %s%s" % (self.where, self.what, ("\n      " + self.detail) if self.detail else "")


class NoAnswer(Exception):
    pass


_mods = {}


# spellings of a loop that the plain form keeps apart: an exit flag tested by the loop
# condition is the same as leaving the loop where the flag is set
VARIANTS = [None, "threaded"]
_variant = [None]


def module(spec, others, keep):
    key = (spec, tuple(others), frozenset(keep), _variant[0])
    if key not in _mods:
        srcs = ([os.path.join(SPEC, spec)] if spec else []) + [o if o.startswith("/") else os.path.join(ir.SRC, o) for o in others]
        _mods[key] = ir.build(srcs, keep=set(keep), passes=ir.PASSES[_variant[0]])
        if _variant[0] == "threaded":
            for f in _mods[key].fns.values():
                exits.transform(f)
    return _mods[key]


def quits(ev, split=False):
    """domain -> condition of leaving through the error exit"""
    d = {}
    for e in ev.events:
        if e.kind != "quit":
            continue
        if isinstance(e.val, bytes) and e.val.startswith(b"@given"):
            continue
        if isinstance(e.val, str) and e.val.startswith("@given"):
            continue
        g = e.guard
        doms = []
        for (dp, cont, pc, cl) in e.doms:
            if split:
                doms.append((dp, (pc, cont)))
            else:
                g = AND(g, pc)
                doms.append((dp, cont))
        k = tuple(doms)
        d.setdefault(k, [FALSE, []])
        d[k][0] = OR(d[k][0], g)
        d[k][1].append(e)
    return d


def short(x, n=420):
    s = show(x, 9) if not isinstance(x, str) else x
    return s if len(s) <= n else s[:n] + " ..."


def why(c):
    out = []
    for w in c.whystack[:2]:
        out.append("%s: code has  %s   rule has  %s" % (w[0], short(w[1]), short(w[2])))
    return "\n      ".join(out)


def temp_origins(e):
    """objects released inside the function: their contents are not observable"""
    s = set()
    for ev in e.events:
        if ev.kind == "call" and ev.callee in ("free", "gu_free2d") and ev.args:
            for l in leaves(ev.args[0]):
                if isinstance(l, T) and l.op == "p":
                    b, _ = pptr(l)
                    if b is not None and b.op == "alloc":
                        s.add(b)
    return s


def hidden(reg, temps):
    """regions nobody outside can see"""
    while isinstance(reg, tuple) and len(reg) >= 2:
        if reg[0] == "A":
            return True
        if reg[0] == "N" and len(reg) == 2 and reg[1] in temps:
            return True
        reg = reg[1]
    return False


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.findings = []
        self.samples = []
        self.obl = 0
        self.programs = 0
        self.functions = set()
        self.lines = set()
        self.stats = {}
        self.notes = []
        self.pairs = []
        self.insts = 0
        self.units = set()

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n


def describe(e, reg):
    w = []
    for ev in e.events:
        if ev.kind in ("store", "clob", "out") and ev.region == reg:
            s = "%s:%s" % (ev.file, ev.line)
            if s not in w and ev.line and not str(ev.file).endswith("_spec.c"):
                w.append(s)
    return w


def name_region(r):
    if r[0] == "F":
        return "%s field at offset %s" % (r[1], r[2])
    if r[0] == "W":
        return {"out": "the output stream", "in": "the input stream"}.get(r[1], "calls of " + str(r[1]))
    n = []
    x = r
    while isinstance(x, tuple) and x:
        if x[0] == "F":
            n.append("%s+%s" % (x[1], x[2]))
            break
        if x[0] in ("P", "G", "A", "N"):
            n.append(x[0] + ":" + str(x[1])[:60])
            break
        x = x[1] if len(x) > 1 else None
    return "%s data reached from %s" % (r[2] if len(r) > 2 else "", n[0] if n else "?")


def compare(rep, spec, name, others=(), keep=(), **kw):
    """code_<name> against rule_<name>.  Both are brought into one form of loops and compared;
    if that does not establish the rule, another form is tried: each keeps the meaning of
    both sides, so one success is enough."""
    state = (len(rep.findings), rep.obl, len(rep.samples), rep.insts, rep.programs, len(rep.pairs))
    first = None
    for v in VARIANTS:
        _variant[0] = v
        try:
            best = compare2(rep, spec, name, others, keep, **kw)
        except (ir.BuildError, NoAnswer):
            if v is None:
                raise
            best = None
        finally:
            _variant[0] = None
        if v is None:
            first = rep.findings[state[0]:]
        if best == []:
            return
        keepobl = rep.obl if v is None else keepobl
        del rep.findings[state[0]:], rep.samples[state[2]:], rep.pairs[state[5]:]
        rep.obl, rep.insts, rep.programs = state[1], state[3], state[4]
    rep.findings.extend(first)
    rep.obl = keepobl
    rep.programs += 1
    rep.pairs.append("%s (%s)" % (name, spec))


def compare2(rep, spec, name, others=(), keep=(), **kw):
    """one comparison; what cannot be followed is not established"""
    k = len(rep.findings)
    try:
        return compare1(rep, spec, name, others, keep, **kw)
    except (ir.BuildError, NoAnswer):
        raise
    except Exception as e:
        if os.environ.get("SA_TRACE"):
            raise
        M = module(spec, others, keep)
        n, _, cname = name.partition("=")
        fn = M.fns.get(cname or "code_" + n)
        at = sorted({(ir.filename(M, i.scope), i.line) for b in fn.blocks.values() for i in b.insts if i.line and ir.filename(M, i.scope)}) if fn else []
        at = [x for x in at if not x[0].endswith("_spec.c")]
        del rep.findings[k:]
        rep.obl += 1
        rep.findings.append(Finding("%s:%s-%s" % (at[0][0], at[0][1], at[-1][1]) if at else "(%s)" % name, "%s: not established, the code does something the rule has no counterpart for (%s: %s)" % (n, type(e).__name__, str(e)[:300]), ""))


def compare1(rep, spec, name, others=(), keep=(), models=None, limit=400000, mem=True, ret=True, q=True, skip=(), nanpair=None, flags=None, heap=True):
    """code_<name> against rule_<name>[, rule_<name>__<alt>...]"""
    M = module(spec, others, keep)
    name, _, cname = name.partition("=")
    cname = cname or "code_" + name
    alts = sorted(f for f in M.fns if f == "rule_" + name or f.startswith("rule_" + name + "__"))
    own = cname == "code_" + name
    if alts and cname not in M.fns and not cname.startswith("code_"):
        raise Unsupported("there is no recursive function %s" % cname)
    if cname not in M.fns or not alts:
        raise NoAnswer("anchor code_%s/rule_%s missing" % (name, name))
    best = None
    n0 = rep.obl
    err = bool((flags or {}).get("stderr"))
    for a in alts:
        terms.reset()
        evalf.NANPAIR.clear()
        evalf.NANPAIR.update(nanpair or {})
        terms.LIMIT[0] = limit
        cmpf.WORK[0] = 0
        evalf.MALLOCOK[0] = bool((flags or {}).get("mallocok"))
        if own:
            A = Eval(M, cname, models=models, flags=flags, keepstderr=err).run()
            B = Eval(M, a, models=models, flags=flags, keepstderr=err).run()
        else:
            # compared without a wrapper: the rule's premises are taken over
            B = Eval(M, a, models=models, flags=flags, keepstderr=err).run()
            f = Facts()
            for g in B.givens:
                f.add_dd(g)
            A = Eval(M, cname, models=models, flags=flags, facts=f, keepstderr=err).run()
        if not A.rets and B.rets:
            raise Unsupported("%s never returns" % cname)
        if not A.rets or not B.rets:
            raise NoAnswer("%s never returns" % name)
        rep.obl = n0
        fs = compare_evals(rep, name, A, B, mem, ret, q, skip, heap)
        if best is None or len(fs) < len(best):
            best = fs
        if not fs:
            break
    n = sum(len(b.insts) for b in M.fns[cname].blocks.values())
    rep.insts += n
    rep.programs += 1
    rep.pairs.append("%s (%s, %d instructions)" % (name, spec, n))
    rep.units.add(spec)
    for b in M.fns[cname].blocks.values():
        for i in b.insts:
            f = ir.filename(M, i.scope)
            if f and not f.endswith("_spec.c") and i.line:
                rep.lines.add((f, i.line))
    if n == 0 or rep.obl == n0:
        raise NoAnswer("no obligations for " + name)
    rep.findings.extend(best)
    return best


def compare_evals(rep, name, A, B, mem, ret, q, skip, heap=True):
    fs = []
    F = Facts()

    def obligation(where, what, c, ok, lines):
        rep.obl += 1
        if not ok:
            w = lines[0] if lines else "(function reached from %s)" % name
            fs.append(Finding(w + (" [%d places]" % len(lines) if len(lines) > 1 else ""), "%s: %s" % (name, what), why(c)))
        elif len(rep.samples) < 12:
            rep.samples.append("%s: %s congruent (%d updates, e.g. %s)" % (name, what, len(lines), lines[0] if lines else "-"))
    F = A.top.facts.copy() if A.top else F
    for g in B.givens:
        F.add_dd(g)
    if ret:
        c = Cmp(F)
        ra, rb = A.retval, B.retval
        ok = c.ddeq(ra, rb)
        obligation(name, "returned value", c, ok, retlines(A))
    if mem:
        ta, tb = temps(A), temps(B)
        regs = {}
        for e, ts in ((A, ta), (B, tb)):
            for r in e.mem:
                if hidden(r, ts):
                    continue
                regs.setdefault(canonreg(r), [None, None])
        for r in A.mem:
            if canonreg(r) in regs:
                regs[canonreg(r)][0] = r
        for r in B.mem:
            if canonreg(r) in regs:
                regs[canonreg(r)][1] = r
        for cr in sorted(regs, key=str):
            if any(s(cr) if callable(s) else s == cr for s in skip):
                continue
            ra, rb = regs[cr]
            va = A.getmem(A.mem, ra if ra is not None else rb)
            vb = B.getmem(B.mem, rb if rb is not None else ra)
            c = Cmp(F)
            va, vb = dropdead(va, ta, {}), dropdead(vb, tb, {})
            ok = c.ddeq(va, vb)
            obligation(name, name_region(cr), c, ok, describe(A, ra if ra is not None else rb))
    if heap:
        for what, c, ok, lines in heapcmp(A, B, F):
            obligation(name, what, c, ok, lines)
    if q:
        # under the premises alone: what is known behind an exit must not judge the exit
        FQ = Facts()
        for p in A.entry.ges:
            FQ.add_ge(p)
        for p in A.entry.prem:
            FQ.add_dd(p)
        for p in list(A.givens) + list(B.givens):
            FQ.add_dd(p)
        first = quitcmp(rep, name, A, B, FQ, True)
        if first is None:
            first = quitcmp(rep, name, A, B, FQ, False)
        for where, what, c, ok, lines in first:
            obligation(where, what, c, ok, lines)
    return fs


HEAP = ("free", "gu_free2d", "realloc", "realloc with the result dropped")


def releases(ev, e):
    return e.callee in HEAP or e.callee in ev.models and ev.models[e.callee].release


def dead(ev, t, l, deep, n=0):
    """does t point into the released object l (or, for an object of the library, into what belongs to it)?"""
    if not isinstance(t, T) or n > 6:
        return False
    b, _ = pptr(t) if t.op == "p" else (t, None)
    if b is None:
        return False
    if b is l:
        return True
    if b.op == "alloc" and b.args[0] in ev.models and ev.models[b.args[0]].keeps:
        for x in b.args[1]:
            a = x.args[3] if isinstance(x, T) and x.op == "io" else x.args[1] if isinstance(x, T) and x.op == "call" else ()
            if any(i < len(a) and dead(ev, a[i], l, True, n + 1) for i in ev.models[b.args[0]].keeps):
                return True
    if not deep:
        return False
    if b.op == "ld":
        return dead(ev, b.args[1], l, deep, n + 1)
    if b.op == "call":
        return any(dead(ev, x, l, deep, n + 1) for x in b.args[1] if isinstance(x, T))
    return False


def lateuses(ev):
    """(release, later use) pairs of one object on one path"""
    out, n = [], 0
    evs = ev.events
    for i, e in enumerate(evs):
        if e.kind != "call" or not releases(ev, e) or not e.args:
            continue
        if e.callee.startswith("realloc"):
            continue            # the result stands for the same object
        deep = e.callee != "free"
        for l in leaves(e.args[0]):
            b = (pptr(l)[0] if l.op == "p" else l) if isinstance(l, T) and l is not ZERO else None
            if b is None:
                continue
            n += 1
            own = AND(e.guard, apply(lambda v: TRUE if v is l else FALSE, e.args[0]))
            for u in evs[i + 1:]:
                if u.kind in ("load", "store"):
                    vs = [u.addr]
                elif u.kind in ("call", "out") and not releases(ev, u):
                    vs = [a for a in u.args or () if isinstance(a, DD)]
                else:
                    continue
                for v in vs:
                    hit = [x for x in leaves(v) if isinstance(x, T) and dead(ev, x, b, deep)]
                    if not hit:
                        continue
                    g = AND(AND(own, u.guard), apply(lambda w: TRUE if any(w is h for h in hit) else FALSE, v))
                    if g is not FALSE and (u.facts is None or u.facts.simp(g) is not FALSE):
                        out.append((e, u, b, g))
    return n, out


def heapacts(ev):
    """releases and resizings of storage: (loops around, condition, callee, arguments, lines)"""
    d = {}
    for e in ev.events:
        if e.kind != "call" or not releases(ev, e) or not e.args:
            continue
        for l in leaves(e.args[0]):
            if not isinstance(l, T) or l is ZERO:
                continue
            b, _ = pptr(l) if l.op == "p" else (l, None)
            if b is not None and b.op == "alloc" and b.args[0] not in ev.models:
                continue            # storage of this call alone
            g = AND(e.guard, apply(lambda v: TRUE if v is l else FALSE, e.args[0]))
            if not e.callee.startswith("realloc"):
                g = AND(g, NOT(atom_eq0(l)) if ptreq(l, ZERO, Facts()) is None else NOT(ptreq(l, ZERO, Facts())))
            doms = tuple((dp, cont, pc) for dp, cont, pc, cl in e.doms)
            k = (doms, e.callee, l, tuple(e.args[1:]))
            x = d.setdefault(k, [FALSE, FALSE, []])
            x[1] = OR(x[1], AND(x[0], g))
            x[0] = OR(x[0], g)
            x[2].append("%s:%s" % (e.file, e.line))
    return [(k, v) for k, v in d.items() if v[0] is not FALSE]


def retains(mod, name, i, seen=()):
    """may a call of this function leave a copy of its i-th argument behind?"""
    fn = mod.fns.get(name)
    if fn is None or i >= len(fn.params):
        return True
    if (name, i) in seen:
        return False
    seen = seen + ((name, i),)
    p = fn.params[i][1]
    for b in fn.order:
        for u in fn.blocks[b].insts:
            if u.op == "store" and u.a[0] == p or u.op == "ret" and u.a and u.a[0] == p:
                return True
            if u.op in ("phi", "select") and any(x == p or isinstance(x, tuple) and x[0] == p for x in u.a):
                return True
            if u.op == "call":
                callee = u.a[0].lstrip("@")
                for n, arg in enumerate(u.a[1]):
                    if arg[1] == p and not callee.startswith("llvm.") and retains(mod, callee, n, seen):
                        return True
            elif u.op not in ("store", "ret", "phi", "select", "load", "icmp", "getelementptr", "br", "switch") and re.search(re.escape(p) + r"(?![\w.])", str(u.a)):
                return True
    return False


def temps(A):
    """objects that live only inside the call"""
    return temp_origins(A) - kept(A)


def dropdead(v, ts, memo):
    """forget writes into storage released by the call"""
    def f(x):
        if not isinstance(x, T) or x.op != "st":
            return x
        b = pptr(x.args[2])[0] if x.args[2].op == "p" else None
        w = x.args[1]
        w = apply(f, w) if isinstance(w, DD) else f(w)
        if b is not None and b in ts:
            return w
        if isinstance(w, DD):
            return apply(lambda q: mk("st", x.args[0], q, x.args[2], x.args[3]), w)
        return x if w is x.args[1] else mk("st", x.args[0], w, x.args[2], x.args[3])
    return apply(f, v) if ts else v


def kept(A):
    """allocations of this call that can still be reached when it returns: those a visible
    place or the result holds, or that an opaque function was given to keep"""
    ts = temp_origins(A)
    seen, out, later = set(), set(), {}
    st = [A.retval] if A.retval is not None else []
    st += [v for r, v in A.mem.items() if not hidden(r, ts)]
    while st:
        x = st.pop()
        if isinstance(x, (tuple, frozenset)):
            st.extend(x)
            continue
        if not isinstance(x, (T, DD)) or x in seen:
            continue
        seen.add(x)
        if isinstance(x, DD):
            st += [x.leaf] if x.var is None else [x.hi, x.lo]
        elif x.op == "alloc":
            out.add(x)
            st += later.pop(x, [])
        elif x.op == "p":
            st += [a for m, c in x.args for a in m]
        elif x.op == "st":
            b = pptr(x.args[2])[0] if x.args[2].op == "p" else None
            st.append(x.args[1])
            if b in ts and b not in out:
                later.setdefault(b, []).append(x.args[3])    # counts only if the object itself stays
            else:
                st.append(x.args[3])
        elif x.op == "ld":
            st.append(x.args[0])
        elif x.op == "init":
            continue
        elif x.op == "arr":
            st += [x.args[1]] + [v for d, a, v in x.args[4]]
        elif x.op == "io" and isinstance(x.args[2], str):
            rest = x.args[3:]
            if x.args[2] in A.M.fns and isinstance(rest[0], tuple):
                rest = [y for i, y in enumerate(rest[0]) if i >= len(A.M.fns[x.args[2]].params) or retains(A.M, x.args[2], i)]
            st += [x.args[1]] + list(rest)
        else:
            st.extend(x.args)
    return out


def leaks(A):
    """storage allocated here that is neither handed on nor released on some way to the return"""
    hold = kept(A)
    out = []
    for e in A.events:
        if e.kind != "call" or e.callee not in ALLOC or getattr(e, "res", None) is None or e.res in hold:
            continue
        doms = tuple((dp, cont, pc) for dp, cont, pc, cl in e.doms)
        rel = FALSE
        for f in A.events:
            if f.kind == "call" and f.callee in ("free", "gu_free2d") and f.args and f.args[0] is not None:
                own = FALSE
                for l in leaves(f.args[0]):
                    if isinstance(l, T) and (l is e.res or l.op == "p" and pptr(l)[0] is e.res):
                        own = OR(own, apply(lambda v: TRUE if v is l else FALSE, f.args[0]))
                if own is FALSE:
                    continue
                fd = tuple((dp, cont, pc) for dp, cont, pc, cl in f.doms)
                if len(fd) < len(doms) or fd[:len(doms)] != doms:
                    continue
                rel = OR(rel, AND(f.guard, own)) if len(fd) == len(doms) else rel
        out.append((e, doms, rel))
    return out


def heapcmp(A, B, F):
    ha, hb = heapacts(A), heapacts(B)
    used = set()
    out = []

    def same(ka, va, kb, vb):
        if ka[1] != kb[1] or len(ka[0]) != len(kb[0]) or len(ka[3]) != len(kb[3]):
            return False
        c = Cmp(F)
        for (d1, c1, p1), (d2, c2, p2) in zip(ka[0], kb[0]):
            if d1 != d2 or not c.ddeq(p1, p2):
                return False
            if p1.var is not None:
                c.pushdd(p1)
            if not c.ddeq(c1, c2):
                return False
            c.push(d1, c1)
        if not c.ddeq(va[0], vb[0]):
            return False
        if va[0].var is not None:
            c.pushdd(va[0])
        return c.ddeq(leaf(ka[2]), leaf(kb[2])) and all(c.ddeq(x, y) for x, y in zip(ka[3], kb[3]))
    for ka, va in ha:
        if not ka[0] and Cmp(F).ddeq(va[0], FALSE):
            continue                # does not happen under the premises
        hit = None
        for n, (kb, vb) in enumerate(hb):
            if n not in used and same(ka, va, kb, vb):
                hit = n
                break
        if hit is not None:
            used.add(hit)
        c = Cmp(F)
        twice = va[1] is not FALSE and not ka[1].startswith("realloc") and not ka[0] and not Cmp(F).ddeq(va[1], FALSE)
        if twice:
            out.append(("%s of %s twice" % (ka[1], short(ka[2], 200)), c, False, va[2]))
        else:
            out.append(("%s of %s" % (ka[1], short(ka[2], 200)) + ("" if hit is not None else " is not what the rule does"), c, hit is not None, va[2]))
    n, late = lateuses(A)
    for e, u, b, g in late[:3]:
        c = Cmp(F)
        ok = c.ddeq(g, FALSE)
        out.append(("%s is used after its release at %s:%s" % (short(b, 120), e.file, e.line), c, ok, ["%s:%s" % (u.file, u.line)]))
    if n and not late:
        out.append(("no use follows a release (%d released objects)" % n, Cmp(F), True, []))
    for e, doms, rel in leaks(A):
        c = Cmp(F)
        for dp, cont, pc in doms:
            if pc.var is not None:
                c.pushdd(pc)
            c.push(dp, cont)
        ok = c.ddeq(AND(e.guard, rel), e.guard)
        out.append(("storage from %s is %s" % (e.callee, "released" if ok else "not released on every way out"), c, ok, ["%s:%s" % (e.file, e.line)]))
    for n, (kb, vb) in enumerate(hb):
        if n not in used:
            out.append(("a required %s of %s is missing" % (kb[1], short(kb[2], 200)), Cmp(F), False, []))
    return out


def quitcmp(rep, name, A, B, F, split):
    """error exits of both sides, matched by loop domain; None if the split form does not match"""
    out = []
    qa, qb = quits(A, split), quits(B, split)
    used = set()

    def same(k, k2, g, g2, F):
        if len(k2) != len(k):
            return False
        c = Cmp(F)
        for (d1, c1), (d2, c2) in zip(k, k2):
            if d1 != d2:
                return False
            if split:
                if not c.ddeq(c1[0], c2[0]):
                    return False
                if c1[0].var is not None:
                    c.pushdd(c1[0])
                c1, c2 = c1[1], c2[1]
            if not c.ddeq(c1, c2):
                return False
            c.push(d1, c1)
        return c.ddeq(g, g2)
    FT = F
    for k, (g, evs) in sorted(qa.items(), key=lambda x: x[0] != ()):
        hit = None
        if k != () and FT is F and () in qa and () in used:
            F = F.copy()
            F.add_dd(NOT(qa[()][0]))
        for k2 in qb:
            if k2 not in used and same(k, k2, g, qb[k2][0], F):
                hit = k2
                break
        lines = ["%s:%s" % (e.file, e.line) for e in evs]
        if hit is None:
            if split:
                return None
            ok = Cmp(F).ddeq(g, FALSE)
            c = Cmp(F)
            if k == () and () in qb:
                c.ddeq(g, qb[()][0])
                used.add(())
            out.append((name, "error exit is taken under a condition the rule does not allow", c, ok, lines))
        else:
            used.add(hit)
            out.append((name, "error exit condition", Cmp(F), True, lines))
    for k2 in qb:
        if k2 not in used:
            if split:
                return None
            ok = Cmp(F).ddeq(qb[k2][0], FALSE)
            out.append((name, "a required error exit is missing (rule: %s)" % (qb[k2][1][0].val if qb[k2][1] else ""), Cmp(F), ok, []))
    return out


def retlines(A):
    out = []
    for b in A.fn.order:
        i = A.fn.blocks[b].insts[-1] if A.fn.blocks[b].insts else None
        if i is not None and i.op == "ret" and i.line:
            f = A.fileof(i)
            if f and not f.endswith("_spec.c"):
                out.append("%s:%s" % (f, i.line))
    return out
