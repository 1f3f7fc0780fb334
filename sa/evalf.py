"""Gated value numbering with loop summaries over LLVM IR.

Every SSA value becomes a guarded value (DD); every memory region a version
chain; every loop a closed summary (iteration domain + effects).  One pass over
the instructions per loop level and naming round: no path enumeration."""
import re
import struct
from .terms import *
from .lin import *
from .lin import _lit
from . import ir, terms


class Unsupported(Exception):
    pass


NR = 3      # naming rounds for opaque loop-carried values

PURE = {"hypot", "fabs", "sqrt", "acos", "asin", "floor", "ceil", "fmin", "fmax", "pow", "cos", "sin", "tan", "atan", "atan2", "exp", "log", "rint", "round", "abs", "fmod", "trunc", "lround", "cbrt"}
STRREAD = {"strcmp", "strcasecmp", "strncmp", "strncasecmp", "strlen", "atoi", "atof", "strstr", "strchr", "strrchr", "atol", "memcmp"}
OUTPUT = {"printf": None, "fprintf": 0, "vfprintf": 0, "puts": None, "putchar": None, "fputs": 1, "fputc": 1, "putc": 1, "fwrite": 3}
ALLOC = {"malloc", "calloc", "strdup", "gu_alloc2d"}


class Ev:
    __slots__ = ("kind", "region", "addr", "val", "guard", "doms", "line", "file", "callee", "args", "ins", "facts", "fn", "res", "ty", "blk")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    def copy(self):
        e = Ev()
        for s in self.__slots__:
            setattr(e, s, getattr(self, s))
        return e

    def where(self):
        return "%s:%s" % (self.file or "?", self.line if self.line else "?")


class Model:
    """effect summary of a project function that stays a call"""

    def __init__(self, outs=(), pure=False, world=None, alloc=False, reads=(), sets=None, sees=False, clob=False, release=False, keeps=()):
        self.outs = outs      # argument indices written through (element type)
        self.pure = pure
        self.world = world
        self.alloc = alloc
        self.reads = reads
        self.sets = sets
        self.sees = sees      # may look at anything reachable: depends on every update made so far
        self.clob = clob      # may change any array element reachable
        self.release = release  # ends the life of its argument and does nothing else
        self.keeps = keeps    # argument indices the result goes on referring to


_fv = {}
ALLCACHES.append(_fv)


def fv(x):
    """free loop depths of a term / DD"""
    if isinstance(x, DD) or isinstance(x, T):
        r = _fv.get(x)
        if r is not None:
            return r
        if isinstance(x, DD):
            if x.var is None:
                r = fv(x.leaf)
            else:
                r = fv(x.var) | fv(x.hi) | fv(x.lo)
        else:
            o = x.op
            if o == "k":
                r = frozenset([x.args[0]])
            elif o == "mu":
                r = frozenset([x.args[0]]) | fv(x.args[1]) | (fv(x.args[2]) - {x.args[0]})
            elif o == "memmu":
                r = frozenset([x.args[0]]) | fv(x.args[2]) | (fv(x.args[3]) - {x.args[0]})
            elif o == "loop":
                r = frozenset()
                for a in x.args[1:]:
                    r |= fv(a)
                r -= {x.args[0]}
            elif o in ("final", "kexit"):
                d = x.args[0].args[0]
                r = fv(x.args[0])
                for a in x.args[1:]:
                    r |= fv(a) - {d}
            elif o in ("arr", "lmem"):
                d = x.args[2]
                r = fv(x.args[1])
                for a in x.args[3:]:
                    if o == "arr" and isinstance(a, frozenset):
                        for en in a:
                            r |= fv(en) - {q[0] for q in en[0]} - {d}
                        continue
                    r |= fv(a) - {d}
            else:
                r = frozenset()
                for a in x.args:
                    r |= fv(a)
        _fv[x] = r
        return r
    if isinstance(x, (tuple, list, frozenset)):
        r = frozenset()
        for a in x:
            r |= fv(a)
        return r
    return frozenset()


EMPTY = frozenset()


class Ctx:
    def __init__(self, parent, facts):
        self.parent = parent
        self.facts = facts
        self.events = []
        self.depth = parent.depth + 1 if parent else -1
        self.header = None


class Cell:
    """a memory cell carried around a loop like a variable"""

    def __init__(self, reg, addr, ty):
        self.reg = reg
        self.addr = addr
        self.ty = ty
        self.res = ("cell", reg, addr)
        self.a = []


def boolint(x):
    return (ONE if x else ZERO) if isinstance(x, bool) else x


class Eval:
    def __init__(self, mod, fname, models=None, params=None, init=None, facts=None, keepstderr=False, flags=None):
        self.M = mod
        self.fn = mod.fns.get(fname)
        if self.fn is None:
            raise Unsupported("function %s not found" % fname)
        self.models = models or {}
        self.env = {}
        self.initload = init      # callable(region, addr poly) -> DD or None
        self.flags = flags or {}
        self.keepstderr = keepstderr
        self.givens = []
        self.alloccnt = {}
        self.allocacnt = {}
        self.acc = {}
        self.mui = {}
        self.locs = {}
        self.defblk = {}
        self.uses = {}
        self.facts0 = facts or Facts()
        self.entry = self.facts0.copy()
        for i, (t, p) in enumerate(self.fn.params):
            if params and i < len(params) and params[i] is not None:
                v = params[i]
            else:
                v = mk("param", i, "ptr" if t == "ptr" else "val")
                if t == "ptr":
                    v.isptr = True
                if t in ("double", "float"):
                    pass
                else:
                    v = patom(v)
            self.env[p] = v if isinstance(v, DD) else leaf(v)
        self.tables = ir.tables(mod, self.fn)
        self.analyse_cfg()

    # ------------------------------------------------------------- CFG
    def analyse_cfg(self):
        fn = self.fn
        entry = fn.order[0]
        # reachability to return
        live = set()
        st = [b for b in fn.order if fn.blocks[b].insts and fn.blocks[b].insts[-1].op == "ret"]
        while st:
            b = st.pop()
            if b in live:
                continue
            live.add(b)
            st.extend(fn.blocks[b].preds)
        self.live = live
        seen, post = set(), []

        def dfs(b):
            stack = [(b, iter(fn.blocks[b].succs))]
            seen.add(b)
            while stack:
                x, it = stack[-1]
                for s in it:
                    if s in live and s not in seen:
                        seen.add(s)
                        stack.append((s, iter(fn.blocks[s].succs)))
                        break
                else:
                    post.append(x)
                    stack.pop()
        if entry not in live:
            self.rpo = []
            self.noret = True
            return
        self.noret = False
        dfs(entry)
        rpo = post[::-1]
        self.rpo = rpo
        idx = {b: i for i, b in enumerate(rpo)}
        # dominators
        idom = {entry: entry}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                ps = [p for p in fn.blocks[b].preds if p in idom and p in idx]
                if not ps:
                    continue
                n = ps[0]
                for p in ps[1:]:
                    x, y = p, n
                    while x != y:
                        while idx[x] > idx[y]:
                            x = idom[x]
                        while idx[y] > idx[x]:
                            y = idom[y]
                    n = x
                if idom.get(b) != n:
                    idom[b] = n
                    changed = True
        self.idom = idom
        self.idx = idx

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == entry:
                    return False
                b = idom[b]
        self.dom = dom
        # natural loops
        loops = {}
        for b in rpo:
            for s in fn.blocks[b].succs:
                if s in idx and dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in fn.blocks[x].preds if p in idx)
                elif s in idx and idx[s] <= idx[b]:
                    raise Unsupported("irreducible control flow in " + fn.name)
        self.loops = loops
        self.inner = {}
        for b in rpo:
            best = None
            for h, body in loops.items():
                if b in body and (best is None or len(body) < len(loops[best])):
                    best = h
            self.inner[b] = best
        self.parent = {}
        for h, body in loops.items():
            best = None
            for h2, body2 in loops.items():
                if h2 != h and h in body2 and (best is None or len(body2) < len(loops[best])):
                    best = h2
            self.parent[h] = best
        for b in rpo:
            for ins in fn.blocks[b].insts:
                if ins.res:
                    self.defblk[ins.res] = b
                for u in re.findall(r"%[\w.]+", ins.text.split("=", 1)[1] if ins.res else ins.text):
                    if ins.op == "phi":
                        continue
                    self.uses.setdefault(u, set()).add(b)
                if ins.op == "phi":
                    for v, p in ins.a:
                        if v.startswith("%"):
                            self.uses.setdefault(v, set()).add(p)

    # ------------------------------------------------------------- values
    def val(self, s, ty=None):
        if s.startswith("%"):
            v = self.env.get(s)
            if v is None:
                raise Unsupported("use of %s before definition" % s)
            return v
        return self.const(s, ty)

    def const(self, s, ty):
        if re.match(r"-?\d+$", s):
            if ty in ("double", "float"):
                return leaf(fconst(float(s)))
            if ty == "i1":
                return TRUE if s != "0" else FALSE
            return leaf(pconst(int(s)))
        if s == "true":
            return TRUE
        if s == "false":
            return FALSE
        if s == "null":
            return leaf(ZERO)
        if s in ("undef", "poison"):
            if ty in ("double", "float"):
                return leaf(mk("undef"))
            if ty == "i1":
                return FALSE
            return leaf(patom(mk("undef")))
        if s.startswith("0x"):
            h = s[2:]
            x = struct.unpack(">d", bytes.fromhex(h.rjust(16, "0")))[0]
            return leaf(fconst(x) if x == x else FNAN)
        if re.match(r"-?[\d.]+e[+-]\d+$", s) or re.match(r"-?\d+\.\d*$", s):
            return leaf(fconst(float(s)))
        if s.startswith("@"):
            return leaf(patom(self.glob(s[1:].strip('"'))))
        m = re.match(r"getelementptr (?:inbounds )?(?:nuw )?\((.*)\)$", s)
        if m:
            parts = ir.split_top(m.group(1))
            ops = [ir.typed_operand(p) for p in parts[1:]]
            return self.gep(parts[0], ops)
        if s.startswith("<") or s.startswith("{") or s == "zeroinitializer":
            return leaf(patom(mk("cst", s)))
        raise Unsupported("constant " + s)

    def glob(self, g):
        if g in self.M.strings and self.M.globals[g][2]:
            t = mk("str", self.M.strings[g])
        elif g in self.M.globals and self.M.globals[g][2] and self.M.globals[g][1] and self.M.globals[g][1][0] in "[z":
            # a constant table is its contents
            t = mk("glob", "const %s %s" % (self.M.globals[g][0], self.M.globals[g][1]))
            self.M.__dict__.setdefault("tables", {})[t.args[0]] = self.M.globals[g]
        else:
            t = mk("glob", g)
        t.isptr = True
        return t

    def gep(self, ty, ops):
        base = self.val(ops[0][1], "ptr")
        off = leaf(ZERO)
        cur = ty
        for i, (t, o) in enumerate(ops[1:]):
            iv = self.val(o, t)
            if i == 0:
                sz = ir.sizeof(self.M, cur)
            else:
                if cur.startswith("%") or cur.startswith("{"):
                    st = self.M.structs.get(cur, cur)
                    fields = ir.split_top(st.strip("<>")[1:-1])
                    n = pval(iv.leaf)
                    foff = ir.layout(self.M, cur)[2][n]
                    off = apply(lambda a: padd(a, pconst(foff)), off)
                    cur = fields[n]
                    continue
                m = re.match(r"\[(\d+) x (.*)\]$", cur)
                cur = m.group(2)
                sz = ir.sizeof(self.M, cur)
            off = apply(lambda a, b: padd(a, b, sz), off, iv)
        return apply(padd, base, off)

    # ------------------------------------------------------------- memory
    def origin(self, t):
        o = t.op
        if o == "param":
            return ("P", t.args[0])
        if o == "alloca":
            return ("A", t)
        if o == "glob":
            return ("G", t.args[0])
        if o == "str":
            return ("STR",)
        if o == "alloc":
            return ("N", t)
        if o == "ld":
            return ("D", verregion(t.args[0]))
        if o == "mu":
            l = leaves(t.args[1])
            if len(l) == 1 and isinstance(l[0], T) and l[0].op == "p":
                b, _ = pptr(l[0])
                if b is not None:
                    return self.origin(b)
            return ("?",)
        if o == "call":
            # what a reader returns about a fresh object belongs to that object
            if len(t.args) > 1 and isinstance(t.args[1], tuple) and t.args[1] and isinstance(t.args[1][0], T) and t.args[1][0].op == "p":
                b, off = pptr(t.args[1][0])
                if b is not None and b.op == "alloc" and off is ZERO:
                    return ("C", t.args[0], (b.args[0], b.args[2], b.args[3]))
            return ("C", t.args[0])
        return ("X", t)

    def region(self, addr, tbaa, ty):
        """region key of an address leaf"""
        if tbaa and tbaa[0] == "F":
            return ("F", tbaa[1], tbaa[2])
        sc = tbaa[1] if tbaa else {"double": "double", "i32": "int", "i64": "long", "ptr": "any pointer", "i8": "omnipotent char"}.get(ty, ty)
        base, off = pptr(addr) if addr.op == "p" else (None, addr)
        if base is None:
            return ("E", ("?",), sc)
        return ("E", self.origin(base), sc)

    def canon(self, addr):
        d = {}
        ch = False
        for m, c in addr.args:
            if any(a.op == "alloca" for a in m):
                m = tuple(mk2("loc", a.args[0]) if a.op == "alloca" else a for a in m)
                ch = True
            d[m] = d.get(m, 0) + c
        return mkp(d) if ch else addr

    def getmem(self, mem, reg):
        v = mem.get(reg)
        if v is None:
            v = leaf(mk("init", canonreg(reg)))
            h = mem.get(("H", "E")) if reg[0] == "E" and reg[2:] == ("double",) else None
            if h is not None:
                # some call may have changed arrays not looked at before it
                v = apply(lambda w: mk("clob", canonreg(reg), w, v.leaf, ZERO) if isinstance(w, T) and w.op != "init" else v.leaf, h)
        return v

    def load(self, mem, addrdd, tbaa, ty, ev=None):
        def one(addr):
            reg = self.region(addr, tbaa, ty)
            ver = self.getmem(mem, reg)
            return apply(lambda v: self.ldver(v, self.canon(addr), reg, ty, addr), ver)
        return apply(one, addrdd)

    def mkload(self, v, addr, reg, ty):
        if self.initload is not None and v.op == "init":
            r = self.initload(reg, addr)
            if r is not None:
                return r
        if v.op == "init" and addr.op == "p":
            b, o = pptr(addr)
            if b is not None and b.op == "alloc" and b.args[0] == "calloc":
                return F0 if ty in ("double", "float") else FALSE if ty == "i1" else ZERO
        if addr.op == "p":
            b, o = pptr(addr)
            g = self.M.globals.get(b.args[0]) or self.M.__dict__.get("tables", {}).get(b.args[0]) if b is not None and b.op == "glob" and isinstance(b.args[0], str) else None
            if g is not None and g[2] and g[1] and pisconst(o):
                c = ir.const_at(self.M, g[0], g[1], pval(o))
                if c is not None and c[0] == ty:
                    return self.val("0x0" if ty in ("double", "float") and c[1] == "0" else c[1], ty).leaf
        t = mk("ld", v, addr)
        if ty == "ptr":
            t.isptr = True
        if ty in ("double", "float"):
            return t
        if ty == "i1":
            return lit(mk("bool", t))
        return patom(t)

    def ldver(self, v, addr, reg, ty, raw=None):
        n = 0
        while True:
            n += 1
            o = v.op
            if o == "st":
                _, prev, a, x = v.args
                if a is addr:
                    return x
                if self.distinct(a, addr):
                    v = prev
                    continue
                break
            if o == "memmu":
                info = self.mui.get(v)
                if info is not None and self.mu_disjoint(info, addr):
                    iv = info["init"]
                    if iv.var is None:
                        v = iv.leaf
                        continue
                    return apply(lambda w: self.ldver(w, addr, reg, ty), iv)
                break
            if o == "arr":
                if self.arr_disjoint(v, addr):
                    v = v.args[1]
                    continue
                break
            if o == "init" and reg[0] == "G0":
                break
            break
        return self.mkload(v, addr, reg, ty)

    def distinct(self, a, b):
        d = psub(a, b)
        if pisconst(d):
            return pval(d) != 0
        ba, oa = pptr(a)
        bb, ob = pptr(b)
        if ba is not bb and ba is not None and bb is not None:
            if separate(ba, bb):
                return True
            # different rows of one row-pointer table do not overlap
            if ba.op == "ld" and bb.op == "ld" and ba.args[0] is bb.args[0]:
                r1, o1 = pptr(ba.args[1])
                r2, o2 = pptr(bb.args[1])
                if r1 is r2 and r1 is not None and self.facts.entails_ne(psub(o1, o2)):
                    return True
            return False
        return self.facts.entails_ne(d)

    def split2(self, addr):
        """address -> (root, [offsets]) following row-pointer tables"""
        offs = []
        base, off = pptr(addr)
        offs.append(off)
        if base is not None and base.op == "ld":
            b2, o2 = pptr(base.args[1])
            if b2 is not None:
                return (base.args[0], b2), [o2, off]
        return base, offs

    def eqfeasible(self, a, b, ges, eqs=()):
        """can addresses a and b coincide under the extra constraints?"""
        ra, oa = self.split2(a)
        rb, ob = self.split2(b)
        if ra is None or rb is None:
            return True
        if ra != rb or len(oa) != len(ob):
            if a is b:
                return True
            ba, _ = pptr(a)
            bb, _ = pptr(b)
            if ba is not bb and isfresh(ba) and isfresh(bb):
                return False
            return True
        E = [psub(x, y) for x, y in zip(oa, ob)]
        return feasible(list(self.facts.ges) + list(ges), list(self.facts.eqs) + E + list(eqs))

    def mu_disjoint(self, info, addr):
        """no earlier iteration of the loop stored to addr"""
        d = info["depth"]
        kd = mk("k", d)
        kp = mk("kprime", d)
        for doms, ea in info["entries"]:
            # rename k_d -> k' and inner ks -> fresh
            ren = {kd: kp}
            ges = [patom(kp), psub(padd(patom(kd), pconst(-1)), patom(kp))]
            for dd, cont in doms:
                kk = mk("k", dd)
                ren[kk] = mk("kprime", dd)
                ges.append(patom(ren[kk]))
            ok = True
            for dd, cont in list(doms) + [(d, info["cont"])]:
                f = Facts()
                f.add_dd(cont)
                for p in f.ges:
                    ges.append(rename(p, ren))
            ea2 = rename(ea, ren)
            if ea2 is None:
                return False
            if self.eqfeasible(ea2, addr, ges):
                return False
        return True

    def arr_disjoint(self, v, addr):
        _, init, d, cont, entries = v.args
        for doms, ea, _ in entries:
            ren = {}
            ges = []
            for dd, c in [(d, cont)] + list(doms):
                ren[mk("k", dd)] = mk("kprime", dd)
                ges.append(patom(mk("kprime", dd)))
                f = Facts()
                f.add_dd(c)
                for p in f.ges:
                    ges.append(rename(p, {mk("k", e): mk("kprime", e) for e in range(d, dd + 1)}))
            ea2 = rename(ea, ren)
            if ea2 is None or None in ges:
                return False
            if self.eqfeasible(ea2, addr, ges):
                return False
        return True

    def store(self, mem, addrdd, valdd, tbaa, ty, pc, ctx, ins):
        regs = {}
        valdd = self.known(ctx, pc, constrain(valdd, pc))
        if ty == "double" and valdd.var is not None:
            valdd = missing(valdd)
        if ty == "double" and any(isinstance(l, T) and l is FNAN for l in leaves(valdd)):
            # storing "missing" over "missing" changes nothing
            old = self.load(mem, addrdd, tbaa, ty)
            valdd = apply(lambda v, o: ite(nanatom(o), NOSTORE, leaf(v)) if v is FNAN and isinstance(o, T) and not self.untouched(o) else v, valdd, old)
        for a in leaves(addrdd):
            if isinstance(a, T) and a.op == "BOT":
                continue
            regs.setdefault(self.region(a, tbaa, ty), []).append(a)
        for reg, al in regs.items():
            old = self.getmem(mem, reg)

            def f(v, a, x):
                if isinstance(a, T) and a.op == "p" and a not in al:
                    return v
                if isinstance(x, T) and x.op == "NOSTORE":
                    return v
                if isinstance(x, bool):
                    x = ONE if x else ZERO
                ca = self.canon(a)
                cur = self.ldver(v, ca, reg, ty, a)
                if cur is x or isinstance(cur, DD) and cur.var is None and cur.leaf is x:
                    return v             # the location already holds the value
                return self.mkst(canonreg(reg), v, ca, x)
            mem[reg] = apply(f, old, addrdd, valdd)
            self.touch(ctx, reg)
            ev = Ev(kind="store", region=reg, addr=addrdd, val=valdd, guard=pc, doms=(), line=ins.line, file=self.fileof(ins), ins=ins, facts=ctx.facts, ty=ty)
            ctx.events.append(ev)

    def untouched(self, o):
        """the first content of storage allocated here: no value is missing in it yet"""
        if o.op != "ld" or not isinstance(o.args[0], T) or o.args[0].op != "init" or o.args[1].op != "p":
            return False
        base = pptr(o.args[1])[0]
        while base is not None and base.op == "ld" and base.args[0].op == "init" and base.args[1].op == "p":
            base = pptr(base.args[1])[0]
        return base is not None and base.op == "alloc" and base.args[0] in ALLOC

    def mkst(self, creg, v, a, x):
        """store on top of a version; a store it makes invisible is dropped"""
        stack = []
        w = v
        while w.op == "st" and len(stack) < 24:
            if w.args[2] is a:
                w = w.args[1]
                for (b, y) in reversed(stack):
                    w = mk("st", creg, w, b, y)
                return mk("st", creg, w, a, x)
            if not self.distinct(w.args[2], a):
                break
            stack.append((w.args[2], w.args[3]))
            w = w.args[1]
        # neighbours at fixed distances are kept in address order
        stack = []
        w = v
        while w.op == "st" and a.op == "p" and w.args[2].op == "p" and len(stack) < 24:
            d = psub(w.args[2], a)
            if not pisconst(d) or pval(d) <= 0 or not self.distinct(w.args[2], a):
                break
            stack.append((w.args[2], w.args[3]))
            w = w.args[1]
            if not isinstance(w, T):
                return mk("st", creg, v, a, x)
        w = mk("st", creg, w, a, x)
        for (b, y) in reversed(stack):
            w = mk("st", creg, w, b, y)
        return w

    def fileof(self, ins):
        return ir.filename(self.M, ins.scope)

    def touch(self, ctx, reg, opaque=False):
        pass

    # ------------------------------------------------------------- driver
    def run(self):
        ctx = Ctx(None, self.facts0)
        self.top = ctx
        self.facts = ctx.facts
        self.ctx = ctx
        self.rets = []
        self.retval = BOT
        self.mem = {}
        if self.noret:
            self.events = []
            return self
        entry = self.fn.order[0]
        edges = {entry: [(TRUE, {}, None)]}
        self.process(None, entry, edges, ctx)
        # merge returns
        conds = [(pc, m, v) for pc, m, v in self.rets]
        val = BOT
        for pc, m, v in reversed(conds):
            if v is not None:
                val = ite(pc, v, val)
        tot = FALSE
        for pc, m, v in conds:
            tot = OR(tot, pc)
        self.retval = constrain(val, tot) if val is not BOT else BOT
        self.mem = self.mergemem([(pc, m) for pc, m, v in conds], tot)
        self.events = ctx.events
        return self

    def mergemem(self, lst, pc):
        if len(lst) == 1:
            return dict(lst[0][1])
        regs = []
        for c, m in lst:
            for r in m:
                if r not in regs:
                    regs.append(r)
        out = {}
        for r in regs:
            vs = [self.getmem(m, r) for c, m in lst]
            if all(v is vs[0] for v in vs):
                out[r] = vs[0]
                continue
            acc = BOT
            for (c, m), v in zip(reversed(lst), reversed(vs)):
                acc = ite(c, v, acc)
            out[r] = constrain(acc, pc)
        return out

    def children(self, region):
        """blocks and inner-loop headers directly inside region, in RPO"""
        out = []
        for b in self.rpo:
            l = self.inner[b]
            if l == region:
                out.append(b)
            elif l == b and self.parent[b] == region:
                out.append(b)
        return out

    def process(self, region, entry, edges, ctx, latch=None, exits=None):
        """edges: incoming block -> list of (cond, mem, pred)"""
        body = self.loops[region] if region is not None else None
        for b in self.children(region):
            inc = edges.get(b)
            if not inc:
                continue
            if b != region and b in self.loops and self.inner[b] == b:
                self.doloop(b, inc, edges, ctx, region, body, exits)
                continue
            first = (b == region)
            self.block(b, inc, edges, ctx, region, body, latch, exits, first)

    def emit_edge(self, frm, to, cond, mem, edges, ctx, region, body, latch, exits, preval=None):
        if cond is FALSE:
            return
        if region is not None and to == region:
            latch.append((cond, mem, frm))
        elif body is not None and to not in body:
            exits.append((cond, mem, frm, to))
        else:
            edges.setdefault(to, []).append((cond, mem, frm))

    def block(self, b, inc, edges, ctx, region, body, latch, exits, isheader):
        blk = self.fn.blocks[b]
        if isheader:
            pc, mem = inc[0][0], inc[0][1]
            mem = dict(mem)
        else:
            pc = FALSE
            for c, m, p in inc:
                pc = OR(pc, c)
            mem = self.mergemem([(c, m) for c, m, p in inc], pc)
            # phis
            newv = {}
            for ins in blk.insts:
                if ins.op != "phi":
                    break
                acc = BOT
                vals = []
                for v, p in ins.a:
                    for c, m, q in inc:
                        if q == p:
                            vals.append((c, self.val(v, ins.ty)))
                if vals and all(v is vals[0][1] for c, v in vals):
                    newv[ins.res] = vals[0][1]
                    continue
                for c, v in reversed(vals):
                    acc = ite(c, v, acc)
                newv[ins.res] = self.pin(constrain(acc, pc), ins.ty, ctx.facts)
            self.env.update(newv)
        self.facts = ctx.facts
        self.pcmap[b] = pc if hasattr(self, "pcmap") else None
        for ins in blk.insts:
            if ins.op == "phi":
                continue
            if ins.op in ("br", "switch", "ret", "unreachable"):
                self.term(b, ins, pc, mem, edges, ctx, region, body, latch, exits, isheader)
                break
            self.inst(b, ins, pc, mem, ctx)

    pcmap = {}

    def pin(self, v, ty, F):
        """a bounded value next to its bound is that bound: one spelling"""
        if v.var is None or ty not in ("i32", "i64"):
            return v
        memo = {}

        def at(d, q):
            """d where q <= 0"""
            if d.var is None and d.leaf.op == "p" and not pisconst(d.leaf):
                x = d.leaf
                y = min((padd(x, q), psub(x, q)), key=lambda t: len(t.args))
                if len(y.args) < len(x.args) and F.entails_ge(q):
                    return leaf(y)
            return d

        def rec(d):
            if d.var is None:
                return d
            r = memo.get(d.uid)
            if r is None:
                hi, lo = rec(d.hi), rec(d.lo)
                if d.var.op == "ge":
                    q = padd(d.var.args[0], pconst(-d.var.args[1]))
                    lo = at(lo, padd(q, pconst(1)))
                    hi = at(hi, pscale(q, -1))
                r = memo[d.uid] = node(d.var, hi, lo)
            return r
        return rec(v)

    def cond(self, s):
        c = self.val(s, "i1")
        return self.asbool(c)

    def asbool(self, c):
        return apply(lambda v: v if isinstance(v, bool) else (pval(v) != 0 if pisconst(v) else lit(mk("bool", v))), c)

    def term(self, b, ins, pc, mem, edges, ctx, region, body, latch, exits, isheader):
        if ins.op == "ret":
            v = self.val(ins.a[0], ins.ty) if ins.a else None
            self.rets.append((pc, mem, v))
            return
        if ins.op == "unreachable":
            return
        if ins.op == "br" and len(ins.a) == 1:
            outs = [(TRUE, ins.a[0])]
        elif ins.op == "br":
            c = self.cond(ins.a[0])
            if c.var is not None:
                c = self.known(ctx, pc, c)
            if ins.a[1] == ins.a[2]:
                outs = [(TRUE, ins.a[1])]
            else:
                outs = [(c, ins.a[1]), (NOT(c), ins.a[2])]
        else:
            x = self.val(ins.a[0], ins.ty)
            rest = TRUE
            d = {}
            for n, l in ins.a[2]:
                c = apply(lambda v: atom_eq0(psub(v, pconst(n)), self.facts), x)
                d[l] = OR(d.get(l, FALSE), AND(rest, c))
                rest = AND(rest, NOT(c))
            d[ins.a[1]] = OR(d.get(ins.a[1], FALSE), rest)
            outs = [(c, l) for l, c in d.items()]
        outs = [(self.facts.simp(c), l) for c, l in outs]
        outs = [(c, l) for c, l in outs if AND(pc, c) is not FALSE]
        dead = [(c, l) for c, l in outs if l not in self.live]
        if isheader and region is not None and dead and len(dead) < len(outs) and all(i.op not in ("store", "call") for i in self.fn.blocks[b].insts):
            # a loop that can only end in the error exit here: the exit is taken after the loop
            dc = FALSE
            for c, l in outs:
                if l not in self.live or l not in body:
                    dc = OR(dc, c)
                    exits.append((c, mem, b, l))
            cont = NOT(dc)
            ctx.cont = cont
            ctx.headexit = True
            ctx.facts.add_dd(cont)
            for c, l in outs:
                if l in self.live and l in body:
                    self.emit_edge(b, l, AND(pc, constrain(c, cont)), mem, edges, ctx, region, body, latch, exits)
            return
        livee = [(c, l) for c, l in outs if l in self.live]
        for c, l in dead:
            self.quit_event(b, ins, l, AND(pc, c), pc, c, ctx)
        if dead and livee:
            dc = FALSE
            for c, l in dead:
                dc = OR(dc, c)
            ok = NOT(dc)
            if pc is TRUE:
                ctx.facts.add_dd(ok)
                ctx.facts.quits = getattr(ctx.facts, "quits", 0) + 1
            elif len(ok.sup) + len(pc.sup) <= 10:
                ctx.facts.add_dd(OR(NOT(pc), ok))
            livee = [(constrain(c, ok), l) for c, l in livee]
        if not livee:
            return
        inner_exit = [(c, l) for c, l in livee if body is not None and l not in body]
        if isheader and region is not None and inner_exit and len(inner_exit) < len(livee):
            # loop header test
            ec = FALSE
            for c, l in inner_exit:
                ec = OR(ec, c)
                exits.append((c, mem, b, l))
            cont = NOT(ec)
            ctx.cont = cont
            ctx.headexit = True
            ctx.facts.add_dd(cont)
            for c, l in livee:
                if body is not None and l not in body:
                    continue
                c = constrain(c, cont)
                self.emit_edge(b, l, AND(pc, c), mem, edges, ctx, region, body, latch, exits)
            return
        for c, l in livee:
            self.emit_edge(b, l, AND(pc, c), mem, edges, ctx, region, body, latch, exits)

    def quit_event(self, b, ins, l, guard, pc, c, ctx):
        # classify the dead region: noreturn calls reachable from l
        seen, st = set(), [l]
        found = []
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            for i in self.fn.blocks[x].insts:
                if i.op == "call" and i.a[0][1:] in self.M.noreturn:
                    found.append((i.a[0][1:], i))
            st.extend(self.fn.blocks[x].succs)
        for name, i in found:
            arg = i.a[1][0][1] if i.a[1] else None
            s = None
            if arg and arg.startswith("@"):
                s = self.M.strings.get(arg[1:])
            elif arg is not None:
                s = arg
            if s is not None and (s.startswith(b"@given") if isinstance(s, bytes) else s.startswith("@given")) and ctx.depth <= 0:
                self.givens.append(OR(NOT(pc), NOT(c)))
            ctx.events.append(Ev(kind="quit", callee=name, val=s, guard=guard, doms=(), line=i.line, file=self.fileof(i), ins=i, facts=ctx.facts, args=(pc, c)))

    def known(self, ctx, pc, v):
        """v on the states that are possible here"""
        for p in ctx.facts.prem:
            if v.var is None:
                break
            if p.sup & v.sup:
                p = constrain(p, pc)
                if p is not FALSE and len(p.sup) <= 14:
                    v = constrain(v, p)
        return v

    def wheel(self, cur, st, ini, depth, F, pc):
        """n if the next value is the next one modulo n, however that is written, and the first is within [0, n)"""
        if cur.var is not None or ini.var is not None or cur.leaf.op != "p":
            return None
        nxt = padd(cur.leaf, pconst(1))
        n = None
        if st.var is None:
            if st.leaf.op == "p":
                for m in st.leaf.args:
                    for v in m[0]:
                        if v.op == "sdivp" and v.args[0] is nxt and st.leaf is psub(nxt, pmul(patom(v), v.args[1])):
                            n = v.args[1]
        elif {id(l) for l in leaves(st)} == {id(ZERO), id(nxt)} and st.var.op in ("eq", "ge"):
            q, c = st.var.args
            e = padd(q, pconst(-c))
            for x in (e, pscale(e, -1), padd(pscale(e, -1), pconst(-1))):
                y = psub(nxt, x)
                if st in (ite(atom_eq0(x), leaf(ZERO), leaf(nxt)), ite(atom_ge0(x), leaf(ZERO), leaf(nxt))) and depth not in fv(leaf(y)):
                    n = y
        if n is None or depth in fv(leaf(n)):
            return None
        F = F.copy()
        F.add_dd(pc)
        if F.entails_ge(ini.leaf) and F.entails_ge(psub(padd(n, pconst(-1)), ini.leaf)):
            return n
        return None

    # ------------------------------------------------------------- loops
    def doloop(self, H, inc, edges, octx, oregion, obody, oexits):
        pc = FALSE
        for c, m, p in inc:
            pc = OR(pc, c)
        mem0 = self.mergemem([(c, m) for c, m, p in inc], pc)
        blk = self.fn.blocks[H]
        body = self.loops[H]
        phis = [i for i in blk.insts if i.op == "phi"]
        init = {}
        for ins in phis:
            acc = BOT
            vals = []
            for v, p in ins.a:
                for c, m, q in inc:
                    if q == p:
                        vals.append((c, self.val(v, ins.ty)))
            if vals and all(v is vals[0][1] for c, v in vals):
                init[ins.res] = vals[0][1]
            else:
                for c, v in reversed(vals):
                    acc = ite(c, v, acc)
                init[ins.res] = constrain(acc, pc)
            init[ins.res] = self.known(octx, pc, constrain(init[ins.res], pc))
        depth = octx.depth + 1
        k = patom(mk("k", depth))
        closed = {}       # phi -> DD in k
        modregs = set()
        names = {}        # phi / ('mem',reg) -> name term
        info = {}
        snap_alloc = dict(self.alloccnt)
        nocell = set()
        cells = {}        # region -> [Cell]: memory cells at loop-invariant addresses, carried like variables
        realphis = phis
        phase = 0
        rounds = 0
        total = 0
        settled = None    # closings decided for this many variables
        while True:
            total += 1
            if total > 40:
                raise Unsupported("loop summary does not stabilise in " + self.fn.name)
            self.alloccnt = dict(snap_alloc)
            ctx = Ctx(octx, octx.facts.copy())
            ctx.header = H
            ctx.cont = TRUE
            ctx.headexit = False
            ctx.facts.add_ge(k)
            self.facts = ctx.facts
            mem = dict(mem0)
            munames = {}
            phis = realphis + [c for r in cells for c in cells[r]]
            # conclusions about single variables are drawn only while all of them have different names
            prov = {}
            for ins in phis:
                if ins.res not in closed:
                    prov.setdefault(names.get(ins.res) or ("prov", init[ins.res], ins.ty), []).append(ins.res)
            crowd = {v for vs in prov.values() if len(vs) > 1 for v in vs}
            apart = not crowd
            if crowd and settled != (len(closed), len(phis)):
                apart = True
            # a whole number that starts at c is c plus one that starts at 0
            base = {}
            for ins in phis:
                if ins.ty in ("i32", "i64") and ins.res not in closed and init[ins.res].var is None:
                    l = init[ins.res].leaf
                    if isinstance(l, T) and l.op == "p" and pisconst(l) and l is not ZERO:
                        base[ins.res] = l
            start = {ins.res: leaf(ZERO) if ins.res in base else init[ins.res] for ins in phis}
            for ins in phis:
                if ins.res in closed:
                    self.env[ins.res] = closed[ins.res]
                else:
                    nm = names.get(ins.res)
                    if apart and ins.res in crowd:
                        nm = mk("mu", depth, start[ins.res], mk("prov", ins.ty, str(ins.res)))
                        if ins.ty == "ptr":
                            nm.isptr = True
                    elif nm is None:
                        nm = mk("mu", depth, start[ins.res], mk("prov", ins.ty))
                        if ins.ty == "ptr":
                            nm.isptr = True
                    munames[ins.res] = nm
                    self.env[ins.res] = leaf(nm if ins.ty in ("double", "float") else padd(patom(nm), base.get(ins.res, ZERO))) if ins.ty != "i1" else lit(mk("bool", nm))
            for r in cells:
                v = self.getmem(mem0, r)
                for c in cells[r]:
                    v = apply(lambda w, x: w if isinstance(x, T) and x.op == "BOT" else self.mkst(canonreg(r), w, c.addr, boolint(x)), v, self.env[c.res])
                mem[r] = v
            for r in modregs:
                nm = names.get(("mem", r))
                if nm is None:
                    nm = mk("memmu", depth, canonreg(r), self.getmem(mem0, r), mk("prov"))
                    self.mui.pop(nm, None)
                munames[("mem", r)] = nm
                mem[r] = leaf(nm)
            latch, exits = [], []
            e2 = {H: [(TRUE, mem, None)]}
            self.process(H, H, e2, ctx, latch, exits)
            self.facts = ctx.facts
            lpc = FALSE
            for c, m, p in latch:
                lpc = OR(lpc, c)
            lmem = self.mergemem([(c, m) for c, m, p in latch], lpc) if latch else {}
            # newly modified regions?
            new = set()
            for src in [lmem] + [m for _, m, _, _ in exits]:
                for r in src:
                    if r not in modregs and r not in cells and src[r] is not self.getmem(mem0, r):
                        new.add(r)
            if new:
                modregs |= new
                names = {}
                rounds = 0
                continue
            changed = False
            for r in list(cells):
                cc = self.cellcand(ctx, r, depth)
                if cc is None or any(a not in [c.addr for c in cells[r]] for a in cc):
                    for c in cells[r]:
                        closed.pop(c.res, None)
                    if cc is None:
                        del cells[r]
                        nocell.add(r)
                        modregs.add(r)
                    else:
                        cells[r] = [Cell(r, a, t) for a, t in cc.items()]
                    closed.clear()
                    changed = True
            for r in sorted(modregs, key=str):
                if r in nocell:
                    continue
                cc = self.cellcand(ctx, r, depth)
                if cc:
                    modregs.discard(r)
                    cells[r] = [Cell(r, a, t) for a, t in cc.items()]
                    changed = True
            if changed:
                for r in cells:
                    for c in cells[r]:
                        if c.res not in init:
                            init[c.res] = apply(lambda v: self.ldver(v, c.addr, r, c.ty), self.getmem(mem0, r))
                names = {}
                rounds = 0
                continue
            step = {}
            for r in cells:
                for c in cells[r]:
                    step[c.res] = constrain(apply(lambda v: self.ldver(v, c.addr, r, c.ty), self.getmem(lmem, r)), lpc) if latch else init[c.res]
            for ins in realphis:
                vals = []
                for v, p in ins.a:
                    for c, m, q in latch:
                        if q == p:
                            vals.append((c, self.val(v, ins.ty)))
                if not vals:
                    step[ins.res] = init[ins.res]
                elif all(v is vals[0][1] for c, v in vals):
                    step[ins.res] = vals[0][1]
                else:
                    acc = BOT
                    for c, v in reversed(vals):
                        acc = ite(c, v, acc)
                    step[ins.res] = constrain(acc, lpc)
            for v in step:
                if step[v].var is not None and latch:
                    step[v] = self.known(ctx, lpc, constrain(step[v], lpc))
            # solve affine phis
            again = False
            for ins in phis if apart else ():
                if ins.res in closed or ins.ty in ("double", "float", "i1"):
                    continue
                cur = self.env[ins.res]
                st = step[ins.res]
                if st is cur:
                    closed[ins.res] = init[ins.res]
                    again = True
                    continue
                dif = apply(psub, st, cur)
                if depth in fv(dif) or dif is BOT:
                    w = self.wheel(cur, st, init[ins.res], depth, octx.facts, pc)
                    if w is not None:
                        i0 = padd(init[ins.res].leaf, k)
                        closed[ins.res] = leaf(psub(i0, pmul(patom(mk("sdivp", i0, w)), w)))
                        again = True
                    continue
                if dif.var is not None and rounds == 0 and False:
                    continue
                if any(isinstance(l, T) and l.op == "BOT" for l in leaves(dif)):
                    continue
                closed[ins.res] = apply(lambda i, s: padd(i, pmul(s, k)), init[ins.res], dif)
                again = True
            for ins in phis if apart else ():
                if ins.res in closed or ins.ty not in ("double", "float", "i1"):
                    continue
                if step[ins.res] is self.env[ins.res]:
                    closed[ins.res] = init[ins.res]
                    again = True
            for ins in phis if apart else ():
                # set to one and the same value by every iteration (flags)
                if ins.res in closed or again:
                    continue
                st = step[ins.res]
                if depth not in fv(st) and st is not BOT and not any(isinstance(l, T) and l.op == "BOT" for l in leaves(st)):
                    closed[ins.res] = ite(atom_ge0(padd(k, pconst(-1))), st, init[ins.res])
                    again = True
            if again:
                names = {}
                rounds = 0
                continue
            if apart and crowd:
                settled = (len(closed), len(phis))
                names = {}
                rounds = 0
                continue
            entries = {}
            for r in modregs:
                entries[r] = self.entries(ctx, r, depth)
            # naming rounds
            if rounds < NR and (munames):
                nn = {}
                for ins in phis:
                    if ins.res in closed:
                        continue
                    t = mk("mu", depth, start[ins.res], apply(lambda v: psub(v, base[ins.res]), step[ins.res]) if ins.res in base else step[ins.res])
                    if ins.ty == "ptr":
                        t.isptr = True
                    nn[ins.res] = t
                for r in modregs:
                    ent = entries[r]
                    ini = self.getmem(mem0, r)
                    body_ = ent
                    if ent is None:
                        body_ = lmem.get(r, ini)
                        if latch and body_.var is not None:
                            body_ = self.known(ctx, lpc, constrain(body_, lpc))
                    t = mk("memmu", depth, canonreg(r), ini, mk("upd", ctx.cont, body_))
                    if ent is not None:
                        self.mui[t] = {"init": ini, "depth": depth, "cont": ctx.cont, "entries": [(e[0], e[1]) for e in ent]}
                    nn[("mem", r)] = t
                rounds += 1
                if nn == names:
                    rounds = NR
                elif rounds == NR and any(len({id(step[v]) for v in vs}) > 1 for vs in prov.values()):
                    rounds -= 1       # variables of one name behave differently: name them further
                names = nn
                if rounds < NR or True:
                    if rounds <= NR and not (rounds == NR and nn == munames):
                        continue
            break
        # ---------------------------------------------- closed loop summary
        exits_l = [(c, m, f, t) for c, m, f, t in exits if c is not FALSE]
        headconds = [(c, m, f, t) for c, m, f, t in exits_l if f == H and ctx.headexit]
        others = [(c, m, f, t) for c, m, f, t in exits_l if not (f == H and ctx.headexit)]
        # leaving condition at the last iteration, whichever way out is taken
        whole = NOT(ctx.cont) if ctx.headexit else FALSE
        for c, m, f, t in others:
            whole = OR(whole, AND(ctx.cont, c))
        if others:
            if pc.sup & whole.sup:
                whole = constrain(whole, pc)
            whole = self.known(ctx, pc, whole)
        contfull = NOT(whole)
        # what never changes in the loop and keeps it from being entered is a condition around it
        never = []
        if ctx.headexit and self.tripdd(ctx.cont, depth) is None:
            for a in sorted(ctx.cont.sup, key=order):
                if depth not in fv(a):
                    for val in (True, False):
                        if restrict(ctx.cont, a, val) is FALSE:
                            never.append((a, val))
                            contfull = restrict(contfull, a, not val)
        closedloop = mk("loop", depth, contfull, bool(others))
        self.facts = octx.facts
        N = self.tripdd(contfull, depth) if not others else self.tripdd(ctx.cont, depth) if ctx.headexit else None
        single = len(exits_l) == 1
        if others and single and not ctx.headexit:
            N = self.tripdd(contfull, depth)
        if single and N is not None:
            ke = N
        else:
            ke = leaf(patom(mk("kexit", closedloop, N.leaf if N is not None and N.var is None else ZERO, N is not None and N.var is None)))
        ke0 = ke
        for a, val in never:
            ke = ite(lit(a), leaf(ZERO), ke) if val else ite(lit(a), ke, leaf(ZERO))
        self.lasttrip = N
        dom = ctx.cont if single and ctx.headexit else AND(ctx.cont, apply(lambda e: atom_ge0(psub(e, k)), ke))
        lastdom = apply(lambda e: atom_ge0(psub(e, k)), ke)
        # events to outer context with this loop's domain prefixed
        firststore = {}
        hset = {id(i) for i in blk.insts}
        for e in ctx.events:
            if e.kind == "store" and e.region in cells:
                firststore.setdefault(e.region, e)
                continue
            e = e.copy()
            if e.kind == "store":
                e.guard, e.val = self.known(ctx, TRUE, e.guard), self.known(ctx, TRUE, e.val)
            e.doms = ((depth, lastdom if id(e.ins) in hset else dom, pc, closedloop),) + e.doms
            octx.events.append(e)
        # exit edges
        outs = []
        if len(exits_l) == 0:
            return
        submemo = {}
        kt = mk("k", depth)

        kes = ke0
        # "at least one iteration" is the continuation condition of the first one
        ran = None
        if kes.var is None and not (kes.leaf.op == "p" and pisconst(kes.leaf)):
            a1 = atom_ge0(padd(kes.leaf, pconst(-1)))
            if a1.var is not None and a1.hi is TRUE and a1.lo is FALSE and any(x.op == "kexit" for x in patoms(kes.leaf)):
                try:
                    c0 = self.firstiter(contfull, depth, kt, {})
                    if depth not in fv(c0):
                        ran = (a1.var, c0)
                except Unsupported:
                    pass

        def at_exit(v, kv):
            first = self.firstiter(v, depth, kt, {}) if never else None
            v = self.exitsub(v, depth, kt, kv, closedloop, submemo)
            if ran is not None and isinstance(v, DD) and ran[0] in v.sup:
                v = ite(ran[1], restrict(v, ran[0], True), restrict(v, ran[0], False))
            if first is not None and first is not v:
                for a, val in never:
                    f, g = (first if isinstance(first, DD) else leaf(first)), (v if isinstance(v, DD) else leaf(v))
                    v = ite(lit(a), f, g) if val else ite(lit(a), g, f)
            return v
        Es = TRUE if single else self.atdd(at_exit, whole, kes)
        if not single and len(Es.sup) <= 12:
            octx.facts.add_dd(OR(NOT(pc), Es))
        rem = pc
        seq = others + headconds
        for n, (c, m, f, t) in enumerate(seq):
            if n == len(seq) - 1:
                ep = rem
            else:
                at = constrain(self.atdd(at_exit, AND(ctx.cont, c), kes), Es)
                ep = AND(rem, at)
                rem = AND(rem, NOT(at))
            outs.append((ep, c, m, f, t))
        dead = [o for o in outs if o[4] not in self.live]
        if dead:
            dc = FALSE
            for ep, c, m, f, t in dead:
                self.quit_event(f, self.fn.blocks[f].insts[-1], t, ep, pc, ep, octx)
                dc = OR(dc, ep)
            ok = constrain(NOT(dc), pc)
            if pc is TRUE:
                octx.facts.quits = getattr(octx.facts, "quits", 0) + 1
            if len(ok.sup) <= 12 or pc is TRUE:
                octx.facts.add_dd(OR(NOT(pc), ok))
            outs = [(AND(pc, constrain(ep, ok)), c, m, f, t) for ep, c, m, f, t in outs if t in self.live]
        # values leaving the loop
        defs = [v for v in self.defblk if self.defblk[v] in body and any(u not in body for u in self.uses.get(v, ()))]
        # phi uses in outside blocks come from pred inside the body: they read at the edge
        for n in list(self.uses):
            pass
        fin = {}
        needed = set(defs)
        for c, m, f, t in exits_l:
            for ins in self.fn.blocks[t].insts:
                if ins.op != "phi":
                    break
                for v, p in ins.a:
                    if v.startswith("%") and p in body and v in self.defblk and self.defblk[v] in body:
                        needed.add(v)
        curenv = {v: self.env[v] for v in needed if v in self.env}

        def outval(v, c, f):
            if depth not in fv(v):
                return v
            ishead = ctx.headexit and f == H
            if not ishead:
                v = constrain(v, AND(ctx.cont, c))
            return self.atdd(at_exit, v, N if ishead and N is not None else kes)
        for v, d in curenv.items():
            if depth not in fv(d):
                continue
            acc = None
            for ep, c, m, f, t in outs:
                if not self.dom(self.defblk[v], f):
                    continue
                x = outval(d, c, f)
                acc = x if acc is None else ite(ep, x, acc)
            if acc is not None:
                self.env[v] = acc
        for ep, c, m, f, t in outs:
            om = dict(mem0)
            ishead = ctx.headexit and f == H
            for r in m:
                v = m[r]
                if r in cells:
                    w = self.getmem(mem0, r)
                    for cell in cells[r]:
                        x = outval(apply(lambda u: self.ldver(u, cell.addr, r, cell.ty), v), c, f)
                        w2 = apply(lambda u, y: self.cellst(r, u, cell, y), w, x)
                        if w2 is not w:
                            e0 = firststore[r]
                            octx.events.append(Ev(kind="store", region=r, addr=leaf(cell.addr), val=x, guard=ep, doms=(), line=e0.line, file=e0.file, ins=e0.ins, facts=octx.facts, ty=cell.ty))
                        w = w2
                    om[r] = w
                    continue
                if r not in modregs:
                    om[r] = v
                    continue
                ini = self.getmem(mem0, r)
                ent = entries.get(r)
                if ishead and ent is not None and single:
                    co, en = self.rowsfirst(depth, ctx.cont, ent)
                    om[r] = apply(lambda i: mk("arr", canonreg(r), i, depth, co, en), ini)
                else:
                    om[r] = outval(v, c, f)
            self.emit_edge(f, t, ep, om, edges, octx, oregion, obody, self.olatch(octx), oexits)

    def olatch(self, octx):
        return octx.latchlist if hasattr(octx, "latchlist") else []

    def tripdd(self, cont, depth):
        """iterations of a loop that leaves through its header test: DD of polys, or None"""
        if cont.var is None:
            return None
        a = cont.var
        if depth not in fv(a):
            h = self.tripdd(cont.hi, depth) if cont.hi.var is not None else leaf(ZERO) if cont.hi is FALSE else None
            l = self.tripdd(cont.lo, depth) if cont.lo.var is not None else leaf(ZERO) if cont.lo is FALSE else None
            if h is None or l is None:
                return None
            return ite(lit(a), h, l)
        if cont.sup != {a}:
            return None
        pos = cont.hi is TRUE
        N = None
        if a.op == "ge":
            e = padd(a.args[0], pconst(-a.args[1])) if pos else psub(pconst(a.args[1] - 1), a.args[0])
            N = self.trip(e, depth)
        elif a.op == "eq" and not pos:
            # loop until equality: unit step towards the bound
            e = padd(a.args[0], pconst(-a.args[1]))
            d = {m: c for m, c in e.args}
            ck = d.get((mk("k", depth),), 0)
            if abs(ck) == 1:
                rest = psub(e, pscale(patom(mk("k", depth)), ck))
                if depth not in fv(rest):
                    N = pscale(rest, -ck)
        return leaf(N) if N is not None else None

    def trip(self, e, depth):
        """number of iterations while e(k) >= 0, e affine decreasing in k"""
        kt = mk("k", depth)
        d = pdict(e)
        ck = 0
        rest = {}
        for m, c in d.items():
            if kt in m:
                if m == (kt,):
                    ck = c
                else:
                    return None
            else:
                rest[m] = c
        rest = mkp(rest)
        if depth in fv(rest) or ck >= 0:
            return None
        s = -ck
        # N = floor(rest/s)+1 if rest >= 0 else 0
        n = padd(rest, pconst(s))
        n = self.divc(n, s)
        if not self.facts.entails_ge(padd(rest, pconst(s)) if s > 1 else n):
            n = patom(mk("max0", n))
        return n

    def divc(self, p, s):
        """floor(p/s) for p >= 0 (s > 0 constant)"""
        if s == 1:
            return p
        q, r = {}, {}
        for m, c in p.args:
            q[m] = c // s
            if c % s:
                r[m] = c % s
        q = mkp(q)
        if not r:
            return q
        if set(r) == {()}:
            return q
        return padd(q, patom(mk("sdiv", mkp(r), s)))

    def atdd(self, at_exit, v, ke):
        """the value v(k) at the iteration that leaves the loop"""
        if ke.var is None:
            return at_exit(v, ke.leaf)
        return apply(lambda n: at_exit(v, n), ke)

    def rowsfirst(self, depth, cont, ent):
        """a rectangle of elements, each set to a value that does not depend on the others, in the
        order of its rows, whichever of the two loops is the outer one"""
        if len(ent) != 1:
            return cont, ent
        (doms, a, v), = ent
        if len(doms) != 1 or doms[0][0] != depth + 1 or depth in fv(doms[0][1]) or depth + 1 in fv(cont):
            return cont, ent
        k0, k1 = mk("k", depth), mk("k", depth + 1)
        base, off = pptr(a)
        if base is None or depth in fv(base) or depth + 1 not in fv(base) or depth + 1 in fv(off) or depth not in fv(off):
            return cont, ent
        try:
            sw = lambda x: self.swapk(x, {k0: k1, k1: k0}, {})
            return sw(doms[0][1]), frozenset([(((depth + 1, sw(cont)),), sw(a), sw(v))])
        except Unsupported:
            return cont, ent

    def swapk(self, x, ren, memo):
        if isinstance(x, (tuple, frozenset)):
            return type(x)(self.swapk(a, ren, memo) for a in x)
        if not isinstance(x, (T, DD)) or not any(k.args[0] in fv(x) for k in ren):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        sub = lambda a: self.swapk(a, ren, memo)
        if isinstance(x, DD):
            r = leaf(sub(x.leaf)) if x.var is None else ite(self.rebuildatom(x.var, sub), sub(x.hi), sub(x.lo))
        elif x in ren:
            r = ren[x]
        elif x.op == "p":
            r = ZERO
            for m, c in x.args:
                t = pconst(c)
                for a in m:
                    t = pmul(t, self.topoly(sub(a)))
                r = padd(r, t)
        elif x.op not in ("ld", "prov", "out", "call", "lmem", "st") and x.op not in FCONS:
            raise Unsupported("value of a state")
        elif x.op == "prov":
            raise Unsupported("value of a state")
        else:
            r = rebuild(x, sub(x.args))
        memo[x] = r
        return r

    def exitsub(self, x, depth, kt, ke, closed, memo):
        """x with the loop counter at its last value; what the loop carries stays a name of the loop"""
        if depth not in fv(x):
            return x
        if isinstance(x, (tuple, frozenset)):
            return type(x)(self.exitsub(a, depth, kt, ke, closed, memo) for a in x)
        key = (x, ke)
        r = memo.get(key)
        if r is not None:
            return r
        sub = lambda a: self.exitsub(a, depth, kt, ke, closed, memo) if isinstance(a, (T, DD, tuple, frozenset)) else a
        if isinstance(x, DD):
            if x.var is None:
                r = sub(x.leaf)
                r = r if isinstance(r, DD) else leaf(r)
            else:
                r = ite(self.rebuildatom(x.var, sub), sub(x.hi), sub(x.lo))
        elif x is kt:
            raise Unsupported("bare counter")
        elif x.op == "p":
            r = ZERO
            for m, c in x.args:
                t = pconst(c)
                for a in m:
                    t = pmul(t, ke if a is kt else self.topoly(sub(a)))
                r = padd(r, t)
        elif x.op in ("mu", "memmu") and x.args[0] == depth:
            r = mk("final", closed, x)
            r.isptr = x.isptr
        else:
            r = rebuild(x, tuple(sub(a) for a in x.args))
        memo[key] = r
        return r

    def firstiter(self, x, depth, kt, memo):
        """x in the first iteration"""
        if depth not in fv(x):
            return x
        if isinstance(x, (tuple, frozenset)):
            return type(x)(self.firstiter(a, depth, kt, memo) for a in x)
        r = memo.get(x)
        if r is not None:
            return r
        sub = lambda a: self.firstiter(a, depth, kt, memo) if isinstance(a, (T, DD, tuple, frozenset)) else a
        if isinstance(x, DD):
            if x.var is None:
                r = sub(x.leaf)
                r = r if isinstance(r, DD) else leaf(r)
            else:
                r = ite(self.rebuildatom(x.var, sub), sub(x.hi), sub(x.lo))
        elif x is kt:
            r = ZERO
        elif x.op == "p":
            r = ZERO
            for m, c in x.args:
                t = pconst(c)
                for a in m:
                    y = sub(a)
                    y = y.leaf if isinstance(y, DD) and y.var is None else y
                    if not isinstance(y, T):
                        raise Unsupported("conditional start value")
                    t = pmul(t, ZERO if a is kt else self.topoly(y))
                r = padd(r, t)
        elif x.op == "mu" and x.args[0] == depth:
            r = x.args[1]
        elif x.op == "memmu" and x.args[0] == depth:
            r = x.args[2]
        else:
            a = tuple(sub(a) for a in x.args)
            a = tuple(y.leaf if isinstance(y, DD) and isinstance(o, T) and y.var is None else y for y, o in zip(a, x.args))
            if any(isinstance(o, T) and isinstance(y, DD) for y, o in zip(a, x.args)):
                raise Unsupported("conditional start value")
            r = rebuild(x, a)
        memo[x] = r
        return r

    def topoly(self, t):
        if t.op == "p":
            return t
        return patom(t)

    def rebuildatom(self, a, sub):
        if not fv(a):
            return lit(a)
        if a.op == "ge":
            return atom_ge0(padd(sub(a.args[0]), pconst(-a.args[1])), self.facts)
        if a.op == "eq":
            return atom_eq0(padd(sub(a.args[0]), pconst(-a.args[1])), self.facts)
        if a.op in ("flt", "feq"):
            return (flt if a.op == "flt" else feq)(sub(a.args[0]), sub(a.args[1]))
        if a.op == "nan":
            return nanatom(sub(a.args[0]))
        return lit(rebuild(a, tuple(sub(x) for x in a.args)))

    def cellst(self, r, v, cell, x):
        if isinstance(x, T) and x.op == "BOT":
            return v
        x = boolint(x)
        cur = self.ldver(v, cell.addr, r, cell.ty)
        if cur is x or isinstance(cur, DD) and cur.var is None and cur.leaf is x:
            return v
        return self.mkst(canonreg(r), v, cell.addr, x)

    def cellcand(self, ctx, reg, depth):
        """addresses stored in this loop, when there are few, all loop-invariant and distinct: {addr: type}"""
        if reg[0] == "W":
            return None
        out = {}
        for e in ctx.events:
            if e.region != reg:
                continue
            if e.kind != "store":
                return None
            if e.addr.var is not None or e.doms or e.ty is None:
                return None
            a = e.addr.leaf
            if not isinstance(a, T) or a.op != "p":
                return None
            a = self.canon(a)
            if any(d >= depth for d in fv(a)):
                return None
            if out.setdefault(a, e.ty) != e.ty:
                return None
            if len(out) > 8:
                return None
        al = list(out)
        for i in range(len(al)):
            for j in range(i):
                if not self.distinct(al[i], al[j]):
                    return None
        return out or None

    def entries(self, ctx, reg, depth):
        """set of (inner domains, address, guarded value); None if region also changes opaquely"""
        acc = {}
        if reg[0] == "W":
            return None
        for e in ctx.events:
            if e.kind not in ("store", "load") and getattr(e, "region", None) == reg:
                return None
            if e.kind != "store" or e.region != reg:
                continue
            if not e.doms and any(e.ins is i for i in self.fn.blocks[ctx.header].insts):
                return None      # stored before the loop test
            g = e.guard
            doms = []
            guard = TRUE
            for (dp, cont, pc, cl) in e.doms:
                guard = AND(guard, pc)
                doms.append((dp, cont))
                if cl.args[2]:
                    return None      # inner loop with breaks
            guard = AND(guard, g)
            doms = tuple(doms)
            if e.addr.var is None:
                lv = [e.addr.leaf]
            else:
                lv = [l for l in leaves(e.addr)]
            for a in lv:
                if not isinstance(a, T) or a.op != "p":
                    continue
                ga = guard if e.addr.var is None else AND(guard, apply(lambda x: x is a, e.addr))
                key = (doms, self.canon(a))
                was = acc.get(key, NOSTORE)
                val = e.val
                if any(l is NOSTORE.leaf for l in leaves(val)):
                    val = apply(lambda v, o: o if v is NOSTORE.leaf else v, val, was)
                acc[key] = missing(ite(ga, val, was))
        if not acc:
            return None          # changed by something that is not a store
        for (doms, ad), v in acc.items():
            # leaving a missing value alone and storing "missing" over it are the same
            if depth not in fv(ad) or any(dp not in fv(ad) for dp, _ in doms):
                continue
            for at in sorted(v.sup, key=order):
                if at.op == "nan" and isinstance(at.args[0], T) and at.args[0].op == "ld" and at.args[0].args[1] is ad:
                    h = missing(apply(lambda x: FNAN if x is NOSTORE.leaf else x, restrict(v, at, True)))
                    l = restrict(v, at, False)
                    if h is missing(l):
                        v = h
            acc[doms, ad] = v
        return frozenset((d, a, self.known(ctx, TRUE, v)) for (d, a), v in acc.items())

    # ------------------------------------------------------------- instructions
    def inst(self, b, ins, pc, mem, ctx):
        op = ins.op
        F = ctx.facts
        self.facts = F
        M = self.M
        if op in ("add", "sub", "mul"):
            x, y = self.val(ins.a[0], ins.ty), self.val(ins.a[1], ins.ty)
            if ins.ty == "i1":
                x, y = self.asbool(x), self.asbool(y)
                r = ite(x, NOT(y), y) if op != "mul" else AND(x, y)
            else:
                r = apply({"add": padd, "sub": psub, "mul": pmul}[op], x, y)
        elif op in ("sdiv", "udiv", "srem", "urem"):
            x, y = self.val(ins.a[0], ins.ty), self.val(ins.a[1], ins.ty)
            r = apply(lambda a, c: self.divrem(a, c, op[1:]), x, y)
        elif op in ("shl", "lshr", "ashr"):
            x, y = self.val(ins.a[0], ins.ty), self.val(ins.a[1], ins.ty)

            def sh(a, c):
                if pisconst(c):
                    n = 1 << pval(c)
                    return pscale(a, n) if op == "shl" else self.divrem(a, pconst(n), "div")
                return patom(mk(op, a, c))
            r = apply(sh, x, y)
        elif op in ("and", "or", "xor"):
            x, y = self.val(ins.a[0], ins.ty), self.val(ins.a[1], ins.ty)
            if ins.ty == "i1":
                x, y = self.asbool(x), self.asbool(y)
                if op == "and":
                    r = AND(x, y)
                elif op == "or":
                    r = OR(x, y)
                else:
                    r = ite(x, NOT(y), y)
            else:
                def bw(a, c):
                    if pisconst(a) and not pisconst(c):
                        a, c = c, a
                    if pisconst(a) and pisconst(c):
                        u, v = pval(a), pval(c)
                        return pconst({"and": u & v, "or": u | v, "xor": u ^ v}[op])
                    if op == "and" and pisconst(c):
                        n = pval(c) + 1
                        if n > 1 and n & (n - 1) == 0:
                            return self.divrem(a, pconst(n), "rem")
                    if op == "or" and "disjoint" in ins.flags:
                        return padd(a, c)
                    return patom(mk(op, *sorted((a, c), key=lambda t: t.uid)))
                # booleans widened to integers: x | y, x & y with 0/1 leaves
                r = apply(bw, x, y)
        elif op in ("fadd", "fsub", "fmul", "fdiv"):
            x, y = self.val(ins.a[0], ins.ty), self.val(ins.a[1], ins.ty)
            f = {"fadd": xfadd, "fsub": lambda a, c: xfadd(a, fneg(c)), "fmul": fmul, "fdiv": fdiv}[op]
            r = apply(f, x, y)
        elif op == "fneg":
            r = apply(fneg, self.val(ins.a[0], ins.ty))
        elif op == "freeze":
            r = self.val(ins.a[0], ins.ty)
        elif op == "icmp":
            r = self.icmp(ins)
        elif op == "fcmp":
            p, x, y = ins.a
            r = apply(lambda a, c: fcmp(p, a, c, F), self.val(x, ins.ty), self.val(y, ins.ty))
            r = F.simp(r)
        elif op in ("sext", "zext", "trunc"):
            v = self.val(ins.a[0], ins.a[1])
            if ins.a[1] == "i1":
                one = pconst(-1) if op == "sext" else ONE
                r = apply(lambda t: (one if t else ZERO) if isinstance(t, bool) else t, v)
            elif ins.ty == "i1":
                r = apply(lambda t: t if isinstance(t, bool) else NOT(atom_eq0(self.divrem(t, pconst(2), "rem"), F)), v)
            else:
                r = apply(lambda t: (ONE if t else ZERO) if isinstance(t, bool) else t, v)
        elif op in ("sitofp", "uitofp"):
            v = self.val(ins.a[0], ins.a[1])
            r = apply(lambda t: i2f((ONE if t else ZERO) if isinstance(t, bool) else t), v)
        elif op in ("fptosi", "fptoui"):
            r = apply(f2i, self.val(ins.a[0], ins.a[1]))
        elif op in ("fpext", "fptrunc"):
            r = apply(lambda t: mk(op, t), self.val(ins.a[0], ins.a[1]))
        elif op in ("bitcast", "ptrtoint", "inttoptr"):
            r = self.val(ins.a[0], ins.a[1])
            if op == "bitcast" and ins.a[1] in ("double", "float") and ins.ty.startswith("i"):
                r = apply(lambda t: patom(mk("bits", t)), r)
        elif op == "select":
            c = F.simp(self.cond(ins.a[0]))
            r = self.pin(ite(c, self.val(ins.a[1], ins.ty), self.val(ins.a[2], ins.ty)), ins.ty, F)
        elif op == "getelementptr":
            r = self.gep(ins.ty, ins.a)
        elif op == "alloca" and ins.res in self.tables:
            r = leaf(patom(self.glob(self.tables[ins.res])))
        elif op == "alloca":
            n = self.allocacnt.setdefault(ins.res, len(self.allocacnt))
            t = mk("alloca", ins.ty, n, self.fn.name)
            t.isptr = True
            r = leaf(patom(t))
        elif op == "load":
            p = self.val(ins.a[0], "ptr")
            tb = self.accesstb(ins, ins.a[0])
            ctx.events.append(Ev(kind="load", addr=p, guard=pc, doms=(), line=ins.line, file=self.fileof(ins), ins=ins, facts=F, ty=ins.ty))
            r = self.load(mem, p, tb, ins.ty)
        elif op == "store":
            v = self.val(ins.a[0], ins.ty)
            p = self.val(ins.a[1], "ptr")
            tb = self.accesstb(ins, ins.a[1])
            self.store(mem, p, v, tb, ins.ty, pc, ctx, ins)
            return
        elif op == "call":
            r = self.call(b, ins, pc, mem, ctx)
            if ins.res is None:
                return
        else:
            raise Unsupported("instruction " + ins.text)
        if ins.res is not None:
            self.env[ins.res] = r

    def divrem(self, a, c, what):
        if pisconst(c):
            n = pval(c)
            if n == 0:
                return patom(mk(what + "0", a))
            if n < 0:
                return patom(mk("s" + what, a, c))
            if n == 1:
                return a if what == "div" else ZERO
            if pisconst(a):
                x = pval(a)
                q = abs(x) // n * (1 if x >= 0 else -1)
                return pconst(q) if what == "div" else pconst(x - q * n)
            # exact split when the residue is a known constant and the value is non-negative
            q, r = {}, {}
            for m, k in a.args:
                if k // n:
                    q[m] = k // n
                if k % n:
                    r[m] = k % n
            if not r or (set(r) == {()} and self.facts.entails_ge(a)):
                q = mkp(q)
            else:
                # whole multiples of a value that is not negative come out of the division
                rp, qp = mkp(r), mkp(q)
                if qp is not ZERO and self.facts.entails_ge(a) and self.facts.entails_ge(rp):
                    q = padd(qp, patom(mk("sdiv", rp, n)))
                else:
                    q = patom(mk("sdiv", a, n))
            if what == "div":
                return q
            return psub(a, pscale(q, n))
        # symbolic divisor: a value that cannot pass it by more than reaching it
        over = psub(a, c)
        if self.facts.entails_ge(a) and self.facts.entails_ge(pscale(over, -1)) and self.facts.entails_ge(padd(c, pconst(-1))):
            at = atom_ge0(over, self.facts)
            return ite(at, leaf(pconst(1) if what == "div" else ZERO), leaf(ZERO if what == "div" else a))
        y = psingle(c)
        q = None
        if y is not None:
            qd, rd = {}, {}
            for m, k in a.args:
                if y in m:
                    l = list(m)
                    l.remove(y)
                    qd[tuple(l)] = qd.get(tuple(l), 0) + k
                else:
                    rd[m] = k
            qp, rp = mkp(qd), mkp(rd)
            if self.facts.entails_ge(rp) and self.facts.entails_ge(psub(padd(c, pconst(-1)), rp)):
                q = qp
        if q is None:
            q = patom(mk("sdivp", a, c))
        if what == "div":
            return q
        return psub(a, pmul(q, c))

    def icmp(self, ins):
        p, x, y = ins.a
        F = self.facts
        if ins.ty == "i1":
            u, v = self.asbool(self.val(x, "i1")), self.asbool(self.val(y, "i1"))
            e = ite(u, v, NOT(v))
            if p == "eq":
                return e
            if p == "ne":
                return NOT(e)
            raise Unsupported("i1 compare")
        u, v = self.val(x, ins.ty), self.val(y, ins.ty)
        uns = p[0] == "u"
        if uns:
            p = "s" + p[1:]

        def f(a, c):
            if uns:
                # against the ends of the unsigned range; sizes are taken to stay below 2^63
                def eq0(t):
                    e = ptreq(t, ZERO, F)
                    return atom_eq0(t, F) if e is None else e
                q, l, r = p, a, c
                if q in ("sgt", "sge"):
                    q, l, r = {"sgt": "slt", "sge": "sle"}[q], c, a
                if pisconst(l) and pval(l) == 0:
                    return TRUE if q == "sle" else NOT(eq0(r))
                if pisconst(r) and pval(r) == 0:
                    return eq0(l) if q == "sle" else FALSE
                if pisconst(r) and pval(r) == 1 and q == "slt":
                    return eq0(l)
                if pisconst(l) and pval(l) == 1 and q == "sle":
                    return NOT(eq0(r))
                if pisconst(r) and pval(r) == -1:
                    return TRUE if q == "sle" else NOT(eq0(padd(l, ONE)))
                if pisconst(l) and pval(l) == -1:
                    return FALSE if q == "slt" else eq0(padd(r, ONE))
            if p in ("eq", "ne"):
                e = ptreq(a, c, F)
                if e is None:
                    e = atom_eq0(psub(a, c), F)
                return e if p == "eq" else NOT(e)
            if p == "slt":
                return atom_ge0(padd(psub(c, a), pconst(-1)), F)
            if p == "sle":
                return atom_ge0(psub(c, a), F)
            if p == "sgt":
                return atom_ge0(padd(psub(a, c), pconst(-1)), F)
            if p == "sge":
                return atom_ge0(psub(a, c), F)
            raise Unsupported("icmp " + p)
        return F.simp(apply(f, u, v))

    # ------------------------------------------------------------- calls
    def argleaf(self, t):
        """canonical argument term"""
        if isinstance(t, T) and t.op == "p":
            return self.canon(t)
        return t

    def textver(self, w, addr):
        """a memory version as the text found at addr: nothing follows a leading zero"""
        if isinstance(w, T):
            if w.op == "set" and w.args[2] is self.canon(addr) and w.args[3] is ZERO:
                return mk("sym", "empty text")
            if w.op == "st" and w.args[2] in (addr, self.canon(addr)) and (w.args[3] is ZERO or isinstance(w.args[3], DD) and w.args[3].leaf is ZERO):
                return mk("sym", "empty text")
        return w

    def content(self, mem, a, scalar="omnipotent char"):
        """version of the memory a pointer argument refers to"""
        if not isinstance(a, T) or a.op != "p":
            return None
        base, off = pptr(a)
        if base is None or base.op == "str":
            return None
        return self.getmem(mem, ("E", self.origin(base), scalar))

    def call(self, b, ins, pc, mem, ctx):
        callee = ins.a[0]
        if callee.startswith("@"):
            return self.call1(b, ins, pc, mem, ctx, callee[1:])
        fp = self.known(ctx, pc, constrain(self.val(callee, "ptr"), pc))
        fs = []
        for l in leaves(fp):
            if isinstance(l, T) and l.op == "BOT":
                continue
            g = psingle(l) if isinstance(l, T) and l.op == "p" else None
            if g is None or g.op != "glob":
                return self.call1(b, ins, pc, mem, ctx, "*" + show(fp))
            fs.append((l, g.args[0]))
        r = None
        mem0 = dict(mem)
        for n, (l, name) in enumerate(fs):
            # one of several known functions: each is called under its own condition
            c = apply(lambda v: TRUE if v is l else FALSE, fp)
            m = mem if n == 0 else dict(mem0)
            x = self.call1(b, ins, AND(pc, c), m, ctx, name)
            if n == 0:
                r = x
                continue
            for reg in set(m) | set(mem):
                p, q = self.getmem(m, reg), self.getmem(mem, reg)
                if p is not q:
                    mem[reg] = ite(c, p, q)
            r = ite(c, x, r) if x is not None and r is not None else r
        return r

    def call1(self, b, ins, pc, mem, ctx, name, args=None):
        rawargs = ins.a[1]
        if name.startswith("llvm.lifetime") or name.startswith("llvm.assume") or name.startswith("llvm.stack") or name.startswith("llvm.va"):
            return None
        if args is None:
            args = [self.val(v, t) for t, v in rawargs if t != "metadata"]
        F = ctx.facts

        def event(kind="call", **k):
            e = Ev(kind=kind, callee=name, args=args, guard=pc, doms=(), line=ins.line, file=self.fileof(ins), ins=ins, facts=F, ty=ins.ty, **k)
            ctx.events.append(e)
            return e

        def res(t):
            if ins.ty == "ptr":
                t.isptr = True
                return patom(t)
            if ins.ty in ("double", "float"):
                return t
            if ins.ty == "i1":
                return lit(mk("bool", t))
            return patom(t)

        if name.startswith("llvm.is.fpclass"):
            mask = pval(args[1].leaf)
            return F.simp(apply(lambda a: fpclass(a, mask), args[0]))
        m = re.match(r"llvm\.(fabs|sqrt|floor|ceil|hypot|smax|smin|umax|umin|abs|fmuladd|trunc|rint)\.", name)
        if m:
            nm = m.group(1)
            if nm in ("smax", "umax", "smin", "umin"):
                return apply(lambda a, c: ite(atom_ge0(psub(a, c), F), leaf(a), leaf(c)) if nm.endswith("max") else ite(atom_ge0(psub(c, a), F), leaf(a), leaf(c)), args[0], args[1])
            name = nm
        if name in PURE:
            return apply(lambda *a: res(pcall(name, a)), *args)
        if name in ("llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "memcpy", "memmove"):
            return self.memcpy(name, args, pc, mem, ctx, ins, event)
        if name in ("llvm.memset.p0.i64", "memset"):
            return self.memset(args, pc, mem, ctx, ins, event)
        if name in STRREAD:
            event()
            r = []

            def f(*a):
                parts = []
                vers = []
                if name in ("strcmp", "strcasecmp"):
                    l = [_lit(x) for x in a]
                    if None not in l:
                        l = [x.lower() for x in l] if name == "strcasecmp" else l
                        return leaf(pconst((l[0] > l[1]) - (l[0] < l[1])))
                for x in a:
                    parts.append(self.argleaf(x))
                    c = self.content(mem, x)
                    if c is not None:
                        vers.append(c)
                return apply(lambda *vs: res(mk("call", name, tuple(parts), tuple(vs))), *vers) if vers else res(mk("call", name, tuple(parts), ()))
            return apply(f, *args)
        if name == "free" or name == "gu_free2d":
            event()
            return None
        if name == "calloc" and ins.res and not all(l.op == "p" and pisconst(l) for a in args for l in leaves(a)):
            # storage of a computed size that is filled with zeros
            n = apply(pmul, args[0], args[1])
            r = self.call1(b, ins, pc, mem, ctx, "malloc", [n])
            self.memset([r, leaf(ZERO), n], pc, mem, ctx, ins, event)
            return r
        if name == "calloc" and ins.res:
            # a structure whose members are all zero
            fs = self.structof(ins, pval(args[0].leaf) * pval(args[1].leaf))
            if fs is not None:
                tys = {"int": "i32", "double": "double", "any pointer": "ptr", "long": "i64", "omnipotent char": "i32"}
                r = self.call1(b, ins, pc, mem, ctx, "malloc", [apply(pmul, args[0], args[1])])
                for off, sc, holder, inoff in fs:
                    self.store(mem, apply(lambda x: padd(x, pconst(off)), r), leaf(F0 if sc == "double" else ZERO), ("F", holder, inoff, sc), tys[sc], pc, ctx, ins)
                return r
        if name in ALLOC:
            tag = self.alloctag(ins)
            al = tuple(self.argleaf(l) for a in args for l in [a])
            key = (name, al, tag)
            n = self.alloccnt.get(key, 0)
            self.alloccnt[key] = n + 1
            ks = tuple(mk("k", d) for d in range(ctx.depth + 1))
            t = mk("alloc", name, al, tag, n, ks)
            t.isptr = True
            e = event()
            e.res = t
            return leaf(patom(t))
        if name == "realloc":
            e = event()
            if ins.res is None or not re.search(re.escape(ins.res) + r"(?![\w.])", "\n".join(i.text for x in self.fn.blocks.values() for i in x.insts if i is not ins)):
                e.callee = "realloc with the result dropped"
            return args[0]
        model = self.models.get(name)
        if model is not None:
            return self.modelcall(name, model, args, rawargs, pc, mem, ctx, ins, event, res)
        if name in OUTPUT:
            i = OUTPUT[name]
            st = args[i] if i is not None else self.load(mem, leaf(patom(self.glob("stdout"))), ("S", "any pointer"), "ptr")
            rest = [a for j, a in enumerate(args) if j != i]
            e = event("out")
            e.res = st
            isstderr = st.var is None and is_stream(st.leaf, "stderr")
            if isstderr and not self.keepstderr:
                return leaf(res(mk("outres"))) if ins.res else None
            reg = ("W", "out")

            def cstr(t):
                b, off = pptr(t) if isinstance(t, T) and t.op == "p" else (None, None)
                if b is not None and b.op == "str" and pisconst(off):
                    return b.args[0][pval(off):] if isinstance(b.args[0], (bytes, str)) else None
                return None

            def lit_(v, st_, s):
                if not s:
                    return v
                if v.op == "io" and v.args[2] == "lit" and v.args[3] is st_:
                    return mk("io", reg, v.args[1], "lit", st_, v.args[4] + s)
                return mk("io", reg, v, "lit", st_, s)

            def conv(v, st_, spec, a):
                t = cstr(a)
                if spec == "%s" and t is not None:
                    return lit_(v, st_, t)
                if spec == "%c" and isinstance(a, T) and pisconst(a):
                    return lit_(v, st_, self.mkstr(chr(pval(a) & 255)))
                pl = [self.argleaf(a)]
                c = self.content(mem, a) if spec.endswith("s") else None
                if c is not None:
                    c = constrain(c, pc)
                    return apply(lambda t: mk("io", reg, v, spec, st_, tuple(pl) + (t,)), c)
                return mk("io", reg, v, spec, st_, tuple(pl))

            def on(fn, v, *a):
                return apply(lambda w: fn(w, *a), v) if isinstance(v, DD) else fn(v, *a)

            def f(v, s, *a):
                if name in ("printf", "fprintf"):
                    fmt = cstr(a[0])
                    if fmt is not None:
                        txt = fmt.decode("latin1") if isinstance(fmt, bytes) else fmt
                        n = 1
                        for piece in re.split(r"(%[-+ #0]*(?:\*|\d+)?(?:\.(?:\*|\d+))?(?:hh|h|ll|l|z|L)?[a-zA-Z%])", txt):
                            if piece == "%%":
                                v = on(lit_, v, s, self.mkstr("%"))
                            elif piece.startswith("%") and len(piece) > 1 and "*" not in piece:
                                v = on(conv, v, s, piece, a[n] if n < len(a) else ZERO)
                                n += 1
                            elif piece:
                                v = on(lit_, v, s, self.mkstr(piece))
                        return v
                elif name in ("puts", "fputs"):
                    v = on(conv, v, s, "%s", a[0])
                    return on(lit_, v, s, self.mkstr("\n")) if name == "puts" else v
                elif name in ("putchar", "fputc", "putc"):
                    return conv(v, s, "%c", a[0])
                pl = []
                for x in a:
                    c = self.content(mem, x)
                    pl.append(self.argleaf(x))
                    if c is not None:
                        c = constrain(c, pc)
                        if c.var is not None:
                            raise Unsupported("output of conditional data")
                        pl.append(c.leaf)
                return mk("io", reg, v, name, s, tuple(pl))
            mem[reg] = apply(f, self.getmem(mem, reg), st, *rest)
            e.region = reg
            return leaf(res(mk("outres"))) if ins.res else None
        if name == "fflush":
            event()
            return leaf(ZERO)
        if name in ("fgets", "getline", "fread"):
            event()
            reg = ("W", "in")
            v = self.getmem(mem, reg)
            nv = apply(lambda w, *a: mk("io", reg, w, name, tuple(self.argleaf(x) for x in a), ()), v, *args)
            mem[reg] = nv
            bufs = args[0]
            for a in leaves(bufs):
                base, off = pptr(a)
                if base is None:
                    raise Unsupported("%s into an unknown object" % name)
                r2 = ("E", self.origin(base), "omnipotent char")
                mem[r2] = apply(lambda w, o: mk("clob", canonreg(r2), w, off), nv, self.getmem(mem, r2))
                ctx.events.append(Ev(kind="clob", region=r2, guard=pc, doms=(), line=ins.line, file=self.fileof(ins), ins=ins, facts=F))
            ctx.events.append(Ev(kind="clob", region=reg, guard=pc, doms=(), line=ins.line, file=self.fileof(ins), ins=ins, facts=F))
            return apply(lambda w: res(mk("call", name, (w,), ())), nv)
        if name in ("sscanf", "__isoc99_sscanf", "__isoc23_sscanf"):
            event()
            c = None
            outs = []

            def f(*a):
                vers = []
                x = self.content(mem, a[0])
                parts = [self.argleaf(a[0]), a[1]]
                if x is None:
                    return mk("call", "sscanf", tuple(parts), ())
                return apply(lambda v: mk("call", "sscanf", tuple(parts), (v,)), x)
            ct = apply(f, args[0], args[1])
            fmt = args[1].leaf
            sfmt = ""
            bb, _ = pptr(fmt)
            if bb is not None and bb.op == "str":
                sfmt = bb.args[0]
            conv = re.findall(r"%[^%a-zA-Z]*(l?[a-zA-Z])", sfmt.replace("%%", ""))
            for i, o in enumerate(args[2:]):
                cv = conv[i] if i < len(conv) else "?"
                ty = {"d": "i32", "i": "i32", "lf": "double", "ld": "i64"}.get(cv, "i8")
                sc = {"i32": "int", "double": "double", "i64": "long"}.get(ty, "omnipotent char")
                for a in leaves(o):
                    base = pptr(a)[0] if isinstance(a, T) and a.op == "p" else None
                    if cv in ("]", "s") or cv == "?" or ty == "i8":
                        if base is not None and o.var is None:
                            # the text it held, or the new one
                            r2 = ("E", self.origin(base), "omnipotent char")
                            mem[r2] = apply(lambda w, t: mk("clob", canonreg(r2), self.textver(w, a), self.canon(a), mk("out", t, i)), self.getmem(mem, r2), ct)
                            ctx.events.append(Ev(kind="clob", region=r2, guard=pc, doms=(), line=ins.line, file=self.fileof(ins), ins=ins, facts=F))
                            continue
                    tb = self.fieldtb(rawargs[2 + i][1], ty)
                    vdd = apply(lambda t: (mk("out", t, i) if ty == "double" else patom(mk("out", t, i))), ct)
                    self.store(mem, o if o.var is None else leaf(a), vdd, tb or ("S", sc), ty, pc, ctx, ins)
            return apply(lambda t: patom(t), ct)
        if name in self.M.noreturn:
            return None
        if name in ("drand48", "rand", "random", "srand48", "srand", "time", "strtok", "strtod", "strtol"):
            return self.generic(name, args, rawargs, pc, mem, ctx, ins, event, res, name if name not in ("drand48", "srand48") else "rand48")
        if name in self.M.fns:
            if name == self.fn.name or name in self.M.rec:
                return self.generic(name, args, rawargs, pc, mem, ctx, ins, event, res, "rec:" + name)
            return self.generic(name, args, rawargs, pc, mem, ctx, ins, event, res, "proj")
        return self.generic(name, args, rawargs, pc, mem, ctx, ins, event, res, "ext")

    def fieldtb(self, a, ty):
        """field a pointer argument refers to: from its address computation"""
        if not a.startswith("%"):
            return None
        base, ins = a, self.definst(a)
        while ins is not None and ins.op in ("phi", "select", "freeze"):
            return None
        off = 0
        if ins is not None and ins.op == "getelementptr" and ins.ty.startswith("%") and all(re.match(r"\d+$", o) for t, o in ins.a[1:]):
            base = ins.a[0][1]
            st = ins.ty
            idx = [int(o) for t, o in ins.a[1:]]
            if len(idx) == 2 and idx[0] == 0:
                return ("F", self.tbname(st), ir.layout(self.M, st)[2][idx[1]])
            return None
        # the first field: the pointer itself; some other use tells the type
        for b in self.fn.order:
            for i in self.fn.blocks[b].insts:
                if i.op == "getelementptr" and i.a[0][1] == base and i.ty.startswith("%"):
                    return ("F", self.tbname(i.ty), 0)
                if i.op in ("load", "store"):
                    p = i.a[0] if i.op == "load" else i.a[1]
                    if p == base:
                        t = ir.tbaa_info(self.M, i.tbaa)
                        if t and t[0] == "F":
                            return t
        return None

    def accesstb(self, ins, ptr):
        """what a load or store is of: the type tag, or the structure field its address was computed as"""
        tb = ir.tbaa_info(self.M, ins.tbaa)
        if tb is None and ins.op in ("load", "store"):
            # left by a block copy that was taken apart
            m = re.search(r"(?:= load|store)\s+(double|i32|i64|ptr)\b", ins.text)
            sc = m and {"double": "double", "i32": "int", "i64": "long", "ptr": "any pointer"}[m.group(1)]
            return sc and ptr.startswith("%") and self.fieldpath(ptr, sc) or None
        if tb is None or tb[0] == "F" or not ptr.startswith("%"):
            return tb
        k = (ptr, tb[1])
        if k not in self.acc:
            self.acc[k] = self.fieldpath(ptr, tb[1]) or tb
        return self.acc[k]

    def fieldpath(self, ptr, sc):
        ins = self.definst(ptr)
        cand = []
        at = 0
        while ins is not None and ins.op == "getelementptr" and ins.ty == "i8" and len(ins.a) == 2 and re.match(r"\d+$", ins.a[1][1]):
            at += int(ins.a[1][1])          # by bytes, as block copies are taken apart
            ptr = ins.a[0][1]
            ins = self.definst(ptr)
        if at:
            st = self.pointee(ptr, ins)
            path = st and self.pathto(st, at)
            if path:
                cand.append((st, path))
        elif ins is not None and ins.op == "getelementptr" and ins.ty.startswith("%"):
            idx = [o for t, o in ins.a[1:]]
            if all(re.match(r"\d+$", o) for o in idx) and len(idx) > 1 and idx[0] == "0":
                cand.append((ins.ty, [int(o) for o in idx[1:]]))
        elif ins is None or ins.op in ("call", "load"):
            # the first field: the pointer itself; another use of it tells the structure
            sts = {i.ty for b in self.fn.order for i in self.fn.blocks[b].insts if i.op == "getelementptr" and i.a[0][1] == ptr}
            if len(sts) == 1 and list(sts)[0].startswith("%"):
                cand.append((list(sts)[0], [0]))
        for st, path in cand:
            r = None
            while st.startswith("%") and path is not None:
                if st not in self.M.structs or ir.layout(self.M, st)[2] is None:
                    return None
                k = path.pop(0) if path else 0
                r = ("F", self.tbname(st), ir.layout(self.M, st)[2][k])
                body = self.M.structs[st]
                st = ir.split_top(body.strip("<>")[1:-1])[k].strip()
            if r is None or path or {"double": "double", "i32": "int", "i64": "long", "ptr": "any pointer"}.get(st) != sc:
                return None
            return r
        return None

    def pointee(self, ptr, ins):
        """the structure type a pointer is computed as, or is used as"""
        if ins is not None and ins.op == "getelementptr":
            st, idx = ins.ty, [o for t, o in ins.a[1:]]
            if not st.startswith("%") or not all(re.match(r"\d+$", o) for o in idx[1:]):
                return None
            for k in idx[1:]:
                if not st.startswith("%") or st not in self.M.structs:
                    return None
                st = ir.split_top(self.M.structs[st].strip("<>")[1:-1])[int(k)].strip()
            return st if st.startswith("%") else None
        sts = {i.ty for b in self.fn.order for i in self.fn.blocks[b].insts if i.op == "getelementptr" and i.a[0][1] == ptr and i.ty.startswith("%")}
        return list(sts)[0] if len(sts) == 1 else None

    def pathto(self, st, at):
        """the members to the scalar at an offset"""
        path = []
        while st.startswith("%"):
            offs = ir.layout(self.M, st)[2] if st in self.M.structs else None
            if not offs:
                return None
            k = max(i for i, o in enumerate(offs) if o <= at)
            at -= offs[k]
            path.append(k)
            st = ir.split_top(self.M.structs[st].strip("<>")[1:-1])[k].strip()
        return path if at == 0 else None

    def definst(self, v):
        b = self.defblk.get(v)
        if b is None:
            return None
        for i in self.fn.blocks[b].insts:
            if i.res == v:
                return i
        return None

    def tbname(self, st):
        n = st.lstrip("%").strip('"')
        n = re.sub(r"^(struct|union)\.", "", re.sub(r"\.\d+$", "", n))
        if n in ir.tbaa_names(self.M):
            return n
        s = ir.shape(self.M, st)            # unnamed structures are named by their shape
        return s if s in ir.tbaa_names(self.M) else n

    def generic(self, name, args, rawargs, pc, mem, ctx, ins, event, res, world):
        e = event()
        reg = ("W", world)
        v = self.getmem(mem, reg)

        vers = []
        for a in args:
            for l in leaves(a):
                if not isinstance(l, T) or l.op != "p":
                    continue
                base, _ = pptr(l)
                if base is None or base.op == "str":
                    continue
                org = self.origin(base)
                have = {r[2] for r in mem if r[0] == "E" and r[1] == org and len(r) == 3}
                for sc in sorted(have | set(SCALARS)):
                    vers.append(self.getmem(mem, ("E", org, sc)))
        n = len(args)

        def f(w, *a):
            return mk("io", reg, w, name, tuple(self.argleaf(x) for x in a[:n]) + tuple(a[n:]), ())
        nv = apply(f, v, *args, *vers)
        mem[reg] = nv
        ctx.events.append(Ev(kind="clob", region=reg, guard=pc, doms=(), line=ins.line, file=self.fileof(ins), ins=ins, facts=ctx.facts))
        # memory behind pointer arguments may change
        for (t, _), a in zip(rawargs, args):
            if t != "ptr":
                continue
            for l in leaves(a):
                if not isinstance(l, T) or l.op != "p":
                    continue
                base, off = pptr(l)
                if base is None or base.op == "str":
                    continue
                org = self.origin(base)
                if org[0] != "A":
                    continue
                for sc in SCALARS:
                    r2 = ("E", org, sc)
                    mem[r2] = apply(lambda w, o: mk("clob", canonreg(r2), w, o, off), nv, self.getmem(mem, r2))
                    ctx.events.append(Ev(kind="clob", region=r2, guard=pc, doms=(), line=ins.line, file=self.fileof(ins), ins=ins, facts=ctx.facts))
        r = apply(lambda w: res(mk("call", name, (w,), ())), nv)
        e.res = r
        return r

    def modelcall(self, name, model, args, rawargs, pc, mem, ctx, ins, event, res):
        e = event()
        if model.release:
            return None
        vers = []
        for i, sc in model.reads:
            for l in leaves(args[i]):
                c = self.content(mem, l, sc)
                if c is not None:
                    vers.append(c)
        if model.sees:
            for r in sorted((r for r in mem if r[0] in ("E", "F")), key=lambda r: str(canonreg(r))):
                o = r
                while isinstance(o, tuple) and o and o[0] != "A" and len(o) > 1 and isinstance(o[1], tuple):
                    o = o[1]
                if o and o[0] == "A":
                    continue
                w = mem[r]
                if w.var is None and isinstance(w.leaf, T) and w.leaf.op == "init":
                    continue
                vers.append(w)
        if model.world:
            reg = ("W", model.world)
            v = self.getmem(mem, reg)
            n = len(args)
            ct = apply(lambda w, *a: mk("io", reg, w, name, tuple(self.argleaf(x) for i, x in enumerate(a[:n]) if i not in model.outs), tuple(a[n:])), v, *args, *vers)
            mem[reg] = ct
            ctx.events.append(Ev(kind="clob", region=reg, guard=pc, doms=(), line=ins.line, file=self.fileof(ins), ins=ins, facts=ctx.facts))
        else:
            n = len(args)
            ct = apply(lambda *a: mk("call", name, tuple(self.argleaf(x) for i, x in enumerate(a[:n]) if i not in model.outs), tuple(a[n:])), *args, *vers)
        for i in model.outs:
            ty = model.sets.get(i, "double") if model.sets else "double"
            sc = {"i32": "int", "double": "double", "i64": "long", "ptr": "any pointer"}[ty]
            vdd = apply(lambda t: (mk("out", t, i) if ty == "double" else patom(mk2("out", t, i, ptr=(ty == "ptr")))), ct)
            self.store(mem, args[i], vdd, self.fieldtb(rawargs[i][1], ty) or ("S", sc), ty, pc, ctx, ins)
        if model.clob:
            for r2 in [r for r in mem if r[0] == "E" and r[2:] == ("double",)]:
                mem[r2] = apply(lambda w, o: mk("clob", canonreg(r2), w, o, ZERO), ct, mem[r2])
                ctx.events.append(Ev(kind="clob", region=r2, guard=pc, doms=(), line=ins.line, file=self.fileof(ins), ins=ins, facts=ctx.facts))
            mem[("H", "E")] = ct
        if ins.ty == "void":
            return None
        if model.alloc:
            tag = self.alloctag(ins)
            key = (name, tag)

            def al(t):
                kk = (t, tag)
                n = self.alloccnt.get(kk, 0)
                self.alloccnt[kk] = n + 1
                x = mk("alloc", name, (t,), tag, n, tuple(mk("k", d) for d in range(ctx.depth + 1)))
                x.isptr = True
                return patom(x)
            r = apply(al, ct)
        else:
            r = apply(lambda t: res(t if not model.world else mk("call", name, (t,), ())), ct)
        e.res = r
        return r

    def alloctag(self, ins):
        """struct field the allocation is first stored to (identity of the object)"""
        for b in self.fn.order:
            for i in self.fn.blocks[b].insts:
                if i.op == "store" and i.a[0] == ins.res:
                    t = ir.tbaa_info(self.M, i.tbaa)
                    if t and t[0] == "F":
                        return t
        return None

    @property
    def emptystr(self):
        for v in self.M.strings.values():
            return v[:0]
        return b""

    def mkstr(self, s):
        e = self.emptystr
        return s.encode("latin1") if isinstance(e, bytes) else s

    def memcpy(self, name, args, pc, mem, ctx, ins, event):
        if ins.a[1][0][1] in self.tables:
            return args[0]
        event()
        dst, src, n = args[0], args[1], args[2]
        rec = self.wholestruct(dst, src, n, mem)
        if rec is not None:
            tys = {"int": "i32", "double": "double", "any pointer": "ptr", "long": "i64", "omnipotent char": "i32"}
            for off, sc, holder, inoff in rec[1]:
                tb = ("F", holder, inoff, sc)
                move = lambda q: apply(lambda x: patom(padd(x, pconst(off))) if x.op != "p" else padd(x, pconst(off)), q)
                self.store(mem, move(dst), self.load(mem, move(src), tb, tys[sc]), tb, tys[sc], pc, ctx, ins)
            return dst
        if src.var is None and n.var is None and pisconst(n.leaf) and pptr(src.leaf)[0] is not None and pval(pptr(src.leaf)[1] if pisconst(pptr(src.leaf)[1]) else pconst(1)) == 0:
            # a short table of scalars, element by element
            b = pptr(src.leaf)[0]
            g = self.M.__dict__.get("tables", {}).get(b.args[0]) if b.op == "glob" else None
            m = re.match(r"\[(\d+) x (i32|i64|double|ptr)\]$", g[0]) if g is not None else None
            if m and int(m.group(1)) <= 16 and pval(n.leaf) == ir.sizeof(self.M, g[0]):
                ty = m.group(2)
                sc = {"i32": "int", "double": "double", "i64": "long", "ptr": "any pointer"}[ty]
                cs = [ir.const_at(self.M, g[0], g[1], i * ir.sizeof(self.M, ty)) for i in range(int(m.group(1)))]
                if all(c is not None and c[0] == ty for c in cs):
                    for i, c in enumerate(cs):
                        v = self.val("0x0" if ty == "double" and c[1] == "0" else c[1], ty)
                        self.store(mem, apply(lambda x: padd(x, pconst(i * ir.sizeof(self.M, ty))), dst), v, ("S", sc), ty, pc, ctx, ins)
                    return dst
        kinds = self.flags.get("memcpy_scalars", ("double", "int", "long", "any pointer", "omnipotent char"))
        for a in leaves(dst):
            base, off = pptr(a)
            if base is None:
                if a is ZERO:
                    continue
                raise Unsupported("copy or fill of an unknown object")
            org = self.origin(base)
            for sc in kinds:
                r2 = ("E", org, sc)

                def f(w, d, s, c):
                    sb, so = pptr(s)
                    sv = self.getmem(mem, ("E", self.origin(sb), sc)) if sb is not None else None
                    if sv is not None and sv.var is not None:
                        return apply(lambda z: mk("copy", canonreg(r2), w, self.canon(d), z, self.canon(s), c), sv)
                    return mk("copy", canonreg(r2), w, self.canon(d), sv.leaf if sv is not None else s, self.canon(s), c)
                mem[r2] = apply(f, self.getmem(mem, r2), dst, src, n)
                ctx.events.append(Ev(kind="clob", region=r2, guard=pc, doms=(), line=ins.line, file=self.fileof(ins), ins=ins, facts=ctx.facts))
        return dst

    def structof(self, ins, size):
        """the members of the structure of scalars an allocation is used as"""
        names = set()
        gep = {ins.res}
        for b in self.fn.order:
            for i in self.fn.blocks[b].insts:
                if i.op == "gep" and i.text.split("ptr ", 1)[1].split(",")[0] == ins.res:
                    gep.add(i.res)
        for b in self.fn.order:
            for i in self.fn.blocks[b].insts:
                if i.op in ("store", "load") and i.tbaa and re.search(r", ptr (%[\w.]+)", i.text) and re.search(r", ptr (%[\w.]+)", i.text).group(1) in gep:
                    t = ir.tbaa_info(self.M, i.tbaa)
                    if t and t[0] == "F":
                        names.add(t[1])
        c = [fs for nm, fs, n in ir.flatstructs(self.M) if n == size and (nm in names or not names)]
        if len(c) != 1 or len(names) > 1:
            return None
        end = 0
        for off, sc, holder, inoff in c[0]:
            if off - end >= ir.SIZES[sc]:
                return None      # something between that is not a scalar
            end = off + ir.SIZES[sc]
        return c[0]

    def wholestruct(self, dst, src, n, mem):
        """the one structure type a block of this size can be, with its scalar members"""
        if n.var is not None or not pisconst(n.leaf):
            return None
        for a in list(leaves(dst)) + list(leaves(src)):
            if not isinstance(a, T) or a.op != "p":
                return None
            base, off = pptr(a)
            if base is None or any(r[0] == "E" and r[1] == self.origin(base) for r in mem):
                return None
        c = [(nm, fs) for nm, fs, size in ir.flatstructs(self.M) if size == pval(n.leaf)]
        return c[0] if len(c) == 1 else None

    def memset(self, args, pc, mem, ctx, ins, event):
        event()
        dst, val, n = args[0], args[1], args[2]
        for a in leaves(dst):
            base, off = pptr(a)
            if base is None:
                if a is ZERO:
                    continue
                raise Unsupported("copy or fill of an unknown object")
            org = self.origin(base)
            for sc in ("double", "int", "long", "any pointer", "omnipotent char"):
                r2 = ("E", org, sc)
                mem[r2] = apply(lambda w, d, x, c: mk("set", canonreg(r2), w, self.canon(d), x, c), self.getmem(mem, r2), dst, val, n)
                ctx.events.append(Ev(kind="clob", region=r2, guard=pc, doms=(), line=ins.line, file=self.fileof(ins), ins=ins, facts=ctx.facts))
        return dst


# ------------------------------------------------------------------ helpers
def mkp(d):
    from .terms import _mkpoly
    return _mkpoly(d)


def mk2(op, *args, ptr=True):
    t = mk(op, *args)
    if ptr:
        t.isptr = True
    return t


def canonreg(r):
    """region name with local buffers named by type only"""
    if isinstance(r, tuple):
        if len(r) == 2 and r[0] == "A" and isinstance(r[1], T):
            return ("A", r[1].args[0])
        return tuple(canonreg(x) for x in r)
    return r


def verregion(v):
    if v.op == "init":
        return v.args[0]
    if v.op == "memmu":
        return v.args[1]
    return v.args[0]


def isfresh(t):
    return t is not None and t.op in ("alloc", "alloca", "loc")


def separate(a, b):
    """two objects that cannot be one: a new one differs from other new ones and from all there were on entry"""
    def old(t):
        return t.op in ("param", "glob", "str") or t.op == "ld" and t.args[0].op == "init"
    return a is not b and (isfresh(a) and isfresh(b) or isfresh(a) and old(b) or isfresh(b) and old(a))


def psubst(p, atom, by):
    r = ZERO
    for m, c in p.args:
        t = pconst(c)
        for a in m:
            t = pmul(t, by if a is atom else patom(a))
        r = padd(r, t)
    return r


_ren = {}
ALLCACHES.append(_ren)
def rebuild(x, args):
    if all(a is b for a, b in zip(args, x.args)):
        return x
    if x.op in FCONS:
        return FCONS[x.op](*args)
    if x.op == "ld":
        args = (args[0].leaf if isinstance(args[0], DD) and args[0].var is None else args[0],) + args[1:]
    t = mk(x.op, *args)
    t.isptr = x.isptr
    return t


FCONS = {"fadd": fadd, "fmul": fmul, "fdiv": fdiv, "fneg": fneg}


def missing(d, seen=frozenset(), memo=None):
    """a value known to be not a number is NaN"""
    if d.var is None:
        return leaf(FNAN) if d.leaf in seen else d
    if not any(a.op == "nan" for a in d.sup) and not seen:
        return d
    memo = {} if memo is None else memo
    r = memo.get((d, seen))
    if r is None:
        hi = seen | {d.var.args[0]} if d.var.op == "nan" else seen
        h, l = missing(d.hi, hi, memo), missing(d.lo, seen, memo)
        if d.var.op == "nan" and missing(l, hi, memo) is h:
            r = l                # NaN if it is not a number and itself otherwise
        else:
            r = ite(lit(d.var), h, l)
        memo[(d, seen)] = r
    return r


def rename(x, ren):
    """rename loop counters inside polys (also inside nested address terms)"""
    if isinstance(x, T):
        if x in ren:
            return ren[x]
        if not any(k.args[0] in fv(x) for k in ren):
            return x
        if x.op == "p":
            r = ZERO
            for m, c in x.args:
                t = pconst(c)
                for a in m:
                    b = rename(a, ren)
                    t = pmul(t, patom(b))
                r = padd(r, t)
            return r
        args = tuple(rename(a, ren) if isinstance(a, (T, tuple)) else a for a in x.args)
        if x.op in FCONS:
            return FCONS[x.op](*args)
        t = mk(x.op, *args)
        t.isptr = x.isptr
        return t
    if isinstance(x, tuple):
        return tuple(rename(a, ren) for a in x)
    return x


def is_stream(t, name):
    if t.op != "p":
        return False
    a = psingle(t)
    if a is None or a.op != "ld":
        return False
    b = psingle(a.args[1])
    return b is not None and b.op == "glob" and b.args[0] == name


def i2f(p):
    if pisconst(p):
        return fconst(float(pval(p)))
    s = psingle(p)
    if s is not None and s.op == "f2i" and False:
        return s
    return mk("i2f", p)


def f2i(t):
    if t.op == "i2f":
        return t.args[0]
    if t.op == "f":
        v = fval(t)
        if v == v and abs(v) < 2 ** 62:
            return pconst(int(v))
    return patom(mk("f2i", t))


def xfadd(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == "i2f" and y.op == "f" and fval(y) == int(fval(y)) and abs(fval(y)) < 2 ** 30:
            return i2f(padd(x.args[0], pconst(int(fval(y)))))
    return fadd(a, b)


SYM2 = {"hypot", "fmin", "fmax"}


def pcall(name, a):
    a = list(a)
    if name in ("fabs", "cos", "hypot"):
        a = [x.args[0] if isinstance(x, T) and x.op == "fneg" else x for x in a]
    if name == "hypot":
        return mk("fn", "sqrt", fadd(fmul(a[0], a[0]), fmul(a[1], a[1])))
    if name in SYM2:
        a = sorted(a, key=lambda t: t.uid)
    if name == "floor" and isinstance(a[0], T) and a[0].op == "i2f":
        return a[0]
    return mk("fn", name, *a)


def isinf(a):
    a = absroot(a)
    return AND(NOT(nanatom(a)), lit(mk("cls", 516, a)))


def absroot(a):
    while a.op == "fneg" or a.op == "fn" and a.args[0] == "fabs":
        a = a.args[0] if a.op == "fneg" else a.args[1]
        if type(a) is tuple:
            a = a[0]
    return a


def fpclass(a, mask):
    if a.op == "fneg":
        m2 = mask & 3
        for i in range(2, 10):
            if mask >> i & 1:
                m2 |= 1 << (11 - i)
        return fpclass(a.args[0], m2)
    if a.op == "f":
        v = fval(a)
        if v != v:
            return bool(mask & 3)
        if v in (float("inf"), float("-inf")):
            return bool(mask & (512 if v > 0 else 4))
        return bool(mask & (0x1f8))  # coarse: finite class tests only
    if a.op == "i2f":
        if mask & 3 == 3 and not mask & ~3:
            return False
        if mask & 0x1f8 == 0x1f8:
            return True
    full = 1023
    inf = mask & 516
    if inf in (0, 516) and mask & 3 in (0, 3) and mask & 504 in (0, 504):
        # a number is missing, infinite or finite
        n, i = nanatom(a), isinf(a)
        r = FALSE
        if mask & 3:
            r = OR(r, n)
        if inf:
            r = OR(r, i)
        if mask & 504:
            r = OR(r, NOT(OR(n, i)))
        return r
    if mask & 3 == 3 and mask != 3:
        return NOT(lit(mk("cls", full & ~mask, a)) if (full & ~mask) else FALSE)
    if mask == 3:
        return nanatom(a)
    if mask == full & ~3:
        return NOT(nanatom(a))
    return lit(mk("cls", mask, a))


NANPAIR = {}      # field of y rows -> field of x rows: both coordinates of a node are missing together


def nanalias(a):
    """the x coordinate that is missing exactly when this y coordinate is"""
    if a.op == "ld" and a.args[0].op == "init" and NANPAIR:
        b, off = pptr(a.args[1])
        if b is not None and b.op == "ld" and b.args[0].op == "init":
            c, off2 = pptr(b.args[1])
            if c is not None and c.op == "ld" and c.args[0].op == "init":
                f = c.args[0].args[0]
                g = NANPAIR.get(f)
                if g is not None:
                    d, o = pptr(c.args[1])
                    if d is not None:
                        def ld(reg, addr):
                            t = mk("ld", mk("init", reg), addr)
                            t.isptr = True
                            return t
                        fx = ld(g, padd(patom(d), padd(o, pconst(g[2] - f[2]))))
                        row = ld(("E", ("D", g), "any pointer"), padd(patom(fx), off2))
                        return mk("ld", mk("init", ("E", ("D", ("E", ("D", g), "any pointer")), "double")), padd(patom(row), off))
    return a


terms.ALIAS = nanalias


def nanatom(a):
    a = nanroot(a)
    if a.op == "f":
        return TRUE if fval(a) != fval(a) else FALSE
    if a.op == "i2f":
        return FALSE
    return lit(mk("nan", a))


def flt(a, b):
    if a is b:
        return FALSE
    if a.op == "f" and b.op == "f":
        return TRUE if fval(a) < fval(b) else FALSE
    for x in (a, b):
        if x.op == "f" and fval(x) != fval(x):
            return FALSE
    if a.op == "fneg" and (b.op == "fneg" or b.op == "f"):
        return flt(fneg(b), a.args[0])
    if b.op == "fneg" and a.op == "f":
        return flt(b.args[0], fneg(a))
    if a.op == "i2f" and b.op == "i2f":
        return atom_ge0(padd(psub(b.args[0], a.args[0]), pconst(-1)))
    if a.op == "i2f" and b.op == "f" and abs(fval(b)) < 2 ** 40:
        import math
        c = fval(b)           # p < c  <=> p <= ceil(c)-1
        return atom_ge0(psub(pconst(math.ceil(c) - 1), a.args[0]))
    if b.op == "i2f" and a.op == "f" and abs(fval(a)) < 2 ** 40:
        import math
        return atom_ge0(psub(b.args[0], pconst(math.floor(fval(a)) + 1)))
    if b.op == "fn" and b.args[0] == "fabs" and a.op == "f" and fval(a) >= 0:
        x = fabsarg(b)
        return OR(flt(a, x), flt(x, fneg(a)))
    if a.op == "fn" and a.args[0] == "fabs" and b.op == "f":
        x = fabsarg(a)
        return AND(flt(fneg(b), x), flt(x, b)) if fval(b) > 0 else FALSE
    return lit(fcmpterm("flt", a, b))


def fabsarg(t):
    return t.args[1][0] if type(t.args[1]) is tuple else t.args[1]


_crep = {}
ALLCACHES.append(_crep)


def fcmpterm(op, a, b):
    """a < b and c < d are one atom when b - a = d - c over the same atoms"""
    if a.op != "f" and b.op != "f":
        d = (fingerprint(b) - fingerprint(a)) % PRIME
        if op == "feq":
            d = min(d, PRIME - d)
        k = (op, d, fatoms(a) | fatoms(b))
        t = _crep.get(k)
        if t is None:
            t = _crep[k] = mk(op, a, b)
        return t
    return mk(op, a, b)


def feq(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == "f" and fval(x) == float("inf") and y.op == "fn" and y.args[0] == "fabs":
            return isinf(y)
    if a.op == "f" and b.op == "f":
        return TRUE if fval(a) == fval(b) else FALSE
    if a is b:
        return NOT(nanatom(a))
    if a.op == "fneg" and (b.op in ("fneg", "f")):
        return feq(a.args[0], fneg(b))
    if b.op == "fneg" and a.op == "f":
        return feq(fneg(a), b.args[0])
    if a.op == "i2f" and b.op == "i2f":
        return atom_eq0(psub(a.args[0], b.args[0]))
    if a.op == "i2f" and b.op == "f":
        c = fval(b)
        return atom_eq0(psub(a.args[0], pconst(int(c)))) if c == int(c) else FALSE
    if b.op == "i2f" and a.op == "f":
        return feq(b, a)
    if b.op == "f" or (a.op != "f" and b.uid < a.uid):
        a, b = b, a
    if a.op == "f" and b.op == "fn" and b.args[0] == "fabs":
        x, c = fabsarg(b), fval(a)
        if c > 0:
            return OR(feq(x, a), feq(x, fneg(a)))
        return feq(x, a) if c == 0 else FALSE
    return lit(fcmpterm("feq", a, b))


def fcmp(p, a, b, F=None):
    if p == "true":
        return TRUE
    if p == "false":
        return FALSE
    un = lambda: OR(nanatom(a), nanatom(b))
    if p == "olt":
        return flt(a, b)
    if p == "ogt":
        return flt(b, a)
    if p == "oeq":
        return feq(a, b)
    if p == "ole":
        return OR(flt(a, b), feq(a, b))
    if p == "oge":
        return OR(flt(b, a), feq(a, b))
    if p == "one":
        return OR(flt(a, b), flt(b, a))
    if p == "ord":
        return NOT(un())
    if p == "uno":
        return un()
    if p == "une":
        return NOT(feq(a, b))
    if p == "ueq":
        return OR(un(), feq(a, b))
    if p == "ult":
        return NOT(fcmp("oge", a, b))
    if p == "ule":
        return NOT(flt(b, a))
    if p == "ugt":
        return NOT(fcmp("ole", a, b))
    if p == "uge":
        return NOT(flt(a, b))
    raise Unsupported("fcmp " + p)


SCALARS = ("double", "int", "long", "any pointer", "omnipotent char")
NEVERNULL = {"kd_getnodecoords"}    # addresses inside an array the callee owns (decided with the tree)
MALLOCOK = [False]     # premise of a comparison: storage requests succeed


def ptreq(a, c, F):
    """pointer equality special cases: fresh objects are not null and differ from others"""
    ba, oa = pptr(a)
    bb, ob = pptr(c)
    if ba is None and bb is None:
        return None
    if ba is not None and pisconst(c) and pval(c) == 0 and ba.op in ("alloca", "loc", "str", "glob"):
        return FALSE
    if bb is not None and pisconst(a) and pval(a) == 0 and bb.op in ("alloca", "loc", "str", "glob"):
        return FALSE
    for b, z in ((ba, c), (bb, a)):
        opened = b is not None and (b.op == "alloc" or b.op == "call" and b.args[0] in ("gu_fopen", "fopen"))
        if opened and any(is_stream(z, n) for n in ("stdin", "stdout", "stderr")):
            return FALSE
    for b, z in ((ba, c), (bb, a)):
        if b is not None and b.op == "call" and b.args[0] in NEVERNULL and pisconst(z) and pval(z) == 0:
            return FALSE
    if MALLOCOK[0]:
        for b, z in ((ba, c), (bb, a)):
            if b is not None and b.op == "alloc" and b.args[0] in ("malloc", "calloc") and pisconst(z) and pval(z) == 0:
                return FALSE
    return None
