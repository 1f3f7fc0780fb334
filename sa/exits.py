"""Loops that test an exit flag in their condition leave where the flag is set.

    for (i = 0; i < n && !done; ++i)        for (i = 0; i < n; ++i) {
        if (p(i)) done = 1;           =>        if (p(i)) done = 1;
                                                if (done) { ++i; break; }
                                            }

The test holds on entry (its value there is constant), so it only ever decides after an
iteration; it is moved there.  Works on parsed functions in closed (lcssa) form."""
from . import ir

PURE = {"icmp", "xor", "and", "or", "select", "zext", "sext", "trunc", "add", "sub"}


def dominators(fn):
    order, seen = [], set()

    def dfs(b):
        st = [(b, iter(fn.blocks[b].succs))]
        seen.add(b)
        while st:
            x, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(fn.blocks[s].succs)))
                    break
            else:
                order.append(x)
                st.pop()
    entry = next(iter(fn.blocks))
    dfs(entry)
    order.reverse()
    dom = {b: set(order) for b in order}
    dom[entry] = {entry}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [dom[p] for p in fn.blocks[b].preds if p in dom]
            n = set.intersection(*ps) | {b}
            if n != dom[b]:
                dom[b] = n
                ch = True
    return order, dom


def loops(fn):
    """(header, latch, body) outermost first"""
    order, dom = dominators(fn)
    out = []
    for h in order:
        ls = [p for p in fn.blocks[h].preds if p in dom and h in dom[p]]
        if len(ls) != 1:
            continue
        body, st = {h}, list(ls)
        while st:
            x = st.pop()
            if x not in body:
                body.add(x)
                st += fn.blocks[x].preds
        out.append((h, ls[0], body))
    return out


def operands(i):
    if i.op in ("icmp",):
        return i.a[1:]
    if i.op in ("zext", "sext", "trunc"):
        return i.a[:1]
    return i.a


def isconst(v):
    return not v.startswith("%") and not v.startswith("@")


def num(v):
    return {"true": 1, "false": 0}.get(v, int(v) if v.lstrip("-").isdigit() else None)


def evalc(t, x):
    """value of an expression tree with the flag at x; None if unknown"""
    if t == "F":
        return x
    if isinstance(t, str):
        return num(t)
    a = [evalc(y, x) for y in t[2:]]
    if any(y is None for y in a):
        return None
    op, ty = t[0], t[1]
    if op == "xor" and ty == "i1":
        return (a[0] ^ a[1]) & 1
    if op == "and" and ty == "i1":
        return a[0] & a[1] & 1
    if op == "or" and ty == "i1":
        return (a[0] | a[1]) & 1
    if op == "zext":
        return a[0]
    if op == "trunc" and a[0] in (0, 1):
        return a[0]
    if op.startswith("icmp."):
        p = op[5:]
        r = {"eq": a[0] == a[1], "ne": a[0] != a[1], "slt": a[0] < a[1], "sle": a[0] <= a[1], "sgt": a[0] > a[1], "sge": a[0] >= a[1]}.get(p)
        return None if r is None else int(r)
    return None


def transform(fn):
    n = 0
    known = {}
    for h, latch, body in loops(fn):
        n += one(fn, h, latch, body, known)
    if n:
        ir.finish(fn)
    return n


def one(fn, h, latch, body, known):
    H, L = fn.blocks[h], fn.blocks[latch]
    if h == latch or L.insts[-1].op != "br" or len(L.insts[-1].a) != 1:
        return 0
    br = H.insts[-1]
    if br.op != "br" or len(br.a) != 3:
        return 0
    stay = [x for x in br.a[1:] if x in body]
    out = [x for x in br.a[1:] if x not in body]
    if len(stay) != 1 or len(out) != 1:
        return 0
    X = out[0]
    want = br.a[1] == stay[0]
    defs = {i.res: i for i in H.insts if i.res}
    phis = {i.res: i for i in H.insts if i.op == "phi"}
    if any(i.op not in PURE and i.op != "phi" for i in H.insts[:-1]):
        return 0
    terms = []

    def split(v, pol):
        i = defs.get(v)
        if i is not None and i.op == "xor" and i.ty == "i1" and "true" in i.a:
            split([x for x in i.a if x != "true"][0], not pol)
        elif i is not None and pol and (i.op == "and" or i.op == "select" and i.a[2] == "false"):
            split(i.a[0], pol)
            split(i.a[1], pol)
        elif i is not None and not pol and (i.op == "or" or i.op == "select" and i.a[1] == "true"):
            split(i.a[0], pol)
            split(i.a[2 if i.op == "select" else 1], pol)
        else:
            terms.append((v, pol))
    split(br.a[0], want)
    done = 0
    for v, pol in terms:
        i = defs.get(v)
        if i is None:
            continue
        used = set()
        chain = []

        def tree(x):
            if x in phis:
                used.add(x)
                return "F"
            if isconst(x):
                return x
            d = defs.get(x)
            if d is None or d.op == "phi":
                used.add(None)
                return x
            t = tuple(tree(y) for y in operands(d))
            if d not in chain:
                chain.append(d)
            return (d.op + ("." + d.a[0] if d.op == "icmp" else ""), d.ty) + t
        t = tree(v)
        if len(used) != 1 or None in used:
            continue
        f = used.pop()
        phi = phis[f]
        inits = [x for x, p in phi.a if p != latch]
        ups = [x for x, p in phi.a if p == latch]
        if len(inits) != 1 or len(ups) != 1 or ups[0] == f:
            continue
        init = inits[0]
        seen = set()
        while init.startswith("%") and init not in seen:
            seen.add(init)
            d = next((y for b in fn.blocks.values() for y in b.insts if y.res == init), None)
            if d is not None and d.op == "phi" and len({x for x, p in d.a}) == 1:
                init = d.a[0][0]
            else:
                break
        c = num(init) if isconst(init) else None
        r = evalc(t, c) if c is not None else None
        if r is None:
            if (init, t, pol) not in known:
                continue
        elif bool(r) != pol:
            continue
        if ups[0] in defs and ups[0] not in phis:
            continue
        # a counter is not a flag: on some way to the latch the value stays
        if not keeps(fn, ups[0], f, body, set()):
            continue
        done += 1
        k = "%d" % (len(fn.blocks) * 1000 + done)
        ren = {p: next(x for x, q in d.a if q == latch) for p, d in phis.items()}
        clones = []

        def clone(x):
            if x in ren or isconst(x) or x not in defs:
                return ren.get(x, x)
            d = defs[x]
            new = ir.Inst()
            for s in ir.Inst.__slots__:
                setattr(new, s, getattr(d, s, None))
            if d.op == "icmp":
                new.a = [d.a[0]] + [clone(y) for y in d.a[1:]]
            elif d.op in ("zext", "sext", "trunc"):
                new.a = [clone(d.a[0])] + list(d.a[1:])
            else:
                new.a = [clone(y) for y in d.a]
            new.res = "%x" + d.res[1:] + "." + k
            ren[x] = new.res
            clones.append(new)
            return new.res
        cv = clone(v)
        XB = fn.blocks[X]
        for j in XB.insts:
            if j.op != "phi":
                break
            if any(p == latch for x, p in j.a):
                return done - 1
        for j in XB.insts:
            if j.op != "phi":
                break
            e = next((x for x, p in j.a if p == h), None)
            j.a = list(j.a) + [(clone(e), latch)]
        lb = L.insts[-1]
        L.insts[-1:] = clones + [lb]
        nb = ir.Inst()
        for s in ir.Inst.__slots__:
            setattr(nb, s, getattr(lb, s, None))
        nb.a = [cv, h, X] if pol else [cv, X, h]
        L.insts[-1] = nb
        # at the header the test now always holds
        always = "true" if pol else "false"
        if v in phis:
            phi.a = [(always, p) for x, p in phi.a]
        else:
            i.op, i.ty, i.a = "and", "i1", [always, always]
        eq = isinstance(t, tuple) and c is not None and (t[0] == "icmp.eq" and pol or t[0] == "icmp.ne" and not pol) and "F" in t[2:]
        if eq:
            phi.a = [(init, p) for x, p in phi.a]
        known[(f, t, pol)] = True
        L.succs = [h, X]
        if latch not in XB.preds:
            XB.preds.append(latch)
        break
    return done


def keeps(fn, v, f, body, seen):
    """is the flag f itself among the values v can be"""
    if v == f:
        return True
    if v in seen or not v.startswith("%"):
        return False
    seen.add(v)
    for b in body:
        for i in fn.blocks[b].insts:
            if i.res == v:
                if i.op == "phi":
                    return any(keeps(fn, x, f, body, seen) for x, p in i.a)
                if i.op == "select":
                    return any(keeps(fn, x, f, body, seen) for x in i.a[1:])
                return False
    return False
