"""Compile /repo's current C sources to LLVM IR (clang front end, no optimisation
beyond SSA construction and inlining of helpers) and parse the textual IR."""
import os
import re
import subprocess
import sys
import tempfile
import shutil

REPO = os.environ.get("GU_REPO", "/repo")
SRC = REPO + "/gridutils"
STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")


class BuildError(Exception):
    pass


class Fn:
    def __init__(self, name):
        self.name = name
        self.params = []      # (type, name)
        self.blocks = {}      # label -> Block (ordered)
        self.order = []
        self.internal = False
        self.varargs = False
        self.ret = "void"


class Block:
    def __init__(self, label):
        self.label = label
        self.insts = []
        self.succs = []
        self.preds = []


class Inst:
    __slots__ = ("res", "op", "ty", "a", "line", "tbaa", "text", "flags", "scope")

    def __repr__(self):
        return self.text


class Mod:
    def __init__(self):
        self.fns = {}
        self.decls = {}
        self.globals = {}     # name -> (type, init text, const)
        self.structs = {}
        self.md = {}
        self.strings = {}
        self.noreturn = set()


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("%s failed:\n%s" % (" ".join(cmd[:3]), p.stderr[-4000:]))
    return p.stdout


def compile_c(path, out, cwd=None, extra=()):
    inc = ["-I" + SRC]
    cfg = SRC + "/gridutilsconfig.h"
    if not os.path.exists(cfg):
        # configure output is git-ignored; an empty configuration is what this platform produces
        inc.append("-I" + STUBS + "/cfg")
    cmd = (["clang-18" if shutil.which("clang-18") else "clang", "-O1", "-Xclang", "-disable-llvm-passes",
         "-ffp-contract=off", "-fno-builtin", "-gline-tables-only", "-w", "-emit-llvm", "-S", "-D_GNU_SOURCE", *extra, *inc,
         "-I" + STUBS, path, "-o", out])
    try:
        run(cmd, cwd=cwd)
    except BuildError:      # a block copy between objects without element type
        run(cmd + ["-DSP_NOCOPY"], cwd=cwd)


def frontend(path, flags):
    """what the front end says about a source"""
    inc = ["-I" + SRC]
    if not os.path.exists(SRC + "/gridutilsconfig.h"):
        inc.append("-I" + STUBS + "/cfg")
    p = subprocess.run([tool("clang"), "-D_GNU_SOURCE", *flags, *inc, "-I" + STUBS, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("front end failed on %s:\n%s" % (path, p.stdout[-2000:]))
    return p.stdout


def tool(n):
    return n + "-18" if shutil.which(n + "-18") else n


def quitrewrite(ll):
    """calls through the quit hook never return: name them as one noreturn callee"""
    out = []
    q = set()
    n = 0
    for line in ll.split("\n"):
        if line.startswith("define"):
            q = set()
        m = re.match(r"\s+(%[\w.]+) = load ptr, ptr @gu_quit,", line)
        if m:
            q.add(m.group(1))
        else:
            m = re.match(r"(\s+)(?:tail |notail |musttail )?call void \(ptr, \.\.\.\) (%[\w.]+)\((.*)$", line)
            if m and m.group(2) in q:
                line = "%scall void (ptr, ...) @__gu_quit_noreturn(%s" % (m.group(1), m.group(3))
                n += 1
        out.append(line)
    s = "\n".join(out)
    if n:
        s += "\ndeclare void @__gu_quit_noreturn(ptr, ...) noreturn\n"
    return s, n


PASSES = {
    None: "function(sroa),always-inline,function(sroa,early-cse<memssa>,simplifycfg,loop-simplify,lcssa,loop-unroll<O3;no-partial;no-peeling;no-runtime;no-profile-peeling;upperbound>,sroa,early-cse<memssa>,simplifycfg,loop-simplify)",
    "threaded": "function(sroa),always-inline,function(sroa,early-cse<memssa>,simplifycfg,jump-threading,simplifycfg,loop-simplify,lcssa,loop-unroll<O3;no-partial;no-peeling;no-runtime;no-profile-peeling;upperbound>,sroa,early-cse<memssa>,simplifycfg,loop-simplify,lcssa)",
}


def settle(s):
    """static variables that are only ever read are constants"""
    cand = dict.fromkeys(re.findall(r"^@([\w.$]+) = internal global ", s, flags=re.M), True)
    if not cand:
        return s
    text = []          # lines of the current function

    def look():
        for line in text:
            for g in re.findall(r"@([\w.$]+)", line):
                if not cand.get(g):
                    continue
                if re.match(r"  %[\w.]+ = load [^,]+, ptr (@|getelementptr)", line) and line.count("@" + g) == 1:
                    continue
                m = re.match(r"  (%[\w.]+) = getelementptr [^,]+, ptr @" + re.escape(g) + r", ", line)
                if m and all(re.match(r"  %[\w.]+ = load [^,]+, ptr " + re.escape(m.group(1)) + r",", l)
                             for l in text if l is not line and re.search(re.escape(m.group(1)) + r"(?![\w.])", l)):
                    continue
                cand[g] = False
    for line in s.split("\n"):
        if line.startswith("define"):
            text = []
        elif line == "}":
            look()
            text = []
        elif line.startswith("@"):
            m = re.match(r"@([\w.$]+) = (.*)", line)
            for g in re.findall(r"@([\w.$]+)", m.group(2)):
                cand[g] = False
        else:
            text.append(line)
    return re.sub(r"^(@([\w.$]+) = internal )global ", lambda m: m.group(1) + ("constant " if cand.get(m.group(2)) else "global "), s, flags=re.M)


def unmark(path):
    """scope markers out: they keep blocks apart that hold nothing else"""
    s = open(path).read()
    open(path, "w").write(re.sub(r"^  (?:tail )?call void @llvm\.lifetime\.(?:start|end)\..*\n", "", s, flags=re.M))


def build(sources, keep=(), tmp=None, passes=None, inline=True, roots=None):
    """sources: .c paths. keep: functions that stay calls. Returns Mod."""
    own = tmp is None
    if own:
        tmp = tempfile.mkdtemp(prefix="gusa.")
    try:
        lls = []
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            futs = []
            for i, s in enumerate(sources):
                o = os.path.join(tmp, "u%d.ll" % i)
                lls.append(o)
                futs.append(ex.submit(compile_c, s, o))
            for f in futs:
                f.result()
        linked = os.path.join(tmp, "l.ll")
        run([tool("llvm-link"), "-S", *lls, "-o", linked])
        # tail recursion is a loop
        unmark(linked)
        run([tool("opt"), "-S", "-passes=function(loop-simplify,sroa,tailcallelim)", linked, "-o", linked + ".t"])
        s = open(linked + ".t").read()
        s, nq = quitrewrite(s.replace('"llvm.loop.unroll.disable"', '"llvm.loop.plain"'))
        s = settle(s)
        callees = {}
        cur = None
        var = set()
        for line in s.split("\n"):
            if line.startswith("define"):
                m = re.search(r'@"?([\w.$]+)"?\(', line)
                cur = m.group(1)
                callees[cur] = set()
                if re.search(r"\.\.\.\)", line):
                    var.add(cur)
            elif cur and ("call " in line):
                m = re.search(r"call [^@%]*?(?:\([^)]*\) )?@([\w.$]+)\(", line)
                if m:
                    callees[cur].add(m.group(1))
        rec = set()
        for f in callees:
            seen, st = set(), list(callees[f])
            while st:
                g = st.pop()
                if g in seen or g not in callees:
                    continue
                seen.add(g)
                st.extend(callees[g])
            if f in seen:
                rec.add(f)
        if inline:
            lines = s.split("\n")
            for i, line in enumerate(lines):
                if line.startswith("define"):
                    f = re.search(r'@"?([\w.$]+)"?\(', line).group(1)
                    if f in keep or f in rec or f in var or f == "main" or (roots and f in roots):
                        lines[i] = re.sub(r"\) (#\d+|local_unnamed_addr|unnamed_addr)", r") noinline \1", line, 1)
                    else:
                        lines[i] = re.sub(r"(\)(?: local_unnamed_addr| unnamed_addr)?) (#\d+)", r"\1 alwaysinline \2", line, 1)
            s = "\n".join(lines)
        p = os.path.join(tmp, "m.ll")
        open(p, "w").write(s)
        o = os.path.join(tmp, "o.ll")
        first, rest = (passes or PASSES[None]).split("always-inline,")
        run([tool("opt"), "-S", "-passes=" + first + "always-inline", p, "-o", o])
        unmark(o)
        # loops of at most eight constant trips are unrolled, so that writing them out is the same program
        run([tool("opt"), "-S", "-unroll-threshold=20000", "-unroll-peel-max-count=0", "-unroll-full-max-count=8", "-passes=" + rest, o, "-o", o + ".u"])
        o += ".u"
        m = parse(open(o).read())
        m.nquit = nq
        m.rec = rec
        m.callees = callees
        return m
    finally:
        if own:
            shutil.rmtree(tmp, ignore_errors=True)


# ----------------------------------------------------------------- parsing
TYRE = None


def split_top(s):
    """split on top-level commas"""
    out = []
    d = 0
    q = False
    cur = ""
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in "([{<":
                d += 1
            elif ch in ")]}>":
                d -= 1
            elif ch == "," and d == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


ATTRS = {"noundef", "nonnull", "signext", "zeroext", "noalias", "nocapture", "readonly", "writeonly", "readnone", "inreg", "returned", "immarg", "dead_on_unwind", "writable", "allocptr", "allocalign"}


def take_type(s):
    """type at the start of s -> (type, rest)"""
    s = s.strip()
    if s[0] in "[{<":
        d = 0
        for i, ch in enumerate(s):
            if ch in "[{<(":
                d += 1
            elif ch in "]}>)":
                d -= 1
                if d == 0:
                    return s[:i + 1], s[i + 1:].strip()
    m = re.match(r'(%"[^"]+"|%[\w.$]+|[\w]+)', s)
    t = m.group(1)
    return t, s[m.end():].strip()


def strip_attrs(s):
    s = s.strip()
    while True:
        m = re.match(r"(\w+)(\([^()]*\))?\s+", s)
        if m and (m.group(1) in ATTRS or m.group(1) in ("align", "dereferenceable", "dereferenceable_or_null", "range", "memory", "sret", "byval", "captures")):
            if m.group(1) == "align" and not m.group(2):
                s = re.sub(r"^align\s+\d+\s*", "", s)
            else:
                s = s[m.end():]
            continue
        return s


def typed_operand(s):
    t, rest = take_type(s)
    return t, strip_attrs(rest)


def parse(text):
    M = Mod()
    lines = text.split("\n")
    cur = None
    blk = None
    attrgroups = {}
    for line in lines:
        m = re.match(r"attributes #(\d+) = \{(.*)\}", line)
        if m:
            attrgroups[m.group(1)] = m.group(2)
        m = re.match(r"!(\d+) = (?:distinct )?(.*)$", line)
        if m:
            M.md[int(m.group(1))] = m.group(2)
    for line in lines:
        if cur is None:
            m = re.match(r'(%"[^"]+"|%[\w.$]+) = type (.*)$', line)
            if m:
                M.structs[m.group(1)] = m.group(2)
                continue
            m = re.match(r'@"?([\w.$]+)"? = (.*)$', line)
            if m:
                name, rest = m.groups()
                mm = re.search(r"\b(global|constant) (.*)$", rest)
                if mm:
                    t, init = take_type(mm.group(2))
                    M.globals[name] = (t, init, mm.group(1) == "constant")
                    c = re.match(r'c"((?:[^"])*)"', init)
                    if c:
                        M.strings[name] = unescape(c.group(1))
                    elif init.startswith("zeroinitializer") and re.match(r"\[\d+ x i8\]", t):
                        M.strings[name] = ""
                continue
            if line.startswith("declare"):
                m = re.search(r'declare (.*?)@"?([\w.$]+)"?\((.*?)\)(.*)$', line)
                if m:
                    M.decls[m.group(2)] = line
                    tail = m.group(4)
                    nr = "noreturn" in tail
                    for g in re.findall(r"#(\d+)", tail):
                        if re.search(r"\bnoreturn\b", attrgroups.get(g, "")):
                            nr = True
                    if nr:
                        M.noreturn.add(m.group(2))
                continue
            if line.startswith("define"):
                m = re.match(r'define (.*?)@"?([\w.$]+)"?\((.*)$', line)
                pre, name, rest = m.groups()
                d = 1
                for i, ch in enumerate(rest):
                    if ch == "(":
                        d += 1
                    elif ch == ")":
                        d -= 1
                        if d == 0:
                            break
                params = rest[:i]
                cur = Fn(name)
                cur.internal = "internal" in pre
                pre = re.sub(r"\b(internal|dso_local|hidden|noundef|private|linkonce_odr|weak|signext|zeroext|noalias|nonnull)\b", "", pre).strip()
                cur.ret = pre.split()[0] if pre else "void"
                for i, p in enumerate(split_top(params)):
                    if p == "...":
                        cur.varargs = True
                        continue
                    t, r = typed_operand(p)
                    cur.params.append((t, r))
                M.fns[name] = cur
                blk = None
                sub = re.search(r"!dbg !(\d+)", line)
                cur.sub = int(sub.group(1)) if sub else None
                cur.first = True
            continue
        if line.startswith("}"):
            finish(cur)
            cur = None
            continue
        if not line.strip():
            continue
        m = re.match(r'^("?[\w.$-]+"?):', line)
        if m:
            blk = Block("%" + m.group(1))
            cur.blocks[blk.label] = blk
            continue
        if blk is None:
            # unnamed entry block label: number = count of unnamed params
            n = sum(1 for t, p in cur.params if re.match(r"%\d+$", p))
            blk = Block("%%%d" % n)
            cur.blocks[blk.label] = blk
        s = line.strip()
        if getattr(M, "_sw", None) is not None:
            # inside a switch table
            if s.startswith("]"):
                ins = M._sw
                M._sw = None
                tail = s[1:]
                setmeta(M, ins, tail)
                continue
            mm = re.match(r"(\w+) (-?\d+), label (%[\w.]+)", s)
            M._sw.a[2].append((int(mm.group(2)), mm.group(3)))
            continue
        if s.startswith("#dbg") or "@llvm.dbg." in s:
            continue
        ins = parse_inst(M, s)
        if ins is not None:
            blk.insts.append(ins)
            if ins.op == "switch" and not s.rstrip().endswith("]") and "]" not in s:
                M._sw = ins
    return M


def unescape(s):
    out = []
    i = 0
    while i < len(s):
        if s[i:i + 2] == "\\\\":
            out.append("\\")
            i += 2
        elif s[i] == "\\":
            out.append(chr(int(s[i + 1:i + 3], 16)))
            i += 3
        else:
            out.append(s[i])
            i += 1
    r = "".join(out)
    if r.endswith("\0"):
        r = r[:-1]
    return r


def setmeta(M, ins, s):
    m = re.search(r"!tbaa !(\d+)", s)
    ins.tbaa = int(m.group(1)) if m else None
    m = re.search(r"!dbg !(\d+)", s)
    ins.line = None
    ins.scope = None
    if m:
        d = M.md.get(int(m.group(1)), "")
        mm = re.search(r"line: (\d+)", d)
        ins.line = int(mm.group(1)) if mm else None
        mm = re.search(r"scope: !(\d+)", d)
        ins.scope = int(mm.group(1)) if mm else None


def filename(M, scope, depth=0):
    """source file of a debug scope"""
    while scope is not None and depth < 20:
        d = M.md.get(scope, "")
        m = re.search(r"file: !(\d+)", d)
        if m:
            f = M.md.get(int(m.group(1)), "")
            mm = re.search(r'filename: "([^"]*)"', f)
            if mm:
                return os.path.basename(mm.group(1))
        m = re.search(r"scope: !(\d+)", d)
        scope = int(m.group(1)) if m else None
        depth += 1
    return "?"


BIN = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"sext", "zext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "bitcast", "ptrtoint", "inttoptr"}
FLAGS = {"nsw", "nuw", "exact", "inbounds", "disjoint", "nneg", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "samesign", "nusw", "volatile"}


def strip_flags(s):
    fl = set()
    while True:
        m = re.match(r"(\w+)\s+", s)
        if m and m.group(1) in FLAGS:
            fl.add(m.group(1))
            s = s[m.end():]
        else:
            return s, fl


def nometa(s):
    """drop trailing metadata/attributes ', !dbg !3' ', align 8'"""
    parts = split_top(s)
    return [p for p in parts if not p.startswith("!") and not re.match(r"align \d+$", p)]


def parse_inst(M, s):
    ins = Inst()
    ins.text = s
    ins.flags = set()
    ins.ty = None
    setmeta(M, ins, s)
    res = None
    m = re.match(r"(%[\w.]+) = (.*)$", s)
    body = s
    if m:
        res, body = m.groups()
    ins.res = res
    m = re.match(r"(?:(?:tail|notail|musttail) )?(\w+)\b\s*(.*)$", body)
    op, rest = m.groups()
    ins.op = op
    if op in BIN:
        rest, ins.flags = strip_flags(rest)
        parts = nometa(rest)
        t, a = typed_operand(parts[0])
        ins.ty = t
        ins.a = [a, parts[1]]
    elif op in ("fneg", "freeze"):
        rest, ins.flags = strip_flags(rest)
        parts = nometa(rest)
        t, a = typed_operand(parts[0])
        ins.ty = t
        ins.a = [a]
    elif op in ("icmp", "fcmp"):
        rest, ins.flags = strip_flags(rest)
        pred, rest = rest.split(None, 1)
        parts = nometa(rest)
        t, a = typed_operand(parts[0])
        ins.ty = t
        ins.a = [pred, a, parts[1]]
    elif op in CAST:
        rest, ins.flags = strip_flags(rest)
        rest = nometa(rest)[0]
        m = re.match(r"(.*) to (.*)$", rest)
        t, a = typed_operand(m.group(1))
        ins.ty = m.group(2).strip()
        ins.a = [a, t]
    elif op == "alloca":
        parts = nometa(rest)
        t, _ = take_type(parts[0])
        ins.ty = t
        ins.a = parts[1:]
    elif op == "load":
        rest, ins.flags = strip_flags(rest)
        parts = nometa(rest)
        ins.ty = parts[0]
        t, a = typed_operand(parts[1])
        ins.a = [a]
    elif op == "store":
        rest, ins.flags = strip_flags(rest)
        parts = nometa(rest)
        t, v = typed_operand(parts[0])
        t2, p = typed_operand(parts[1])
        ins.ty = t
        ins.a = [v, p]
    elif op == "getelementptr":
        rest, ins.flags = strip_flags(rest)
        parts = nometa(rest)
        ins.ty = parts[0]
        ins.a = [typed_operand(p) for p in parts[1:]]
    elif op == "select":
        rest, ins.flags = strip_flags(rest)
        parts = nometa(rest)
        ins.a = [typed_operand(p)[1] for p in parts]
        ins.ty = typed_operand(parts[1])[0]
    elif op == "phi":
        rest, ins.flags = strip_flags(rest)
        parts = nometa(rest)
        t, first = take_type(parts[0])
        parts[0] = first
        ins.ty = t
        ins.a = []
        for p in parts:
            m = re.match(r"\[\s*(.*),\s*(%[\w.$\"-]+)\s*\]$", p)
            ins.a.append((m.group(1).strip(), m.group(2)))
    elif op == "call":
        parse_call(ins, rest)
    elif op == "br":
        parts = nometa(rest)
        if len(parts) == 1:
            ins.a = [parts[0].split()[1]]
        else:
            ins.a = [typed_operand(parts[0])[1], parts[1].split()[1], parts[2].split()[1]]
    elif op == "switch":
        m = re.match(r"(\w+) (\S+), label (%[\w.]+) \[(.*)$", rest)
        ins.ty = m.group(1)
        ins.a = [m.group(2), m.group(3), []]
        for mm in re.finditer(r"\w+ (-?\d+), label (%[\w.]+)", m.group(4)):
            ins.a[2].append((int(mm.group(1)), mm.group(2)))
    elif op == "ret":
        parts = nometa(rest)
        if parts[0] == "void":
            ins.a = []
        else:
            t, v = typed_operand(parts[0])
            ins.ty = t
            ins.a = [v]
    elif op == "unreachable":
        ins.a = []
    else:
        ins.a = [rest]
    return ins


def parse_call(ins, rest):
    s, fl = strip_flags(rest)
    # return attributes, type, callee
    s = strip_attrs(s)
    t, s = take_type(s)
    if s.startswith("("):
        d = 0
        for i, ch in enumerate(s):
            if ch == "(":
                d += 1
            elif ch == ")":
                d -= 1
                if d == 0:
                    break
        s = s[i + 1:].strip()
    m = re.match(r'(@"?[\w.$]+"?|%[\w.]+|asm\b)', s)
    callee = m.group(1).replace('"', "")
    s = s[m.end():]
    if callee == "asm":
        ins.ty = t
        ins.a = ["asm", []]
        return
    d = 0
    q = False
    for i, ch in enumerate(s):
        if ch == '"':
            q = not q
        if q:
            continue
        if ch == "(":
            d += 1
        elif ch == ")":
            d -= 1
            if d == 0:
                break
    args = split_top(s[1:i])
    ins.ty = t
    ins.a = [callee, [typed_operand(a) if not a.startswith("metadata") else ("metadata", a) for a in args]]


def finish(fn):
    for b in fn.blocks.values():
        t = b.insts[-1] if b.insts else None
        if t is None:
            continue
        if t.op == "br":
            b.succs = [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
        elif t.op == "switch":
            b.succs = [t.a[1]] + [l for _, l in t.a[2]]
        else:
            b.succs = []
    for b in fn.blocks.values():
        b.preds = []
    for b in fn.blocks.values():
        for s in set(b.succs):
            fn.blocks[s].preds.append(b.label)
    fn.order = list(fn.blocks)


def tables(M, fn):
    """local arrays that only ever hold a copy of a constant: alloca -> the constant"""
    uses = {}
    for b in fn.blocks.values():
        for i in b.insts:
            for u in set(re.findall(r"%[\w.$-]+", i.text.split("=", 1)[1] if i.res and "=" in i.text else i.text)):
                uses.setdefault(u, []).append(i)
    out = {}

    def readonly(v, seen):
        for i in uses.get(v, ()):
            if i.op == "load":
                continue
            if i.op == "getelementptr" and i.a[0][1] == v and i.res not in seen:
                seen.add(i.res)
                if readonly(i.res, seen):
                    continue
            return False
        return True
    for b in fn.blocks.values():
        for i in b.insts:
            if i.op != "alloca":
                continue
            src, ok = None, True
            for u in uses.get(i.res, ()):
                if u.op == "call" and u.a[0].startswith("@llvm.lifetime"):
                    continue
                if u.op == "call" and u.a[0].startswith("@llvm.memcpy") and u.a[1][0][1] == i.res and u.a[1][1][1].startswith("@"):
                    g = u.a[1][1][1][1:]
                    if src in (None, g) and g in M.globals and M.globals[g][2] and u.a[1][2][1] == str(sizeof(M, M.globals[g][0])) and g not in M.strings:
                        src = g
                        continue
                if u.op == "load" or u.op == "getelementptr" and u.a[0][1] == i.res and readonly(u.res, {u.res}):
                    continue
                ok = False
                break
            if ok and src:
                out[i.res] = src
    return out


# ----------------------------------------------------------------- layout
def sizeof(M, t):
    return layout(M, t)[0]


def layout(M, t):
    """(size, align, field offsets)"""
    t = t.strip()
    if t in ("i1", "i8"):
        return 1, 1, None
    if t == "i16":
        return 2, 2, None
    if t in ("i32", "float"):
        return 4, 4, None
    if t in ("i64", "double", "ptr"):
        return 8, 8, None
    if t in ("i128", "x86_fp80", "fp128"):
        return 16, 16, None
    m = re.match(r"\[(\d+) x (.*)\]$", t)
    if m:
        s, a, _ = layout(M, m.group(2))
        return s * int(m.group(1)), a, None
    if t.startswith("%"):
        return layout(M, M.structs[t])
    if t.startswith("{") or t.startswith("<{"):
        inner = t.strip("<>")[1:-1]
        off = 0
        al = 1
        offs = []
        for f in split_top(inner):
            s, a, _ = layout(M, f)
            if t.startswith("<"):
                a = 1
            off = (off + a - 1) // a * a
            offs.append(off)
            off += s
            al = max(al, a)
        return (off + al - 1) // al * al, al, offs
    if t == "opaque":
        return 1, 1, None
    raise ValueError("layout of " + t)


def tbaa_info(M, tag):
    """-> ('F', structname, offset, leaf) or ('S', scalar)"""
    if tag is None:
        return None
    d = M.md.get(tag)
    m = re.match(r"!\{!(\d+), !(\d+), i64 (\d+)", d or "")
    if not m:
        return None
    b, a, o = int(m.group(1)), int(m.group(2)), int(m.group(3))
    an = re.match(r'!\{!"([^"]*)"', M.md.get(a, "")).group(1)
    if a == b:
        return ("S", an)
    while True:
        name, members = tbaa_struct(M, b)
        for t, off, size in members:
            if off <= o and (o < size or size < 0):
                break
        else:
            return ("F", name, o, an)
        n2, m2 = tbaa_struct(M, t)
        if not m2 or m2[0][0] == t or (len(m2) == 1 and n2 in SCALARS) or is_scalar(M, t):
            return ("F", name, o, an)
        b, o = t, o - off


SIZES = {"int": 4, "double": 8, "any pointer": 8, "long": 8}


def flatfields(M, t, at):
    """(offset, scalar, structure that holds it, offset in that) of every scalar member"""
    name, mem = tbaa_struct(M, t)
    out = []
    for x, o, e in mem:
        if is_scalar(M, x) or tbaa_struct(M, x)[0] in SIZES:
            out.append((at + o, tbaa_struct(M, x)[0], name, o))
        else:
            sub = flatfields(M, x, at + o)
            out += sub or [(at + o, None, name, o)]
    return out


def flatstructs(M):
    """structures made of scalar members only: (name, flatfields, size)"""
    c = M.__dict__.get("flatst")
    if c is None:
        c = {}
        for t in list(M.md):
            if not re.match(r'!\{!"[^"]*"(, !\d+, i64 \d+)+\}$', M.md[t]) or is_scalar(M, t):
                continue
            fs = flatfields(M, t, 0)
            if not fs or any(f[1] not in SIZES for f in fs):
                continue
            name = tbaa_struct(M, t)[0]
            al = max(SIZES[f[1]] for f in fs)
            end = fs[-1][0] + SIZES[fs[-1][1]]
            c[name] = (name, fs, (end + al - 1) // al * al)
        c = M.__dict__["flatst"] = list(c.values())
    return c


SCALARS = {"int", "double", "float", "any pointer", "long", "omnipotent char", "short", "long long"}


def is_scalar(M, t):
    """scalar descriptors have one parent at offset 0"""
    d = M.md.get(t, "")
    m = re.match(r'!\{!"([^"]*)", !(\d+), i64 0(?:, i64 0)?\}$', d)
    return bool(m) and m.group(1) in SCALARS


def const_at(M, t, init, off):
    """(type, text) of the scalar at an offset of a constant, or None"""
    init = take_type(init)[0] if init[0] in "[{" else init.split(",")[0].strip()
    while True:
        t = t.strip()
        body = M.structs.get(t, t)
        zero = init == "zeroinitializer"
        if body[0] == "[":
            m = re.match(r"\[(\d+) x (.*)\]$", body)
            et, n = m.group(2), int(m.group(1))
            k, off = divmod(off, sizeof(M, et))
            if not 0 <= k < n:
                return None
        elif body[0] == "{":
            offs = layout(M, body)[2]
            k = max((i for i, o in enumerate(offs) if o <= off), default=None)
            if k is None:
                return None
            et, off = split_top(body[1:-1])[k].strip(), off - offs[k]
        else:
            return (t, "0" if zero and t != "ptr" else "null" if zero else init) if off == 0 and not init.startswith(("c\"", "<")) else None
        if not zero:
            if init[0] not in "[{":
                return None
            parts = split_top(init[1:-1])
            if k >= len(parts):
                return None
            et, init = typed_operand(parts[k].strip())
        t = et


def tbaa_names(M):
    c = M.__dict__.get("tbnames")
    if c is None:
        c = M.tbnames = {tbaa_struct(M, t)[0] for t in list(M.md) if re.match(r'!\{!"[^"]*"(, !\d+, i64 \d+)+\}$', M.md[t])}
    return c


def shape(M, st):
    """the name tbaa_struct() gives to an unnamed structure, from its type; None if it is opaque"""
    body = M.structs.get(st)
    if not body or not body.startswith("{"):
        return None
    out = []
    for k, f in enumerate(split_top(body[1:-1])):
        f = f.strip()
        n = shape(M, f) if f.startswith("%") else {"double": "double", "i32": "int", "i64": "long", "ptr": "any pointer"}.get(f)
        if n is None:
            return None
        out.append("%s@%d" % (n, layout(M, st)[2][k]))
    return "{" + ",".join(out) + "}"


def tbaa_struct(M, t):
    """-> (name, [(member type, offset, end)]); unnamed structures are named by their shape"""
    c = M.__dict__.setdefault("tbst", {})
    if t in c:
        return c[t]
    d = M.md.get(t, "")
    m = re.match(r'!\{!"([^"]*)"(.*)\}$', d)
    if not m:
        c[t] = ("anon", [])
        return c[t]
    mem = [(int(x), int(o)) for x, o in re.findall(r"!(\d+), i64 (\d+)", m.group(2))]
    out = []
    for i, (x, o) in enumerate(mem):
        out.append((x, o, mem[i + 1][1] if i + 1 < len(mem) else -1))
    name = m.group(1)
    if not name:
        name = "{" + ",".join("%s@%d" % ("" if x == t else tbaa_struct(M, x)[0], o) for x, o in mem) + "}"
    c[t] = (name, out)
    return c[t]
