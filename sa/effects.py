"""Whole-program effect rule for the error exit: who may end the process, who may change
the handler, and whether every message fits its arguments.  Decided on the unoptimised IR
of all library sources, by the call graph and the operands of the calls."""
import os
import re
from . import ir
from .run import Finding

ENDS = {"exit", "_exit", "_Exit", "quick_exit", "abort", "__assert_fail", "__assert", "longjmp", "siglongjmp", "__longjmp_chk", "raise", "kill", "pthread_exit", "pthread_kill", "llvm.trap",
        "llvm.debugtrap", "err", "errx", "verr", "verrx", "error", "error_at_line", "execl", "execlp", "execle", "execv", "execve", "execvp", "execvpe", "fexecve", "__cxa_throw", "thrd_exit", "syscall", "tgkill", "atexit", "on_exit"}
PROGRAMS = ("getbound.c", "getnodes.c", "insertgrid.c", "setbathy.c", "subgrid.c", "xy2ij.c", "gridbathy.c")
HOOK = "__gu_quit_noreturn"


def library():
    """sources of the library: all but the programs (a source with an unconditional main)"""
    out = []
    for f in sorted(os.listdir(ir.SRC)):
        if f.endswith(".c") and f not in PROGRAMS:
            out.append(os.path.join(ir.SRC, f))
    return out


def conversions(fmt):
    """operand types a format asks for, or None if it cannot be read"""
    out = []
    i = 0
    while i < len(fmt):
        if fmt[i] != "%":
            i += 1
            continue
        m = re.match(r"%([-+ #0']*)(\*|\d*)(?:\.(\*|-?\d*))?(hh|h|ll|l|q|j|z|t|L)?([a-zA-Z%])", fmt[i:])
        if not m:
            return None
        i += m.end()
        fl, w, p, ln, c = m.groups()
        if c == "%":
            continue
        if w == "*":
            out.append("i32")
        if p == "*":
            out.append("i32")
        if c in "diouxXc":
            out.append("i64" if ln in ("l", "ll", "q", "j", "z", "t") else "i32")
        elif c in "fFeEgGaA":
            out.append("x86_fp80" if ln == "L" else "double")
        elif c in "spn":
            out.append("ptr")
        elif c == "m":
            pass
        else:
            return None
    return out


def names(x):
    return re.findall(r'@"?([\w.$]+)"?', x)


def handler(M):
    g = M.globals.get("gu_quit")
    if g is None:
        return None
    n = names(" ".join(str(x) for x in g))
    return n[0] if n else None


def where(M, fn, ins=None):
    s = ""
    if ins is not None:
        try:
            s = "%s:%s " % (ir.filename(M, ins.scope), ins.line)
        except (AttributeError, KeyError, TypeError):
            s = "line %s " % ins.line if ins.line else ""
    return "%s(%s)" % (s, fn)


def message(rep, M, fn, i):
    """one report through gu_quit: its constant format asks for what it is given"""
    rep.obl += 1
    args = i.a[1]
    fmt = M.strings.get(args[0][1][1:]) if args and args[0][1].startswith("@") else None
    if fmt is None:
        rep.findings.append(Finding(where(M, fn.name, i), "%s reports an error with a format that is not a constant" % fn.name))
        return 1
    if isinstance(fmt, bytes):
        fmt = fmt.decode("latin1")
    fmt = fmt.split("\0")[0]
    want = conversions(fmt)
    have = [t for t, _ in args[1:]]
    if want is None or len(have) < len(want) or have[:len(want)] != want:
        rep.findings.append(Finding(where(M, fn.name, i), "%s reports an error whose message \"%s\" asks for (%s) and is given (%s)" % (fn.name, fmt, ", ".join(want or ["?"]), ", ".join(have))))
    return 1


BADFORMAT = ("-Wformat", "-Wformat-insufficient-args", "-Wformat-invalid-specifier", "-Wformat-overflow")


def formats(rep, path):
    """formatted input and output fits the types of its operands: the front end's own rule"""
    rep.obl += 1
    p = ir.frontend(path, ("-fsyntax-only", "-Wno-everything", "-Wformat", "-fno-caret-diagnostics", "-fno-color-diagnostics"))
    for line in p.split("\n"):
        m = re.match(r"(.*?):(\d+):\d+: (?:warning|error): (.*) \[(-W[\w-]+)", line)
        if m and m.group(4) in BADFORMAT:
            rep.findings.append(Finding("%s:%s" % (os.path.basename(m.group(1)), m.group(2)), m.group(3)))


def errorexit(rep):
    srcs = library()
    M = ir.build(srcs, inline=False)
    D = handler(M)
    rep.obl += 1
    if D is None or D not in M.fns:
        rep.findings.append(Finding("gu_quit", "the error handler does not start as a function of the library (%s)" % D))
        return
    rep.samples.append("gu_quit starts as %s" % D)
    callers = {}
    uses = {}
    for fn in M.fns.values():
        for b in fn.blocks.values():
            for i in b.insts:
                callee = i.a[0][1:] if i.op == "call" and i.a[0].startswith("@") else None
                rest = i.text
                if callee:
                    callers.setdefault(callee, set()).add(fn.name)
                    rest = rest.replace("@" + callee + "(", "(", 1)
                for n in names(re.sub(r"!.*", "", rest)):
                    uses.setdefault(n, []).append((fn, i))
    # functions that only serve the handler, or only serve the setter
    def serves(root):
        s = {root}
        ch = True
        while ch:
            ch = False
            for f in M.fns.values():
                if f.name not in s and f.internal and callers.get(f.name) and callers[f.name] <= s and f.name not in uses:
                    s.add(f.name)
                    ch = True
        return s
    ok = serves(D)
    setter = serves("gu_setquitfn")
    rep.samples.append("functions serving the handler only: %s" % ", ".join(sorted(ok)))
    nend = nmsg = 0
    for fn in M.fns.values():
        rep.functions.add(fn.name)
        rep.programs += 1
        rep.obl += 1
        for b in fn.blocks.values():
            for i in b.insts:
                rep.insts += 1
                callee = i.a[0][1:] if i.op == "call" and i.a[0].startswith("@") else None
                txt = re.sub(r"!.*", "", i.text)
                for n in names(txt):
                    if n in ENDS and fn.name not in ok:
                        nend += 1
                        rep.findings.append(Finding(where(M, fn.name, i), "library function %s can end the process by %s() and not through gu_quit" % (fn.name, n)))
                    if n == "gu_quit" and fn.name not in setter:
                        rep.obl += 1
                        if re.match(r"\s*%[\w.]+ = load ptr, ptr @gu_quit,", txt):
                            continue
                        rep.findings.append(Finding(where(M, fn.name, i), "%s changes the error handler or takes its address" % fn.name))
                    if n == D and fn.name not in setter and fn.name not in ok and callee != D:
                        rep.findings.append(Finding(where(M, fn.name, i), "%s refers to the initial error handler instead of gu_quit" % fn.name))
                if callee == D and fn.name not in ok:
                    rep.findings.append(Finding(where(M, fn.name, i), "%s calls the initial error handler instead of gu_quit" % fn.name))
                if callee == HOOK:
                    nmsg += message(rep, M, fn, i)
    for g, d in M.globals.items():
        for n in names(" ".join(str(x) for x in d)):
            if n in ENDS or (n == D and g != "gu_quit"):
                rep.findings.append(Finding(g, "the table or variable %s holds %s" % (g, n)))
    from concurrent.futures import ThreadPoolExecutor
    progs = [os.path.join(ir.SRC, f) for f in PROGRAMS if f != "gridbathy.c" and os.path.exists(os.path.join(ir.SRC, f))]
    with ThreadPoolExecutor(6) as ex:
        mods = list(ex.map(lambda p: ir.build([p], inline=False), progs))
    for P in mods:
        for fn in P.fns.values():
            for b in fn.blocks.values():
                for i in b.insts:
                    if i.op == "call" and i.a[0] == "@" + HOOK:
                        nmsg += message(rep, P, fn, i)
    for s in srcs + progs:
        formats(rep, s)
    rep.count("functions searched for process ends", len(M.fns))
    rep.count("error messages checked", nmsg)
    rep.notes.append("library sources: " + ", ".join(os.path.basename(s) for s in srcs))
    from .run import compare
    from .evalf import Model
    end = Model(world="proj", sees=True)
    models = {"sp_leave": end, "sp_rest": Model(pure=True)}
    compare(rep, "quit_spec.c", "lastword=" + D, models=models, flags=dict(stderr=1))
    compare(rep, "quit_spec.c", "setquit", models=models)


# ----------------------------------------------------------------- hidden state
OUTSIDE = {"time", "clock", "clock_gettime", "gettimeofday", "ftime", "times", "getrusage", "localtime", "localtime_r", "gmtime", "gmtime_r", "ctime", "ctime_r", "mktime", "strftime", "getenv", "secure_getenv",
           "getpid", "getppid", "getuid", "geteuid", "getgid", "gethostname", "gethostid", "uname", "sysconf", "getcwd", "get_current_dir_name", "getlogin", "getrandom", "getentropy", "arc4random",
           "arc4random_uniform", "arc4random_buf", "pthread_self", "gettid", "tmpnam", "tmpfile", "mkstemp", "isatty", "ttyname", "setlocale", "setenv", "putenv", "unsetenv", "umask", "chdir",
           "llvm.readcyclecounter", "llvm.frameaddress.p0", "llvm.returnaddress", "signal", "sigaction", "system", "popen", "fork", "srandomdev"}
SEEDS = {"srand48": "48", "srand": "r", "srandom": "n", "seed48": "48", "lcong48": "48"}
DRAWS = {"drand48": "48", "lrand48": "48", "mrand48": "48", "rand": "r", "random": "n"}


def regions(fn):
    """block -> immediate postdominator (None: leaves the function)"""
    EXIT = "$exit"
    post = {}
    labels = list(fn.blocks)
    succ = {l: (list(fn.blocks[l].succs) or [EXIT]) for l in labels}
    allb = set(labels) | {EXIT}
    pd = {l: set(allb) for l in labels}
    pd[EXIT] = {EXIT}
    ch = True
    while ch:
        ch = False
        for l in reversed(labels):
            n = set.intersection(*[pd[s] for s in succ[l]]) | {l}
            if n != pd[l]:
                pd[l] = n
                ch = True
    for l in labels:
        c = pd[l] - {l}
        post[l] = next((x for x in c if all(x == y or y in pd[x] for y in c)), EXIT)
    return post, succ, EXIT


def root(defs, v, seen=None):
    """objects a pointer may point into: '@global', '%alloca', '?'"""
    seen = seen or set()
    if v in seen:
        return set()
    seen.add(v)
    g = names(v)
    if g:
        return {"@" + x for x in g}
    d = defs.get(v)
    if d is None:
        return {"?"}
    if d.op == "alloca":
        return {v}
    if d.op == "getelementptr":
        return root(defs, d.a[0][1], seen)
    if d.op == "bitcast" or d.op == "freeze":
        return root(defs, d.a[0], seen)
    if d.op == "phi":
        return set().union(*[root(defs, x, seen) for x, _ in d.a])
    if d.op == "select":
        return root(defs, d.a[1], seen) | root(defs, d.a[2], seen)
    return {"?"}


def mutable(M, g):
    d = M.globals.get(g)
    return d is not None and not d[2]


STREAMS = {"stdin", "stdout", "stderr", "environ", "optarg", "optind"}


def hiddenstate(rep):
    """no library function keeps state of its own between calls; nobody asks the surroundings;
    numbers are drawn only after a constant seed"""
    srcs = library()
    M = ir.build(srcs, inline=False)
    D = handler(M)
    progs = [os.path.join(ir.SRC, f) for f in PROGRAMS if f != "gridbathy.c" and os.path.exists(os.path.join(ir.SRC, f))]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(6) as ex:
        mods = list(ex.map(lambda p: ir.build([p], inline=False), progs))
    setter = {"gu_setquitfn"}
    for f in M.fns.values():
        cs = {g.name for g in M.fns.values() for b in g.blocks.values() for i in b.insts if i.op == "call" and i.a[0] == "@" + f.name}
        if f.internal and cs and cs <= setter:
            setter.add(f.name)
    for fn in M.fns.values():
        rep.functions.add(fn.name)
        rep.programs += 1
        rep.obl += 1
        defs = {i.res: i for b in fn.blocks.values() for i in b.insts if i.res}
        for b in fn.blocks.values():
            for i in b.insts:
                rep.insts += 1
                targets = set()
                if i.op == "store":
                    targets = root(defs, i.a[1])
                    for n in names(i.a[0]):
                        if mutable(M, n) and n not in STREAMS and n != "gu_quit":
                            rep.findings.append(Finding(where(M, fn.name, i), "%s stores the address of the variable %s" % (fn.name, n)))
                elif i.op in ("atomicrmw", "cmpxchg"):
                    targets = {"@" + n for n in names(re.sub(r"!.*", "", i.text))}
                elif i.op == "call":
                    for t, v in i.a[1]:
                        if t == "ptr":
                            targets |= {x for x in root(defs, v) if x.startswith("@")}
                elif i.op == "ret" and i.a:
                    targets = {x for x in root(defs, i.a[0]) if x.startswith("@")} if i.ty == "ptr" else set()
                for x in targets:
                    if x.startswith("@") and mutable(M, x[1:]):
                        if x == "@gu_quit" and fn.name in setter:
                            continue
                        rep.findings.append(Finding(where(M, fn.name, i), "%s changes the variable %s, which outlives the call, or hands it out" % (fn.name, x[1:])))
    n = 0
    for P in [M] + mods:
        for fn in P.fns.values():
            rep.obl += 1
            for b in fn.blocks.values():
                for i in b.insts:
                    for x in names(re.sub(r"!.*", "", i.text)):
                        if x in OUTSIDE:
                            rep.findings.append(Finding(where(P, fn.name, i), "%s asks or changes its surroundings by %s()" % (fn.name, x)))
        n += seeded(rep, P)
    rep.count("functions searched for hidden state", len(M.fns))
    rep.count("draws of pseudo-random numbers", n)
    rep.samples.append("variables of the library: " + ", ".join(sorted(g for g in M.globals if mutable(M, g) and g not in STREAMS)))


def callsof(M):
    calls = {}
    taken = set()
    for fn in M.fns.values():
        for b in fn.blocks.values():
            for i in b.insts:
                t = re.sub(r"!.*", "", i.text)
                callee = None
                if i.op == "call" and i.a[0].startswith("@"):
                    callee = i.a[0][1:]
                    calls.setdefault(callee, []).append((fn, b.label, i))
                    t = t.replace("@" + callee + "(", "(", 1)
                taken |= set(names(t))
    for g, d in M.globals.items():
        taken |= set(names(str(d)))
    return calls, taken


def seeded(rep, M):
    """every draw follows a constant seed on all paths from every outside entry"""
    calls, taken = callsof(M)
    ALL = frozenset(["48", "r", "n"])
    NONE = frozenset()
    entry = {f.name: (ALL if f.internal and f.name not in taken and f.name in calls else NONE) for f in M.fns.values()}
    leave = {f: ALL for f in M.fns}
    draws = {}

    def flow(fn, report):
        st = {l: ALL for l in fn.blocks}
        first = fn.order[0]
        st[first] = entry[fn.name]
        out = {}
        ch = True
        end = ALL
        sites = {}
        while ch:
            ch = False
            end = ALL
            for l in fn.order:
                b = fn.blocks[l]
                s = st[l] if l == first else (frozenset.intersection(*[out[p] for p in b.preds if p in out]) if any(p in out for p in b.preds) else ALL)
                for i in b.insts:
                    if i.op == "call" and i.a[0].startswith("@"):
                        c = i.a[0][1:]
                        if c in SEEDS:
                            const = all(re.match(r"-?\d+$", v) for t, v in i.a[1])
                            s = s | {SEEDS[c]} if const else s - {SEEDS[c]}
                        elif c in DRAWS:
                            if report and DRAWS[c] not in s:
                                draws[id(i)] = (fn, i, c)
                        elif c in M.fns:
                            sites[id(i)] = (c, s)
                            s = s | leave[c]
                    elif i.op == "ret":
                        end = end & s
                if out.get(l) != s:
                    out[l] = s
                    ch = True
        return end, sites

    ch = True
    rounds = 0
    while ch and rounds < 50:
        ch = False
        rounds += 1
        want = {}
        for fn in M.fns.values():
            end, sites = flow(fn, False)
            if end != leave[fn.name]:
                leave[fn.name] = end
                ch = True
            for c, s in sites.values():
                want[c] = want.get(c, ALL) & s
        for f in M.fns.values():
            if f.internal and f.name not in taken and f.name in calls:
                if entry[f.name] != want.get(f.name, ALL):
                    entry[f.name] = want.get(f.name, ALL)
                    ch = True
    for fn in M.fns.values():
        flow(fn, True)
    n = sum(len(calls.get(c, [])) for c in DRAWS)
    rep.obl += n
    for fn, i, c in draws.values():
        rep.findings.append(Finding(where(M, fn.name, i), "%s draws a number by %s() without a constant seed before it on every path" % (fn.name, c)))
    return n


# ----------------------------------------------------------------- verbose mode
TOSTREAM = {"fprintf": 0, "vfprintf": 0, "fputs": 1, "fputc": 1, "putc": 1, "fwrite": 3, "fflush": 0, "putc_unlocked": 1, "fputs_unlocked": 1}
HARMLESS = {"strcmp", "strcasecmp", "strncmp", "strlen", "strchr", "strrchr", "strstr", "memcmp", "strerror", "strcspn", "strspn", "fabs", "sqrt", "hypot", "fmin", "fmax", "floor", "ceil", "abs", "labs", "acos", "cos",
            "sin", "atan2", "pow", "isnan", "isinf", "isfinite", "lround", "round", "strncasecmp", "log10", "log", "exp", "__errno_location"}
LOCALOUT = {"sprintf": 0, "snprintf": 0, "vsnprintf": 0, "strcpy": 0, "strncpy": 0, "strcat": 0, "strncat": 0, "memcpy": 0, "memset": 0, "memmove": 0}


class Verbose:
    def __init__(self, M, var="gu_verbose"):
        self.M = M
        self.var = var
        self.quietmemo = {}
        self.calls, self.taken = callsof(M)
        self.rets = set()           # own functions whose result may depend on verbose mode
        self.pars = {}              # own function -> parameters that may

    def own(self, name):
        f = self.M.fns.get(name)
        return f is not None and f.internal and name not in self.taken and name in self.calls

    def harmless(self, fn, defs, i, taintedallocas=None):
        """None if the instruction has no effect but text on stderr (and on own locals), else what it does"""
        if i.op == "store":
            r = root(defs, i.a[1])
            if all(x.startswith("%") for x in r):
                if taintedallocas is not None:
                    taintedallocas |= r
                return None
            return "stores to memory"
        if i.op == "call":
            c = i.a[0]
            if not c.startswith("@"):
                return "calls through a pointer"
            c = c[1:]
            if c.startswith("llvm.lifetime") or c.startswith("llvm.is.fpclass") or c.startswith("llvm.fabs") or c.startswith("llvm.va") or c.startswith("llvm.expect") or c.startswith("llvm.assume"):
                return None
            if c in TOSTREAM:
                v = i.a[1][TOSTREAM[c]][1]
                d = defs.get(v)
                if d is not None and d.op == "load" and d.a[0] in ("@stderr", "@stdout") and (d.a[0] == "@stderr" or c == "fflush"):
                    return None
                return "writes to another stream than stderr by %s()" % c
            if c == "perror" or c in HARMLESS:
                return None
            if c in LOCALOUT or c.startswith("llvm.memcpy") or c.startswith("llvm.memset") or c.startswith("llvm.memmove"):
                r = root(defs, i.a[1][0][1])
                if all(x.startswith("%") for x in r):
                    if taintedallocas is not None:
                        taintedallocas |= r
                    return None
                return "writes memory by %s()" % c
            if c in self.M.fns:
                q = self.quiet(c)
                return None if q is None else "calls %s(), which %s" % (c, q)
            return "calls %s()" % c
        if i.op in ("atomicrmw", "cmpxchg", "fence", "invoke"):
            return i.op
        return None

    def quiet(self, name):
        if name in self.quietmemo:
            return self.quietmemo[name]
        self.quietmemo[name] = None     # recursion adds nothing
        fn = self.M.fns[name]
        defs = {i.res: i for b in fn.blocks.values() for i in b.insts if i.res}
        r = None
        for b in fn.blocks.values():
            for i in b.insts:
                r = r or self.harmless(fn, defs, i)
                if i.op == "unreachable":
                    r = r or "may not return"
        self.quietmemo[name] = r
        return r

    def check(self, rep, fn):
        defs = {i.res: i for b in fn.blocks.values() for i in b.insts if i.res}
        at = {i.res: b for b in fn.blocks.values() for i in b.insts if i.res}
        taint = set()
        mem = set()
        for b in fn.blocks.values():
            for i in b.insts:
                if i.op == "load" and i.a[0] == "@" + self.var:
                    taint.add(i.res)
                if i.op == "call" and i.res and i.a[0][1:] in self.rets:
                    taint.add(i.res)
        taint |= self.pars.get(fn.name, set())
        if not taint:
            return 0
        post, succ, EXIT = regions(fn)
        inside = {}
        bad = {}
        ch = True
        while ch:
            n0 = (len(taint), len(mem), len(inside))
            for b in fn.blocks.values():
                for i in b.insts:
                    ops = set(re.findall(r"%[\w.]+", re.sub(r"!.*", "", i.text.split(" = ", 1)[-1] if i.res else i.text)))
                    if i.op == "load" and root(defs, i.a[0]) & mem:
                        taint.add(i.res)
                    if i.res and ops & taint and i.op not in ("br", "switch", "call", "load"):
                        taint.add(i.res)
                    if i.op == "load" and i.a[0] in taint:
                        taint.add(i.res)
                    if i.op == "call" and i.res and ops & taint:
                        taint.add(i.res)
                    if i.op in ("br", "switch") and ops & taint and len(b.succs) > 1:
                        end = post[b.label]
                        st = [s for s in b.succs if s != end]
                        reg = set()
                        while st:
                            x = st.pop()
                            if x in reg or x == end:
                                continue
                            reg.add(x)
                            st.extend(s for s in succ[x] if s != EXIT)
                        for x in reg:
                            inside.setdefault(x, i)
                        if end != EXIT:
                            for p in fn.blocks[end].insts:
                                if p.op == "phi":
                                    vals = {v for v, l in p.a if l in reg or l == b.label}
                                    if len(vals) > 1:
                                        taint.add(p.res)
            for l in inside:
                for i in fn.blocks[l].insts:
                    self.harmless(fn, defs, i, mem)
            ch = n0 != (len(taint), len(mem), len(inside))
        for l, br in inside.items():
            for i in fn.blocks[l].insts:
                w = self.harmless(fn, defs, i)
                if w is None and i.op in ("ret", "unreachable"):
                    w = "ends the function"
                if w:
                    bad[id(i)] = (i, "under verbose mode only, %s %s" % (fn.name, w))
        for b in fn.blocks.values():
            for i in b.insts:
                ops = set(re.findall(r"%[\w.]+", re.sub(r"!.*", "", i.text.split(" = ", 1)[-1] if i.res else i.text)))
                if not ops & taint:
                    continue
                if i.op == "store" and not all(x.startswith("%") for x in root(defs, i.a[1])):
                    bad[id(i)] = (i, "%s stores a value that depends on verbose mode" % fn.name)
                elif i.op == "store":
                    mem |= root(defs, i.a[1])
                elif i.op == "ret" and self.own(fn.name):
                    self.rets.add(fn.name)
                elif i.op == "ret":
                    bad[id(i)] = (i, "%s returns a value that depends on verbose mode" % fn.name)
                elif i.op == "call" and i.a[0].startswith("@") and self.own(i.a[0][1:]):
                    f = self.M.fns[i.a[0][1:]]
                    w = None if not self.harmless(fn, defs, i) else {f.params[k][1] if isinstance(f.params[k], tuple) else f.params[k] for k, (t, v) in enumerate(i.a[1]) if v in taint and k < len(f.params)}
                    if w:
                        self.pars.setdefault(f.name, set()).update(w)
                elif i.op == "call" and self.harmless(fn, defs, i):
                    bad[id(i)] = (i, "a value that depends on verbose mode reaches a call: %s %s" % (fn.name, self.harmless(fn, defs, i)))
        for i, w in bad.values() if rep is not None else ():
            rep.findings.append(Finding(where(self.M, fn.name, i), w))
        return len(inside)


def verbosity(rep):
    srcs = library()
    M = ir.build(srcs, inline=False)
    V = Verbose(M)
    rep.obl += 1
    nb = nf = 0
    n0 = None
    while n0 != (len(V.rets), sum(map(len, V.pars.values()))):
        n0 = (len(V.rets), sum(map(len, V.pars.values())))
        for fn in M.fns.values():
            V.check(None, fn)
    for fn in M.fns.values():
        rep.functions.add(fn.name)
        rep.programs += 1
        rep.obl += 1
        rep.insts += sum(len(b.insts) for b in fn.blocks.values())
        n = V.check(rep, fn)
        if n:
            nf += 1
            nb += n
            rep.samples.append("%s: %d blocks run only in verbose mode" % (fn.name, n))
    for fn in M.fns.values():
        for b in fn.blocks.values():
            for i in b.insts:
                t = re.sub(r"!.*", "", i.text)
                if V.var in names(t) and not (i.op == "load" and i.a[0] == "@" + V.var):
                    rep.findings.append(Finding(where(M, fn.name, i), "%s changes verbose mode or takes its address" % fn.name))
    rep.count("functions that look at verbose mode", nf)
    rep.count("blocks run in verbose mode only", nb)
