"""Path exploration (fork per feasible symbolic branch) and the run context."""
import os, sys, json, time, signal, struct, traceback, mmap
from . import term as tm, smt
from .term import T, Unsupported
import z3

class PathEnd(Exception):
    """assumption violated: the path is dropped"""
class Violation(Exception):
    def __init__(self, kind, msg, model=None):
        super().__init__(msg); self.kind = kind; self.msg = msg; self.model = model
class MemFault(Exception):
    """out-of-bounds / invalid access in interpreted C (or unsafe ML) code"""
class GCFault(Exception):
    """use of an OCaml value across a possible collection without registering it"""
class CAbort(Exception):
    """abort() / failed assert in C"""
class Timeout(Exception): pass

class Ctx:
    def __init__(self):
        self.pc = []              # path condition, list of 1-bit T
        self.known = {}           # T -> 0/1 established on this path
        self.model = None         # satisfying assignment of pc (smt.Model) or None
        self.solver = None
        self.decisions = []       # trace of branch outcomes (for diagnostics)
        self.inputs = []          # (name, width, T) symbolic inputs in creation order
        self.tape = []            # replay tape entries
        self.explore = False
        self.deadline = None
        self.resf = None          # result fd
        self.jobs = None          # jobserver fds
        self.children = []
        self.holding = False
        self.branches = 0
        self.forks = 0
        self.qtimeout = 20000
        self.maxpaths = None
        self.obtimeout = 20000
        self.inst = None
        self.hw = 1
        self.scenario = ''
        self.replaying = False
C = Ctx()

def out(rec):
    data = (json.dumps(rec) + '\n').encode()
    # records may exceed PIPE_BUF: use an append-mode file (atomic append per write)
    os.write(C.resf, data)

FLAG = mmap.mmap(-1, 8)       # shared by all processes of a run: set once a violation was found
def flagged(): return FLAG[0] != 0

def _alarm(*a): raise Timeout()
def arm():
    """hard limit for interpreted work (z3 calls have their own limit)"""
    if C.deadline:
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, max(0.5, C.deadline + 3 - time.time()), 3)   # repeated: one raised inside a finaliser is lost

def assume(c):
    """add a 1-bit value to the path condition"""
    if type(c) is int:
        if not c: raise PathEnd()
        return
    k = simp(c)
    if type(k) is int:
        if not k: raise PathEnd()
        return
    push(c)
    ok = holds_in_model(c)
    if not ok:
        r, m = smt.check(C.pc, C.qtimeout)
        if r == 'unsat': raise PathEnd()
        C.model = m if r == 'sat' else None

def push(c):
    C.pc.append(c)
    learn(c)

def learn(c):
    C.known[c] = 1
    if c.op == 'xor' and c.a[0] == 1 and len(c.a[1]) == 1: C.known[c.a[1][0]] = 0
    elif c.op == 'and':
        for x in c.a[1]: learn(x)

def simp(c):
    k = C.known.get(c)
    if k is not None: return k
    n = tm.xor(1, c, 1)
    k = C.known.get(n)
    if k is not None: return 1 - k
    if c.op == 'and':
        for x in c.a[1]:
            if C.known.get(x) == 0: return 0
    return c

def holds_in_model(c):
    if C.model is None: return False
    try: return C.model.eval([c])[0] == 1
    except Unsupported: return False

def get_model():
    if C.model is None:
        r, m = smt.check(C.pc, C.qtimeout)
        if r == 'sat': C.model = m
        elif r == 'unsat': raise PathEnd()
    return C.model

def feasible(c):
    """is pc /\\ c satisfiable?  (unknown counts as feasible)  returns (bool, model)"""
    if type(c) is int: return bool(c), C.model
    k = simp(c)
    if type(k) is int: return bool(k), C.model
    if holds_in_model(c): return True, C.model
    if C.model is not None:
        # the path condition is satisfiable: only the part connected to c matters
        part = related(c)
        if part is not None:
            r, m = smt.check(part + [c], C.qtimeout)
            if r == 'sat':
                md = smt.Model(); md.update(C.model); md.uf = dict(C.model.uf)
                for v in tm.support(part + [c]): md[v.a[0]] = m.get(v.a[0], 0)
                m = md
            return r != 'unsat', (m if r == 'sat' else None)
    r, m = smt.check(C.pc + [c], C.qtimeout)
    return r != 'unsat', (m if r == 'sat' else None)

_syms = {}
def syms(c):
    r = _syms.get(c)
    if r is None:
        r = set()
        for t in tm.topo([c]):
            if t.op == 'var': r.add(t.a[0])
            elif t.op == 'uf': r = None; break
        _syms[c] = r if r is not None else 0
    return _syms[c]
def related(c):
    """the conjuncts of the path condition connected to c by variables; None when c involves uninterpreted functions"""
    s = syms(c)
    if s == 0: return None
    s = set(s)
    rest = []; part = []
    for p in C.pc:
        q = syms(p)
        if q == 0:
            for v in tm.support([p]):
                if v.a[0] in s: return None
            rest.append((p, {v.a[0] for v in tm.support([p])}, True))
        else: rest.append((p, q, False))
    while True:
        more = [x for x in rest if not x[1].isdisjoint(s)]
        rest = [x for x in rest if x[1].isdisjoint(s)]
        if not more: return part
        for p, q, u in more:
            if u: return None
            part.append(p); s |= q

def choose(v, w, lo, hi):
    """fork over the values lo..hi of the fresh variable v (constrained to that range and to nothing else)"""
    C.branches += 1
    check_time()
    base = get_model()
    for x in range(lo, hi + 1):
        last = x == hi
        if last or fork():
            c = tm.eq(w, v, x)
            push(c)
            if base is not None:
                md = smt.Model(); md.update(base); md.uf = dict(base.uf); md[v.a[0]] = x
                C.model = md
            C.decisions.append(x)
            return x

def must(c):
    """does the path condition imply c?"""
    f, m = feasible(tm.xor(1, c, 1) if type(c) is T else 1 - c)
    return not f

def check_time():
    if C.deadline and time.time() > C.deadline: raise Timeout()

def branch(c, why=None):
    """decide a 1-bit value; forks when both outcomes are feasible"""
    if type(c) is int: return bool(c)
    k = simp(c)
    if type(k) is int: return bool(k)
    C.branches += 1
    check_time()
    nc = tm.xor(1, c, 1)
    m = get_model()
    if m is not None and m.eval([c])[0] == 1:
        ft, mt = True, m
        ff, mf = feasible(nc)
    elif m is not None:
        ff, mf = True, m
        ft, mt = feasible(c)
    else:
        ft, mt = feasible(c); ff, mf = feasible(nc)
    if ft and ff:
        if not C.explore:
            raise Unsupported('symbolic branch outside exploration')
        if fork():
            take = True
        else: take = False
        C.decisions.append(1 if take else 0)
    elif ft: take = True
    elif ff: take = False
    else: raise PathEnd()
    if ft and ff:
        push(c if take else nc)
        C.model = mt if take else mf
    else:
        # implied: remember, no need to assert
        learn(c if take else nc)
    return take

def fork():
    """returns True in the child, False in the parent"""
    C.forks += 1
    sys.stdout.flush(); sys.stderr.flush()
    got = False
    try:
        if os.read(C.jobs[0], 1): got = True
    except BlockingIOError: pass
    pid = os.fork()
    if pid == 0:
        C.children = []
        C.holding = got
        C.branches = 0; C.forks = 0
        C.isroot = False
        smt.STATS.__init__(); C.t0 = time.time()
        arm()
        return True
    if got: C.children.append(pid)
    else:
        while True:
            try: os.waitpid(pid, 0); break
            except InterruptedError: pass
    return False

def concretize(v, w, what='value', limit=300):
    """fork over the feasible values of v"""
    if type(v) is int: return v
    for _ in range(limit):
        m = get_model()
        if m is None: raise Unsupported('cannot concretise ' + what)
        x = m.eval([v])[0]
        if branch(tm.eq(w, v, x)): return x
    raise Unsupported('too many values for ' + what)

# -------------------------------------------------------------- exploration
def explore1(fn, resfile, deadline=None):
    """run fn() on every feasible path; fn writes records with out().  Uses C.jobs (token pipe)."""
    C.resf = os.open(resfile, os.O_WRONLY | os.O_CREAT | os.O_APPEND | os.O_TRUNC, 0o600)
    C.explore = True
    C.deadline = deadline
    C.isroot = True; C.t0 = time.time()
    smt.STATS.__init__()
    arm()
    try:
        try:
            try: fn()
            finally: signal.setitimer(signal.ITIMER_REAL, 0)
        except PathEnd: out({'end': 'dropped'})
        except Timeout: out({'end': 'timeout'})
        except Unsupported as e: out({'end': 'unsupported', 'msg': str(e)})
        except MemoryError: out({'end': 'unsupported', 'msg': 'memory'})
        except RecursionError: out({'end': 'unsupported', 'msg': 'recursion'})
        except Exception as e:
            out({'end': 'internal', 'msg': traceback.format_exc()[-1500:]})
    finally:
        for pid in C.children:
            while True:
                try: os.waitpid(pid, 0); break
                except InterruptedError: pass
                except ChildProcessError: break
        st = smt.STATS.as_dict(); st['branches'] = C.branches; st['forks'] = C.forks; st['wall'] = round(time.time() - C.t0, 2)
        out({'stats': st})
        if not C.isroot:
            if C.holding: os.write(C.jobs[1], b'x')
            os._exit(0)
    os.close(C.resf)
    C.explore = False
