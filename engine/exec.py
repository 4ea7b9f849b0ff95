"""Symbolic executor / verification-condition generator over the LLVM IR of the real headers.

 * floating point values are mathematical reals (terms.py), stated as an assumption in the evidence
 * states are merged at immediate post-dominators, so a function yields one guarded state, not a path set
 * exceptions are separate guarded exit states
 * loops whose trip count is concrete are executed; the others get an invariant: every cell is either
   given by a closed form in the iteration number, proved by induction, or havocked
"""
import os
import struct
import re
from fractions import Fraction
import ir
from ir import Unsupported
from terms import *
import terms as tm


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off):
        self.o = o; self.off = off

    def __eq__(self, b):
        return isinstance(b, Ptr) and b.o == self.o and b.off == self.off

    def __hash__(self):
        return hash((self.o, self.off))

    def __repr__(self):
        return 'P(%s+%s)' % (self.o, self.off)


NULL = Ptr(0, 0)


class PIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c = c; self.a = a; self.b = b

    def __eq__(self, x):
        return isinstance(x, PIte) and x.c is self.c and x.a == self.a and x.b == self.b

    def __hash__(self):
        return hash((self.c.id, self.a, self.b))


class PtrInt:
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __eq__(self, b):
        return isinstance(b, PtrInt) and b.p == self.p

    def __hash__(self):
        return hash(('pi', self.p))


DEBUG = os.environ.get('VF_DEBUG')


class Pair:
    """integer holding the bytes of several cells (a block copy through an integer register)"""
    __slots__ = ('parts', 'n')

    def __init__(self, parts, n):
        self.parts = tuple(parts); self.n = n

    def __eq__(self, b):
        return isinstance(b, Pair) and b.n == self.n and b.parts == self.parts

    def __hash__(self):
        return hash((self.n, len(self.parts)))

    def __repr__(self):
        return 'Pair%r' % (self.parts,)


class Bits:
    """integer holding the bit pattern of a real"""
    __slots__ = ('t', 'n')

    def __init__(self, t, n):
        self.t = t; self.n = n

    def __eq__(self, b):
        return isinstance(b, Bits) and b.t is self.t

    def __hash__(self):
        return hash(('bits', self.t.id))


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Lost:
    """a value that could not be represented where two ways meet; any use of it fails"""
    def __repr__(self):
        return 'lost'


LOST = Lost()


class Zero:
    """zero bytes of any type"""
    def __repr__(self):
        return 'Z'


ZB = Zero()


class Func:
    __slots__ = ('name',)

    def __init__(self, n):
        self.name = n

    def __eq__(self, b):
        return isinstance(b, Func) and b.name == self.name

    def __hash__(self):
        return hash(self.name)


class Obj:
    __slots__ = ('size', 'cells', 'type', 'name', 'alive', 'owner', 'kind')

    def __init__(self, size, typ, name, kind):
        self.size = size; self.cells = {}; self.type = typ; self.name = name; self.alive = True
        self.owner = None; self.kind = kind

    def clone(self, owner):
        o = Obj(self.size, self.type, self.name, self.kind)
        o.cells = dict(self.cells); o.alive = self.alive; o.owner = owner
        return o


class State:
    __slots__ = ('mem', 'pc', 'draws', 'ndraws', 'out', 'tok', 'exc')

    def __init__(self):
        self.mem = {}; self.pc = []; self.draws = []; self.ndraws = IC(0); self.out = []; self.tok = object(); self.exc = None

    def fork(self):
        s = State()
        s.mem = dict(self.mem); s.pc = list(self.pc); s.draws = list(self.draws) if self.draws is not None else None
        s.ndraws = self.ndraws
        s.out = list(self.out); s.exc = self.exc
        self.tok = object(); s.tok = object()
        return s

    def wobj(self, oid):
        o = self.mem[oid]
        if o.owner is not self.tok:
            o = o.clone(self.tok)
            self.mem[oid] = o
        return o


class Stop(Exception):
    """path terminated by a failed safety condition (an obligation was recorded)"""


class NeedAccel(Exception):
    def __init__(self, key):
        self.key = key


class Obligation:
    __slots__ = ('id', 'kind', 'pc', 'a', 'b', 'harness', 'where')

    def __init__(self, id, kind, pc, a, b, harness, where=''):
        self.id = id; self.kind = kind; self.pc = pc; self.a = a; self.b = b; self.harness = harness; self.where = where


def exact_double(f):
    if f != f or f in (float('inf'), float('-inf')):
        raise Unsupported('non finite constant')
    return Fraction(f)


def to_signed(x, n):
    x &= (1 << n) - 1
    return x - (1 << n) if x >> (n - 1) else x


class Frame:
    def __init__(self, f):
        self.f = f
        self.returns = []
        self.exc = []
        self.cap = None
        self.exitcount = {}
        self.counted = set()
        self.allocas = []


class Capture:
    def __init__(self, header, body):
        self.header = header; self.body = body; self.exits = []; self.backs = []; self.started = False


class Engine:
    MAX_STEPS = 8_000_000

    def __init__(self, module, decide, prove_eq=None, harness='', float_exact=False):
        self.m = module
        self.decide_fn = decide          # (pc list, cond) -> True/False/None
        self.prove_eq = prove_eq         # (pc, a, b) -> bool, used by loop acceleration
        self.harness = harness
        self.obls = []
        self.inputs = []                 # (name, sort, lo, hi)
        self.names = {}
        self.nobj = 0
        self.gobj = {}
        self.gmut = set(); self.gwritten = set(); self.ginit = False
        self.havocs = []                 # layouts for the native replay
        self.layouts = []
        self.spill = None                # told the layouts as they become known
        self.accel = set()
        self.steps = 0
        self.visited = {}
        self.float_exact = float_exact
        self.assumes = 0
        self.trusted = set()
        self.accel_info = []
        self.lifted = {}     # id of a loop invariant instance -> the entry fact it generalises
        self.stub = {}                   # name -> handler
        self.last_pc = []
        self.fresh_objs = 0

    # ------------------------------------------------------------------ memory
    def alloc(self, st, size, typ=None, name='', kind='stack'):
        self.nobj += 1
        o = Obj(size, typ, name, kind)
        o.owner = st.tok
        st.mem[self.nobj] = o
        return Ptr(self.nobj, 0)

    def global_ptr(self, st, name):
        if name in self.m.aliases:
            return self.const(st, self.m.aliases[name], ir.PTR)
        if name in self.m.functions or name in self.m.decls:
            return Func(name)
        oid = self.gobj.get(name)
        if oid is None:
            self.nobj += 1
            oid = self.nobj
            self.gobj[name] = oid
        if oid not in st.mem:
            t, init, const = self.m.globals[name]
            try:
                size = self.m.sizeof(t)
            except Unsupported:
                size = 1 << 20
            o = Obj(size, t, name, 'const' if const else 'global')
            o.owner = st.tok
            st.mem[oid] = o
            if init is not None:
                self.ginit = True
                try:
                    self.init_global(st, oid, 0, t, init)
                    if name in self.gmut:
                        self.havoc_global(st, oid, t, name)
                finally:
                    self.ginit = False
                if not const and name in self.m.stored and not name.startswith('_ZGV') and '_ZGV' + name[2:] not in self.m.globals:
                    self.gwritten.add(name)
        return Ptr(oid, 0)

    # static storage that the program changes is part of the history: whatever an earlier call may have
    # left there has to be allowed for. Found in a first run, then the contract is run again from
    # arbitrary contents. Statics initialised once with constants stay what they are.
    def havoc_global(self, st, oid, t, name):
        if name.startswith('_ZGV'):
            nm = 'static ' + name
            self.inputs.append((nm, 'B', None, None))
            one = t[0] == 'i' and t[1] == 1
            self.kill(st, oid, 0, 1 if one else 8 if self.m.sizeof(t) == 8 else 1)
            self.store(st, Ptr(oid, 0), ('i', 1 if one else 8), BV(nm) if one else ite(BV(nm), IC(1), IC(0)))
            return
        for off, lt_, path in self.m.leaves(t):
            nm = 'static %s+%d' % (name, off)
            names = [x for x in path if isinstance(x, str)]
            if lt_[0] == 'f':
                if any('::param_type' in x for x in names):
                    continue
                self.inputs.append((nm, 'R', None, None))
                self.store(st, Ptr(oid, off), lt_, V(nm))
            elif lt_[0] == 'i' and lt_[1] <= 8:
                self.inputs.append((nm, 'B', None, None))
                self.store(st, Ptr(oid, off), lt_, ite(BV(nm), IC(1), IC(0)) if lt_[1] == 8 else BV(nm))
            elif lt_[0] == 'i':
                if any('linear_congruential' in x for x in names):
                    lo, hi = 1, 2147483646
                else:
                    lo, hi = -(1 << (lt_[1] - 1)), (1 << (lt_[1] - 1)) - 1
                self.inputs.append((nm, 'I', lo, hi))
                self.store(st, Ptr(oid, off), lt_, IV(nm))
                if lo == 1:
                    st.pc += [ile(IC(lo), IV(nm)), ile(IV(nm), IC(hi))]

    def constant_cells(self, st, oid, seen):
        if oid in seen:
            return True
        seen.add(oid)
        for n, v in st.mem[oid].cells.values():
            if isinstance(v, Ptr):
                if v.o in st.mem and v.o != 0 and not self.constant_cells(st, v.o, seen):
                    return False
            elif not (isinstance(v, int) or v is ZB or v is TRUE or v is FALSE or getattr(v, 'op', '') in ('c', 'ic')):
                return False
        return True

    def note_write(self, st, o):
        name = o.name
        if name.startswith('_ZGV'):
            # initialised here; with what the first call happened to bring?
            x = self.gobj.get('_Z' + name[4:])
            if x is None or x not in st.mem or not self.constant_cells(st, x, set()):
                self.gwritten.update((name, '_Z' + name[4:]))
            return
        g = '_ZGV' + name[2:]
        if g in self.m.globals and g in self.gobj and self.gobj[g] in st.mem:
            c = st.mem[self.gobj[g]].cells.get(0)
            if c is None or c[1] in (0, ZB, FALSE) or c[1] is IC(0):
                return
            self.gwritten.add(g)
        self.gwritten.add(name)

    def init_global(self, st, oid, off, t, init):
        t = self.m.resolve(t)
        if init[0] == 'zero':
            self.memset0(st, oid, off, self.m.sizeof(t)); return
        if init[0] == 'undef':
            return
        if init[0] == 'cs':
            o = st.wobj(oid)
            for i, b in enumerate(init[1]):
                o.cells[off + i] = (1, b)
            return
        if init[0] == 'agg':
            if t[0] == 'st':
                for i, (et, ev) in enumerate(init[1]):
                    self.init_global(st, oid, off + self.m.field_off(t, i), et, ev)
            else:
                s = self.m.sizeof(t[2])
                for i, (et, ev) in enumerate(init[1]):
                    self.init_global(st, oid, off + i * s, et, ev)
            return
        self.store(st, Ptr(oid, off), t, self.const(st, init, t))

    def memset0(self, st, oid, off, n):
        self.kill(st, oid, off, n)
        o = st.wobj(oid)
        i = 0
        while i < n:
            step = 8 if (off + i) % 8 == 0 and n - i >= 8 else (4 if (off + i) % 4 == 0 and n - i >= 4 else 1)
            o.cells[off + i] = (step, ZB)
            i += step

    def overlapping(self, o, off, n):
        r = []
        for s in range(max(0, off - 15), off + n):
            c = o.cells.get(s)
            if c is not None and s + c[0] > off:
                r.append((s, c))
        return r

    def split_cell(self, o, s, c):
        """split a cell into bytes if its value allows it"""
        size, v = c
        del o.cells[s]
        if v is ZB:
            for i in range(size):
                o.cells[s + i] = (1, ZB)
        elif isinstance(v, int):
            for i in range(size):
                o.cells[s + i] = (1, (v >> (8 * i)) & 255)
        elif isinstance(v, (Undef, T)):
            pass                          # the other bytes become arbitrary
        else:
            raise Unsupported('partial overwrite of a symbolic cell')

    def kill(self, st, oid, off, n):
        o = st.wobj(oid)
        if o.kind == 'global' and not self.ginit:
            self.note_write(st, o)
        for s, c in self.overlapping(o, off, n):
            if s >= off and s + c[0] <= off + n:
                del o.cells[s]
            else:
                self.split_cell(o, s, c)
                for k in list(range(max(s, off), min(s + c[0], off + n))):
                    o.cells.pop(k, None)

    def check_access(self, st, p, n, what):
        if not isinstance(p, Ptr):
            raise Unsupported('access through %r' % (p,))
        o = st.mem.get(p.o)
        if p.o == 0 or o is None or p.off < 0 or p.off + n > o.size or not o.alive:
            self.fail_path(st, 'memory-safety', '%s of %d bytes at %r (object %s)' % (what, n, p, o and (o.name, o.size, o.alive)))
        return o

    def fail_path(self, st, kind, what):
        self.obls.append(Obligation(kind, 'unreachable', list(st.pc), None, None, self.harness, what))
        raise Stop(what)

    def store(self, st, p, t, v):
        t = self.m.resolve(t)
        if isinstance(p, PIte):
            old_a = self.load(st, p.a, t)
            old_b = self.load(st, p.b, t)
            self.store(st, p.a, t, self.vite(p.c, v, old_a, t))
            self.store(st, p.b, t, self.vite(p.c, self.load(st, p.b, t), v, t))
            return
        if t[0] in ('st', 'arr', 'vec'):
            if t[0] == 'st':
                for i, e in enumerate(t[1]):
                    self.store(st, Ptr(p.o, p.off + self.m.field_off(t, i)), e, self.agg(v, i, t))
            else:
                s = self.m.sizeof(t[2])
                for i in range(t[1]):
                    self.store(st, Ptr(p.o, p.off + i * s), t[2], self.agg(v, i, t))
            return
        n = self.m.sizeof(t)
        self.check_access(st, p, n, 'store')
        self.kill(st, p.o, p.off, n)
        o = st.wobj(p.o)
        if isinstance(v, Undef):
            return
        if t[0] == 'i' and t[1] == 1:
            v = 1 if v is TRUE else 0 if v is FALSE else ite(v, IC(1), IC(0))
        if isinstance(v, Pair):
            for rel, c in v.parts:
                o.cells[p.off + rel] = c
            return
        if isinstance(v, Bits):
            v = v.t
        o.cells[p.off] = (n, v)

    def agg(self, v, i, t):
        if isinstance(v, (Undef,)):
            return UNDEF
        if v is ZB:
            return ZB
        return v[i]

    def load(self, st, p, t):
        t = self.m.resolve(t)
        if isinstance(p, PIte):
            return self.vite(p.c, self.load(st, p.a, t), self.load(st, p.b, t), t)
        if t[0] == 'st':
            return tuple(self.load(st, Ptr(p.o, p.off + self.m.field_off(t, i)), e) for i, e in enumerate(t[1]))
        if t[0] in ('arr', 'vec'):
            s = self.m.sizeof(t[2])
            return tuple(self.load(st, Ptr(p.o, p.off + i * s), t[2]) for i in range(t[1]))
        n = self.m.sizeof(t)
        o = self.check_access(st, p, n, 'load')
        c = o.cells.get(p.off)
        if c is not None and c[0] == n:
            return self.conv(st, c[1], t, p)
        ov = self.overlapping(o, p.off, n)
        if not ov:
            # uninitialised: arbitrary value, remembered
            if t[0] == 'ptr':
                raise Unsupported('load of an uninitialised pointer from %s+%d' % (o.name, p.off))
            v = self.fresh_of(t, 'undef')
            o = st.wobj(p.o)
            o.cells[p.off] = (n, v if not (t[0] == 'i' and t[1] == 1) else ite(v, IC(1), IC(0)))
            return v
        # combine
        if all(c[1] is ZB for s, c in ov) and self.covered(ov, p.off, n):
            return self.conv(st, ZB, t, p)
        if self.covered(ov, p.off, n) and all(c[1] is ZB or isinstance(c[1], int) for s, c in ov):
            bs = {}
            for s, c in ov:
                for i in range(c[0]):
                    bs[s + i] = 0 if c[1] is ZB else (c[1] >> (8 * i)) & 255
            val = 0
            for i in range(n):
                val |= bs[p.off + i] << (8 * i)
            return self.conv(st, val, t, p)
        if t[0] == 'i' and all(s >= p.off and s + c[0] <= p.off + n for s, c in ov):
            return Pair([(s - p.off, c) for s, c in ov], n)
        if t[0] == 'i':
            v = self.fresh_of(t, 'mixed')
            return v
        raise Unsupported('mixed load at %s+%d %s' % (o.name, p.off, ov))

    def bytes_as(self, v, rel, like):
        v = (v >> (8 * rel)) & ((1 << (8 * like[0])) - 1)
        if isinstance(like[1], T) and like[1].s == 'R':
            return self.conv(None, v, ('f', 8 * like[0]))
        return v

    def subbits(self, v, lo, n):
        """the n bytes at byte offset lo of a Pair, as an integer value"""
        ps = [(r - lo, c) for r, c in v.parts if r >= lo and r + c[0] <= lo + n]
        if any(r < lo + n and r + c[0] > lo and not (r >= lo and r + c[0] <= lo + n) for r, c in v.parts):
            raise Unsupported('partial read of a packed value')
        if len(ps) == 1 and ps[0][0] == 0 and ps[0][1][0] == n:
            return self.conv(None, ps[0][1][1], ('i', 8 * n))
        return Pair(ps, n)

    def covered(self, ov, off, n):
        cov = set()
        for s, c in ov:
            cov.update(range(s, s + c[0]))
        return all(i in cov for i in range(off, off + n))

    def fresh_of(self, t, pfx):
        if t[0] == 'f':
            return fresh(pfx)
        if t[0] == 'i':
            if t[1] == 1:
                return fresh(pfx, 'B')
            return fresh(pfx, 'I')
        raise Unsupported('fresh %s' % (t,))

    def conv(self, st, v, t, p=None):
        """value stored in a cell -> value of type t"""
        if t[0] == 'f':
            if v is ZB:
                return ZERO
            if isinstance(v, T):
                if v.s == 'R':
                    return v
                raise Unsupported('int cell read as float')
            if isinstance(v, int):
                f = struct.unpack('<d', struct.pack('<Q', v & (2 ** 64 - 1)))[0] if t[1] == 64 else struct.unpack('<f', struct.pack('<I', v & 0xffffffff))[0]
                return C(exact_double(f))
            if isinstance(v, Bits):
                return v.t
        elif t[0] == 'i':
            if v is ZB:
                return FALSE if t[1] == 1 else 0
            if isinstance(v, int):
                if t[1] == 1:
                    return TRUE if v & 1 else FALSE
                return v & ((1 << t[1]) - 1)
            if isinstance(v, T):
                if v.s == 'R':
                    if v.op == 'c':
                        return struct.unpack('<Q', struct.pack('<d', float(v.v)))[0] if t[1] == 64 else struct.unpack('<I', struct.pack('<f', float(v.v)))[0]
                    return Bits(v, t[1])
                if v.s == 'I' and t[1] == 1:
                    return bnot(ieq(v, IC(0)))
                return v
            if isinstance(v, Ptr) or isinstance(v, PIte):
                return PtrInt(v)
            if isinstance(v, (PtrInt, Pair)):
                return v
        elif t[0] == 'ptr':
            if v is ZB or v == 0:
                return NULL
            if isinstance(v, (Ptr, PIte, Func)):
                return v
            if isinstance(v, PtrInt):
                return v.p
        raise Unsupported('reading %r as %s' % (v, t))

    def memcpy(self, st, d, s, n):
        if isinstance(d, PIte) or isinstance(s, PIte):
            if isinstance(s, PIte):
                # copy via cells: per 8-byte reals only
                a = st.fork(); b = st.fork()
                self.memcpy(a, d, s.a, n); self.memcpy(b, d, s.b, n)
                a.pc = st.pc + [s.c]; b.pc = st.pc + [bnot(s.c)]
                r = self.merge(a, b)
                self.assign_state(st, r); return
            a = st.fork(); b = st.fork()
            self.memcpy(a, d.a, s, n); self.memcpy(b, d.b, s, n)
            a.pc = st.pc + [d.c]; b.pc = st.pc + [bnot(d.c)]
            r = self.merge(a, b)
            self.assign_state(st, r); return
        if n == 0:
            return
        self.check_access(st, d, n, 'memcpy-dst')
        so = self.check_access(st, s, n, 'memcpy-src')
        for x, c in self.overlapping(so, s.off, n):
            if not (x >= s.off and x + c[0] <= s.off + n):
                o = st.wobj(s.o)
                self.split_cell(o, x, c)
        so = st.mem[s.o]
        cells = [(x - s.off, c) for x, c in self.overlapping(so, s.off, n)]
        self.kill(st, d.o, d.off, n)
        o = st.wobj(d.o)
        for rel, c in cells:
            o.cells[d.off + rel] = c

    def assign_state(self, st, r):
        st.mem = r.mem; st.pc = r.pc; st.draws = r.draws; st.ndraws = r.ndraws; st.out = r.out; st.tok = r.tok

    # ------------------------------------------------------------------ merging
    def vite(self, c, a, b, t=None):
        if a is b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, Undef) or isinstance(b, Undef):
            o = b if isinstance(a, Undef) else a
            if isinstance(o, T) and o.s == 'R':
                u = fresh('undef')
                return ite(c, u, o) if isinstance(a, Undef) else ite(c, o, u)
            return o
        if isinstance(a, tuple) and isinstance(b, tuple):
            return tuple(self.vite(c, x, y) for x, y in zip(a, b))
        if isinstance(a, (Ptr, PIte, Func)) and isinstance(b, (Ptr, PIte, Func)):
            if a == b:
                return a
            return PIte(c, a, b)
        if isinstance(a, Pair) and isinstance(b, Pair) and [(r, x[0]) for r, x in a.parts] == [(r, x[0]) for r, x in b.parts]:
            return Pair([(r, (x[0], self.vite(c, x[1], y[1]))) for (r, x), (_, y) in zip(a.parts, b.parts)], a.n)
        if isinstance(a, Pair) and isinstance(b, int):
            return self.vite(c, a, Pair([(r, (x[0], self.bytes_as(b, r, x))) for r, x in a.parts], a.n))
        if isinstance(b, Pair) and isinstance(a, int):
            return self.vite(c, Pair([(r, (x[0], self.bytes_as(a, r, x))) for r, x in b.parts], b.n), b)
        if isinstance(a, Bits) and isinstance(b, Bits):
            return Bits(ite(c, a.t, b.t), a.n)
        if isinstance(a, Bits) and isinstance(b, int):
            b = self.conv(None, b, ('f', a.n))
            return Bits(ite(c, a.t, b), a.n)
        if isinstance(b, Bits) and isinstance(a, int):
            a = self.conv(None, a, ('f', b.n))
            return Bits(ite(c, a, b.t), b.n)
        if isinstance(a, PtrInt) and isinstance(b, PtrInt):
            if a == b:
                return a
            return PtrInt(PIte(c, a.p, b.p))
        if isinstance(a, int) and isinstance(b, int):
            if a == b:
                return a
            n = t[1] if t and t[0] == 'i' else 64
            return ite(c, IC(to_signed(a, n)), IC(to_signed(b, n)))
        if isinstance(a, int) and isinstance(b, T) and b.s == 'I':
            n = t[1] if t and t[0] == 'i' else 64
            return ite(c, IC(to_signed(a, n)), b)
        if isinstance(b, int) and isinstance(a, T) and a.s == 'I':
            n = t[1] if t and t[0] == 'i' else 64
            return ite(c, a, IC(to_signed(b, n)))
        if isinstance(a, T) and isinstance(b, T) and a.s == b.s:
            return ite(c, a, b)
        if a is ZB or b is ZB:
            # typed by the other one
            o = b if a is ZB else a
            z = self.zero_like(o)
            return self.vite(c, z if a is ZB else a, z if b is ZB else b, t)
        raise Unsupported('merge %r / %r' % (a, b))

    def zero_like(self, o):
        if isinstance(o, T):
            return {'R': ZERO, 'I': IC(0), 'B': FALSE}[o.s]
        if isinstance(o, int):
            return 0
        if isinstance(o, (Ptr, PIte)):
            return NULL
        if isinstance(o, Bits):
            return Bits(ZERO, o.n)
        if isinstance(o, PtrInt):
            return PtrInt(NULL)
        raise Unsupported('zero like %r' % (o,))

    def merge(self, A, B):
        """merge two disjoint guarded states"""
        k = 0
        while k < len(A.pc) and k < len(B.pc) and A.pc[k] is B.pc[k]:
            k += 1
        ra, rb = A.pc[k:], B.pc[k:]
        if not ra or not rb:
            # one guard implies the other: cannot discriminate
            disc = band(*ra) if ra else bnot(band(*rb)) if rb else TRUE
            if not ra and not rb:
                raise Unsupported('merging undiscriminated states')
        elif ra[0] is bnot(rb[0]):
            disc = ra[0]
        else:
            disc = band(*ra)
        st = State()
        st.pc = A.pc[:k]
        guard = bor(band(*ra), band(*rb))
        if guard is not TRUE:
            st.pc.append(guard)
        ids = set(A.mem) | set(B.mem)
        for i in ids:
            a = A.mem.get(i); b = B.mem.get(i)
            if a is b or b is None:
                st.mem[i] = a
            elif a is None:
                st.mem[i] = b
            else:
                st.mem[i] = self.merge_obj(disc, a, b, st)
        if self.lifted:
            for x, y, flip in ((ra, B, False), (rb, A, True)):
                for post in x:
                    F = self.lifted.get(post.id)
                    if F is not None and F in st.pc[:k]:
                        self.join_fact(F, post, A, B, st, flip)
        # ghost traces
        if A.draws is None or B.draws is None:
            st.draws = None
        else:
            st.draws = [ite(disc, x, y) for x, y in zip(A.draws, B.draws)]
            longer = A.draws if len(A.draws) > len(B.draws) else B.draws
            st.draws += longer[len(st.draws):]
        st.ndraws = ite(disc, A.ndraws, B.ndraws)
        if A.out == B.out:
            st.out = list(A.out)
        else:
            st.out = [('merged', disc, tuple(A.out), tuple(B.out))]
        st.exc = A.exc if A.exc == B.exc else (A.exc or B.exc)
        return st

    def join_fact(self, F, post, A, B, st, flip):
        """F holds for the old cell values, post is F for the new ones: F holds for the merged ones"""
        new, old = (B, A) if flip else (A, B)
        m1, m2 = {}, {}
        for i, o in st.mem.items():
            a, b = new.mem.get(i), old.mem.get(i)
            if a is None or b is None or a is b:
                continue
            for off, (n, v) in b.cells.items():
                w = a.cells.get(off)
                r = o.cells.get(off)
                if w is None or r is None or not isinstance(v, T) or not isinstance(w[1], T) or w[1] is v or not v.op == 'v':
                    continue
                if not isinstance(r[1], T):
                    continue
                m1[v.id] = w[1]; m2[v.id] = r[1]
        if m1 and subst(F, m1) is post:
            st.pc.append(subst(F, m2))

    strict_undef = True

    def merge_obj(self, c, a, b, st):
        if a.cells == b.cells and a.alive == b.alive:
            return a
        o = Obj(a.size, a.type, a.name, a.kind)
        o.alive = a.alive or b.alive
        o.owner = st.tok
        ac, bc = a.cells, b.cells
        if ac.keys() != bc.keys() or any(ac[k][0] != bc[k][0] for k in ac):
            ac, bc = self.unify_cells(dict(ac), dict(bc))
        for k in ac.keys() | bc.keys():
            x = ac.get(k); y = bc.get(k)
            if x is None or y is None:
                # not written on one of the two ways: unknown there
                n, v = y if x is None else x
                if isinstance(v, T) and v.s == 'R' and self.strict_undef:
                    u = fresh('undef')
                    v = ite(c, u, v) if x is None else ite(c, v, u)
                o.cells[k] = (n, v)
            elif x is y or (x[0] == y[0] and (x[1] is y[1])):
                o.cells[k] = x
            else:
                if x[0] != y[0]:
                    raise Unsupported('merging cells of different size in %s' % a.name)
                if x[1] is not ZB and y[1] is not ZB and not isinstance(x[1], T) and x[1] == y[1]:
                    o.cells[k] = x
                else:
                    o.cells[k] = (x[0], self.vite(c, x[1], y[1], ('i', 8 * x[0])))
        return o

    def unify_cells(self, ac, bc):
        """make zero filled cells of one side follow the granularity of the other"""
        for x, y in ((ac, bc), (bc, ac)):
            for k in sorted(x):
                if k not in x:
                    continue
                n, v = x[k]
                if (v is ZB or isinstance(v, int)) and (k not in y or y[k][0] != n):
                    ys = [j for j in range(k, k + n) if j in y]
                    if ys and all(j + y[j][0] <= k + n for j in ys) and (k not in y or y[k][0] < n):
                        del x[k]
                        pos = k
                        for j in ys:
                            while pos < j:
                                x[pos] = (1, ZB if v is ZB else (v >> (8 * (pos - k))) & 255); pos += 1
                            x[j] = (y[j][0], ZB if v is ZB else (v >> (8 * (j - k))) & ((1 << (8 * y[j][0])) - 1))
                            pos = j + y[j][0]
                        while pos < k + n:
                            x[pos] = (1, ZB if v is ZB else (v >> (8 * (pos - k))) & 255); pos += 1
        return ac, bc

    # ------------------------------------------------------------------ operands
    def const(self, st, v, t):
        k = v[0]
        if k == 'g':
            return self.global_ptr(st, v[1])
        if k == 'ic':
            t = self.m.resolve(t)
            if t[1] == 1:
                return TRUE if v[1] & 1 else FALSE
            return v[1] & ((1 << t[1]) - 1)
        if k == 'fc':
            return C(exact_double(v[1]))
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero_of(self.m.resolve(t))
        if k == 'gep':
            ops = [(tt, self.const(st, x, tt)) for tt, x in v[2]]
            return self.gep(st, v[1], ops)
        if k == 'cast':
            return self.cast(st, v[1], v[2], self.const(st, v[3], v[2]), v[4])
        if k == 'agg':
            return tuple(self.const(st, x, tt) for tt, x in v[1])
        if k == 'meta':
            return None
        if k == 'cbin':
            a = self.const(st, v[3], v[2]); b = self.const(st, v[4], v[2])
            if v[1] == 'icmp':
                return self.icmp(st, v[5], v[2], a, b)
            return self.ibin(st, v[1], v[2], a, b)
        raise Unsupported('constant %s' % (v,))

    def zero_of(self, t):
        t = self.m.resolve(t)
        if t[0] == 'i':
            return FALSE if t[1] == 1 else 0
        if t[0] == 'f':
            return ZERO
        if t[0] == 'ptr':
            return NULL
        if t[0] == 'st':
            return tuple(self.zero_of(e) for e in t[1])
        return tuple(self.zero_of(t[2]) for _ in range(t[1]))

    def val(self, env, st, v, t):
        if v[0] == 'l':
            r = env[v[1]]
            if r is LOST:
                raise Unsupported('use of a value that differs in kind between two ways')
            return r
        return self.const(st, v, t)

    def real(self, v):
        if isinstance(v, T) and v.s == 'R':
            return v
        if isinstance(v, Undef):
            return fresh('undef')
        if v is ZB:
            return ZERO
        raise Unsupported('real operand %r' % (v,))

    def boolean(self, v):
        if isinstance(v, T) and v.s == 'B':
            return v
        if isinstance(v, Undef):
            return fresh('undef', 'B')
        raise Unsupported('bool operand %r' % (v,))

    # ------------------------------------------------------------------ pointer arithmetic
    def gep(self, st, bt, ops):
        base = ops[0][1]
        if isinstance(base, PIte):
            a = self.gep(st, bt, [(ops[0][0], base.a)] + ops[1:])
            b = self.gep(st, bt, [(ops[0][0], base.b)] + ops[1:])
            return a if a == b else PIte(base.c, a, b)
        if isinstance(base, Func):
            raise Unsupported('gep on function')
        if isinstance(base, Undef):
            return UNDEF
        off = base.off
        t = bt
        symb = []
        for n, (it, iv) in enumerate(ops[1:]):
            if n == 0:
                es = self.m.sizeof(t)
            else:
                t = self.m.resolve(t)
                if t[0] == 'st':
                    off += self.m.field_off(t, iv)
                    t = t[1][iv]
                    continue
                t = t[2]
                es = self.m.sizeof(t)
            if isinstance(iv, int):
                off += to_signed(iv, it[1]) * es
            elif isinstance(iv, T) and iv.s == 'I':
                symb.append((iv, es))
            elif isinstance(iv, Undef):
                return UNDEF
            else:
                raise Unsupported('gep index %r' % (iv,))
        r = Ptr(base.o, off)
        for iv, es in symb:
            r = self.ptr_sym(st, r, iv, es)
        return r

    def ptr_sym(self, st, p, iv, es):
        if isinstance(p, PIte):
            return PIte(p.c, self.ptr_sym(st, p.a, iv, es), self.ptr_sym(st, p.b, iv, es))
        if iv.op == 'ic':
            return Ptr(p.o, p.off + iv.v * es)
        if iv.op == 'ite':
            return PIte(iv.a[0], self.ptr_sym(st, p, iv.a[1], es), self.ptr_sym(st, p, iv.a[2], es))
        o = st.mem[p.o]
        n = (o.size - p.off) // es
        if n > 64:
            raise Unsupported('symbolic index into a large object')
        # index must be in range, otherwise the access is out of bounds
        self.obls.append(Obligation('memory-safety', 'bool', list(st.pc), band(ile(IC(0), iv), ilt(iv, IC(n))), None, self.harness, 'symbolic index in bounds of %s' % o.name))
        r = Ptr(p.o, p.off + (n - 1) * es)
        for i in range(n - 2, -1, -1):
            r = PIte(ieq(iv, IC(i)), Ptr(p.o, p.off + i * es), r)
        return r

    # ------------------------------------------------------------------ integer ops
    def leaves_int(self, v, n):
        """ite tree with concrete leaves -> list of ints, else None"""
        if isinstance(v, int):
            return 1
        if v.op == 'ic':
            return 1
        if v.op == 'ite':
            a = self.leaves_int(v.a[1], n); b = self.leaves_int(v.a[2], n)
            if a is None or b is None:
                return None
            return a + b
        return None

    def map1(self, v, f):
        if v.op == 'ic':
            return f(v.v)
        return ite(v.a[0], self.map1(v.a[1], f), self.map1(v.a[2], f))

    def toI(self, v, n):
        if isinstance(v, int):
            return IC(to_signed(v, n))
        if isinstance(v, T) and v.s == 'I':
            return v
        if isinstance(v, Undef):
            return fresh('undef', 'I')
        if isinstance(v, T) and v.s == 'B':
            return ite(v, IC(1), IC(0))
        raise Unsupported('int operand %r' % (v,))

    def cint(self, op, a, b, n):
        M = (1 << n) - 1
        a &= M; b &= M
        if op == 'add':
            return (a + b) & M
        if op == 'sub':
            return (a - b) & M
        if op == 'mul':
            return (a * b) & M
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return (a << b) & M if b < n else 0
        if op == 'lshr':
            return a >> b if b < n else 0
        sa, sb = to_signed(a, n), to_signed(b, n)
        if op == 'ashr':
            return (sa >> b) & M if b < n else 0
        if b == 0:
            raise Unsupported('division by zero')
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        q = abs(sa) // abs(sb)
        if (sa < 0) != (sb < 0):
            q = -q
        if op == 'sdiv':
            return q & M
        if op == 'srem':
            return (sa - q * sb) & M
        raise Unsupported(op)

    def ibin(self, st, op, t, a, b):
        n = t[1]
        if n == 1:
            a = self.boolean(a); b = self.boolean(b)
            if op == 'and' or op == 'mul':
                return band(a, b)
            if op == 'or':
                return bor(a, b)
            if op in ('xor', 'add', 'sub'):
                return bxor(a, b)
            raise Unsupported('i1 %s' % op)
        if isinstance(a, int) and isinstance(b, int):
            return self.cint(op, a, b, n)
        if isinstance(a, Undef) or isinstance(b, Undef):
            return fresh('undef', 'I')
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            return self.ptrint(op, a, b, n)
        if isinstance(a, Pair) or isinstance(b, Pair):
            if op == 'lshr' and isinstance(a, Pair) and isinstance(b, int) and b % 8 == 0:
                k = b // 8
                hi = self.subbits(a, k, n // 8 - k)
                if isinstance(hi, Pair):
                    return Pair(hi.parts, n // 8)
                return Pair([(0, (n // 8 - k, hi.t if isinstance(hi, Bits) else hi)), (n // 8 - k, (k, ZB))], n // 8)
            if op == 'shl' and isinstance(a, Pair) and isinstance(b, int) and b % 8 == 0:
                k = b // 8
                return Pair([(0, (k, ZB))] + [(r + k, c) for r, c in a.parts if r + k + c[0] <= n // 8], n // 8)
            if op in ('or', 'xor', 'add') and isinstance(a, Pair) and isinstance(b, Pair):
                za = [(r, c) for r, c in a.parts if c[1] is not ZB]
                zb = [(r, c) for r, c in b.parts if c[1] is not ZB]
                if not any(r < r2 + c2[0] and r2 < r + c[0] for r, c in za for r2, c2 in zb):
                    return Pair(sorted(za + zb, key=lambda x: x[0]), n // 8)
            raise Unsupported('operation %s on a packed value' % op)
        if isinstance(a, Bits) or isinstance(b, Bits):
            if op == 'and' and isinstance(b, int) and isinstance(a, Bits):
                if b == (1 << (n - 1)) - 1:
                    return Bits(self.fabs(a.t), n)
            if op == 'xor' and isinstance(b, int) and b == 1 << (n - 1) and isinstance(a, Bits):
                return Bits(neg(a.t), n)
            if op == 'lshr' and isinstance(b, int) and b == n - 1 and isinstance(a, Bits):
                return ite(self.signbit(a.t), IC(1), IC(0))
            if op == 'xor':
                # only its sign can be used meaningfully
                sb = lambda v: self.signbit(v.t) if isinstance(v, Bits) else (TRUE if v >> (n - 1) & 1 else FALSE) if isinstance(v, int) else None
                x, y = sb(a), sb(b)
                if x is not None and y is not None:
                    return ('sgnxor', bxor(x, y))
            raise Unsupported('bit operation %s on a float' % op)
        a = self.toI(a, n); b = self.toI(b, n)
        la = self.leaves_int(a, n); lb = self.leaves_int(b, n)
        if la and lb and la * lb <= 256:
            return self.map1(a, lambda x: self.map1(b, lambda y: IC(to_signed(self.cint(op, x, y, n), n))))
        if op == 'add':
            return iadd(a, b)
        if op == 'sub':
            return iadd(a, imul(IC(-1), b))
        if op == 'mul':
            return imul(a, b)
        if op == 'shl' and b.op == 'ic':
            return imul(a, IC(1 << b.v))
        return ifn('%s%d' % (op, n), a, b)

    def pknow(self, p, c, v):
        # the pointer p where the condition c is known to be v
        while isinstance(p, PIte):
            if p.c is c or p.c == c:
                p = p.a if v else p.b
            elif bnot(p.c) == c:
                p = p.b if v else p.a
            else:
                x, y = self.pknow(p.a, c, v), self.pknow(p.b, c, v)
                return x if x == y else PIte(p.c, x, y) if x is not p.a or y is not p.b else p
        return p

    def ptrint(self, op, a, b, n):
        if isinstance(a, PtrInt) and isinstance(a.p, PIte):
            k = lambda v: PtrInt(self.pknow(b.p, a.p.c, v)) if isinstance(b, PtrInt) else b
            return self.vite(a.p.c, self.ptrint(op, PtrInt(self.pknow(a.p.a, a.p.c, True)), k(True), n),
                             self.ptrint(op, PtrInt(self.pknow(a.p.b, a.p.c, False)), k(False), n), ('i', n))
        if isinstance(b, PtrInt) and isinstance(b.p, PIte):
            return self.vite(b.p.c, self.ptrint(op, a, PtrInt(b.p.a), n), self.ptrint(op, a, PtrInt(b.p.b), n), ('i', n))
        if isinstance(a, PtrInt) and isinstance(b, PtrInt):
            if op == 'sub' and a.p.o == b.p.o:
                return (a.p.off - b.p.off) & ((1 << n) - 1)
        elif isinstance(a, PtrInt) and isinstance(b, int):
            s = to_signed(b, n)
            if op == 'add':
                return PtrInt(Ptr(a.p.o, a.p.off + s))
            if op == 'sub':
                return PtrInt(Ptr(a.p.o, a.p.off - s))
            if op == 'and' and 0 <= s < 16:
                return a.p.off & s
            if op == 'and' and s < 0 and -s <= 16:
                return PtrInt(Ptr(a.p.o, a.p.off & s))
            if a.p.o == 0:
                return self.cint(op, a.p.off, b, n)
        elif isinstance(b, PtrInt) and isinstance(a, int):
            if op == 'add':
                return PtrInt(Ptr(b.p.o, b.p.off + to_signed(a, n)))
        raise Unsupported('pointer arithmetic %s' % op)

    def signbit(self, t):
        if t.op == 'c':
            return TRUE if t.v < 0 else FALSE
        # sign of a zero is not tracked by reals: left arbitrary
        return bor(lt(t, ZERO), band(eq(t, ZERO), bfn('signbit_of_zero', t)))

    def fabs(self, t):
        if t.op == 'c':
            return C(abs(t.v))
        return ite(lt(t, ZERO), neg(t), t)

    def icmp(self, st, pred, t, a, b):
        if t[0] == 'ptr':
            if isinstance(a, PIte):
                return ite(a.c, self.icmp(st, pred, t, self.pknow(a.a, a.c, True), self.pknow(b, a.c, True)),
                           self.icmp(st, pred, t, self.pknow(a.b, a.c, False), self.pknow(b, a.c, False)))
            if isinstance(b, PIte):
                return ite(b.c, self.icmp(st, pred, t, a, b.a), self.icmp(st, pred, t, a, b.b))
            if isinstance(a, Func) or isinstance(b, Func):
                if pred in ('eq', 'ne'):
                    return TRUE if (a == b) == (pred == 'eq') else FALSE
                raise Unsupported('icmp func')
            if isinstance(a, Undef) or isinstance(b, Undef):
                return fresh('undef', 'B')
            if pred in ('eq', 'ne'):
                return TRUE if (a == b) == (pred == 'eq') else FALSE
            if a.o == b.o:
                return self.ccmp(pred, a.off, b.off, 64)
            if a.o == 0 or b.o == 0 or True:
                # different objects: any consistent order is possible; used by std::less in libstdc++
                return TRUE if (a.o < b.o) == (pred in ('ult', 'ule', 'slt', 'sle')) else FALSE
        n = t[1]
        if n == 1:
            a = self.boolean(a); b = self.boolean(b)
            if pred == 'eq':
                return bnot(bxor(a, b))
            if pred == 'ne':
                return bxor(a, b)
            raise Unsupported('icmp i1 ' + pred)
        if isinstance(a, int) and isinstance(b, int):
            return self.ccmp(pred, a, b, n)
        if isinstance(a, tuple) and a[0] == 'sgnxor':
            if pred == 'slt' and b == 0:
                return a[1]
            if pred == 'sgt' and to_signed(b, n) == -1:
                return bnot(a[1])
        if isinstance(a, Bits):
            if isinstance(b, int):
                s = to_signed(b, n)
                if pred == 'slt' and s == 0:
                    return self.signbit(a.t)
                if pred == 'sgt' and s == -1:
                    return bnot(self.signbit(a.t))
            if isinstance(b, int) and pred in ('eq', 'ne') and b == 0:
                # bit pattern zero means +0.0
                r = band(eq(a.t, ZERO), bnot(self.signbit(a.t)))
                return r if pred == 'eq' else bnot(r)
            raise Unsupported('icmp on float bits')
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if isinstance(a, PtrInt) and isinstance(b, PtrInt):
                return self.icmp(st, pred, ir.PTR, a.p, b.p)
            x = a.p if isinstance(a, PtrInt) else b.p
            y = b if isinstance(a, PtrInt) else a
            if isinstance(y, int) and y == 0:
                return self.icmp(st, pred, ir.PTR, x, NULL)
            raise Unsupported('icmp ptrint')
        if isinstance(a, Undef) or isinstance(b, Undef):
            return fresh('undef', 'B')
        a = self.toI(a, n); b = self.toI(b, n)
        la = self.leaves_int(a, n); lb = self.leaves_int(b, n)
        if la and lb and la * lb <= 256:
            return self.bmap(a, lambda x: self.bmap(b, lambda y: self.ccmp(pred, x & ((1 << n) - 1), y & ((1 << n) - 1), n)))
        if pred == 'eq':
            return ieq(a, b)
        if pred == 'ne':
            return bnot(ieq(a, b))
        if pred == 'slt':
            return ilt(a, b)
        if pred == 'sgt':
            return ilt(b, a)
        if pred == 'sle':
            return bnot(ilt(b, a))
        if pred == 'sge':
            return bnot(ilt(a, b))
        if pred in ('ult', 'ule', 'ugt', 'uge'):
            if pred in ('ugt', 'uge'):
                a, b = b, a
                pred = {'ugt': 'ult', 'uge': 'ule'}[pred]
            r = ilt(a, b) if pred == 'ult' else bnot(ilt(b, a))
            # unsigned order through signs
            sa, sb = ilt(a, IC(0)), ilt(b, IC(0))
            return bor(band(bnot(sa), sb), band(bnot(bxor(sa, sb)), r))
        raise Unsupported('icmp ' + pred)

    def bmap(self, v, f):
        if v.op == 'ic':
            return f(v.v)
        return ite(v.a[0], self.bmap(v.a[1], f), self.bmap(v.a[2], f))

    def ccmp(self, pred, a, b, n):
        if pred[0] == 's':
            a, b = to_signed(a, n), to_signed(b, n)
        r = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred if pred in ('eq', 'ne') else pred[1:]]
        return TRUE if r else FALSE

    def fcmp(self, pred, a, b):
        if pred == 'true':
            return TRUE
        if pred == 'false':
            return FALSE
        if pred == 'ord':
            return TRUE
        if pred == 'uno':
            return FALSE
        p = pred[1:]
        if p == 'lt':
            return lt(a, b)
        if p == 'gt':
            return lt(b, a)
        if p == 'le':
            return le(a, b)
        if p == 'ge':
            return le(b, a)
        if p == 'eq':
            return eq(a, b)
        if p == 'ne':
            return bnot(eq(a, b))
        raise Unsupported('fcmp ' + pred)

    def cast(self, st, op, t, v, t2):
        t = self.m.resolve(t); t2 = self.m.resolve(t2)
        if isinstance(v, Undef):
            return UNDEF
        if op == 'fpext':
            return v
        if op == 'fptrunc':
            v = self.real(v)
            if self.float_exact:
                return v
            if v.op == 'c':
                f = struct.unpack('<f', struct.pack('<f', float(v.v)))[0]
                return C(exact_double(f))
            if v.op == 'fn' and v.v == 'rnd32':
                return v
            return fn('rnd32', v)
        if op in ('sitofp', 'uitofp'):
            if t[1] == 1:
                b = self.boolean(v)
                return ite(b, C(1 if op == 'uitofp' else -1), ZERO)
            if isinstance(v, int):
                return C(to_signed(v, t[1]) if op == 'sitofp' else v)
            if op == 'uitofp' and self.leaves_int(v, t[1]):
                return self.map1(v, lambda x: C(x & ((1 << t[1]) - 1)))
            return i2r(self.toI(v, t[1]))
        if op in ('fptosi', 'fptoui'):
            r = r2i_trunc(self.real(v))
            if r.op == 'ic':
                return r.v & ((1 << t2[1]) - 1)
            return r
        if op == 'zext':
            if t[1] == 1:
                b = self.boolean(v)
                return 1 if b is TRUE else 0 if b is FALSE else ite(b, IC(1), IC(0))
            if isinstance(v, int):
                return v
            if isinstance(v, T):
                if self.leaves_int(v, t[1]):
                    M = (1 << t[1]) - 1
                    return self.map1(v, lambda x: IC(x & M))
                return v  # non negative by the no-overflow assumption
            if isinstance(v, (PtrInt,)):
                return v
            if isinstance(v, Bits):
                return Pair([(0, (t[1] // 8, v.t)), (t[1] // 8, ((t2[1] - t[1]) // 8, ZB))], t2[1] // 8)
            if isinstance(v, Pair):
                return Pair(v.parts + ((t[1] // 8, ((t2[1] - t[1]) // 8, ZB)),), t2[1] // 8)
        if op == 'sext':
            if t[1] == 1:
                b = self.boolean(v)
                M = (1 << t2[1]) - 1
                return M if b is TRUE else 0 if b is FALSE else ite(b, IC(-1), IC(0))
            if isinstance(v, int):
                return to_signed(v, t[1]) & ((1 << t2[1]) - 1)
            return v
        if op == 'trunc':
            if isinstance(v, int):
                if t2[1] == 1:
                    return TRUE if v & 1 else FALSE
                return v & ((1 << t2[1]) - 1)
            if isinstance(v, T):
                if t2[1] == 1:
                    if self.leaves_int(v, t[1]):
                        return self.bmap(v, lambda x: TRUE if x & 1 else FALSE)
                    return bnot(ieq(ifn('bit0', v), IC(0)))
                if self.leaves_int(v, t[1]):
                    return self.map1(v, lambda x: IC(to_signed(x, t2[1])))
                return v
            if isinstance(v, Pair) and t2[1] % 8 == 0:
                return self.subbits(v, 0, t2[1] // 8)
            if isinstance(v, Bits) and v.n == 64 and t2[1] == 32:
                raise Unsupported('trunc of float bits')
        if op == 'bitcast':
            if t == t2:
                return v
            if t[0] == 'f' and t2[0] == 'i':
                return self.conv(st, self.real(v), t2)
            if t[0] == 'i' and t2[0] == 'f':
                return self.conv(st, v, t2)
        if op == 'ptrtoint':
            if isinstance(v, Ptr) and v.o == 0:
                return v.off
            return PtrInt(v)
        if op == 'inttoptr':
            if isinstance(v, PtrInt):
                return v.p
            if isinstance(v, int):
                return Ptr(0, v)
        raise Unsupported('cast %s %r' % (op, v))

    # ------------------------------------------------------------------ control
    def decide(self, st, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        return self.decide_fn(st.pc, c)

    def goto(self, fr, target, frm, env, st):
        """arrive at target: evaluate phis"""
        b = fr.f.blocks[target]
        if b.phis:
            vals = [(i.dst, self.val(env, st, i.a[1][frm], i.a[0])) for i in b.phis]
            env = dict(env)
            for d, v in vals:
                env[d] = v
        return env

    def call_function(self, name, args, st):
        """returns (retval, state) or None; and list of exceptional states"""
        f = self.m.functions[name]
        ir.analyse(f)
        self.visited[name] = self.visited.get(name, 0) + 1
        fr = Frame(f)
        env = {}
        for (pn, pt, pa), a in zip(f.params, args):
            if 'byval' in pa:
                n = self.m.sizeof(pa['byval'])
                np = self.alloc(st, n, pa['byval'], 'byval')
                self.memcpy(st, np, a, n)
                a = np
            env[pn] = a
        r = self.run(fr, f.entry, env, st, '<exit>')
        if r is not None:
            fr.returns.append((r[0].get('<ret>'), r[1]))
        if not fr.returns:
            return None, fr.exc
        rv, s = fr.returns[0]
        for v2, s2 in fr.returns[1:]:
            disc = self.disc(s, s2)
            m = self.merge(s, s2)
            rv = self.vite(disc, rv, v2, f.ret) if rv is not None or v2 is not None else None
            s = m
        return (rv, s), fr.exc

    def disc(self, A, B):
        k = 0
        while k < len(A.pc) and k < len(B.pc) and A.pc[k] is B.pc[k]:
            k += 1
        ra, rb = A.pc[k:], B.pc[k:]
        if ra and rb and ra[0] is bnot(rb[0]):
            return ra[0]
        return band(*ra) if ra else bnot(band(*rb))

    def run_guard(self, fr, block, env, st, stop):
        try:
            return self.run(fr, block, env, st, stop)
        except Stop:
            return None

    def run(self, fr, block, env, st, stop):
        f = fr.f
        while True:
            if block == stop:
                return env, st
            cap = fr.cap
            if cap is not None and cap.started and block == cap.header:
                cap.backs.append((env, st))
                return None
            if cap is not None and block not in cap.body:
                cap.exits.append((block, env, st))
                return None
            if cap is not None:
                cap.started = True
            if block in f.loops and (f.name, block) in self.accel and (cap is None or cap.header != block):
                return self.accelerate(fr, block, env, st, stop)
            b = f.blocks[block]
            nxt = None
            for ins in b.instrs:
                self.steps += 1
                if self.steps > self.MAX_STEPS:
                    raise Unsupported('step limit')
                op = ins.op
                try:
                    if op == 'br':
                        c, t1, t2 = ins.a
                        if c is None:
                            env = self.goto(fr, t1, block, env, st); nxt = t1; break
                        cv = self.boolean(self.val(env, st, c, ('i', 1)))
                        if cv is TRUE or cv is FALSE:
                            # a concretely decided exit test: the loop is counted
                            for h, body in f.loops.items():
                                if block in body and (t1 not in body or t2 not in body):
                                    fr.counted.add(h)
                        d = self.decide(st, cv)
                        if d is True:
                            env = self.goto(fr, t1, block, env, st); nxt = t1; break
                        if d is False:
                            env = self.goto(fr, t2, block, env, st); nxt = t2; break
                        r = self.branch(fr, block, [(cv, t1), (bnot(cv), t2)], env, st, stop)
                        if r is None:
                            return None
                        nxt, env, st = r
                        break
                    if op == 'switch':
                        t, v, dflt, cases = ins.a
                        x = self.val(env, st, v, t)
                        if isinstance(x, int):
                            tgt = dflt
                            for cv, lb in cases:
                                if (cv & ((1 << t[1]) - 1)) == x:
                                    tgt = lb
                            env = self.goto(fr, tgt, block, env, st); nxt = tgt; break
                        x = self.toI(x, t[1])
                        br = []
                        rest = []
                        for cv, lb in cases:
                            c1 = ieq(x, IC(to_signed(cv, t[1])))
                            br.append((c1, lb)); rest.append(bnot(c1))
                        br.append((band(*rest), dflt))
                        live = []
                        for c1, lb in br:
                            d = self.decide(st, c1)
                            if d is True:
                                live = [(TRUE, lb)]; break
                            if d is False:
                                continue
                            live.append((c1, lb))
                        if len(live) == 1:
                            env = self.goto(fr, live[0][1], block, env, st); nxt = live[0][1]; break
                        # group equal targets
                        g = {}
                        for c1, lb in live:
                            g[lb] = bor(g[lb], c1) if lb in g else c1
                        # make the guards a decision list so that merging discriminates
                        r = self.branch(fr, block, [(c1, lb) for lb, c1 in g.items()], env, st, stop)
                        if r is None:
                            return None
                        nxt, env, st = r
                        break
                    if op == 'ret':
                        rv = None if ins.a is None else self.val(env, st, ins.a[1], ins.a[0])
                        for p in fr.allocas:
                            pass
                        if stop == '<exit>' and fr.cap is None:
                            env = dict(env); env['<ret>'] = rv
                            return env, st
                        fr.returns.append((rv, st))
                        return None
                    if op == 'unreachable':
                        # reaching it would be undefined behaviour
                        self.fail_path(st, 'unreachable', 'unreachable code in %s' % f.name)
                    if op == 'resume':
                        fr.exc.append(st)
                        return None
                    if op == 'call' or op == 'invoke':
                        r = self.do_call(fr, block, ins, env, st, stop)
                        if r is None:
                            return None
                        kind, env, st = r
                        if kind == 'cont':
                            continue
                        nxt = kind
                        break
                    env = self.simple(fr, ins, env, st)
                except Unsupported as e:
                    self.fail_path(st, 'unsupported', '%s  in: %s (%s)' % (e, ins.text[:120], f.name[:80]))
                except KeyError as e:
                    self.fail_path(st, 'unsupported', 'KeyError %s in: %s (%s)' % (e, ins.text[:120], f.name[:80]))
            else:
                raise Unsupported('block without terminator')
            block = nxt

    def branch(self, fr, block, alts, env, st, stop):
        """explore alternatives up to the immediate post dominator and merge"""
        f = fr.f
        ip = f.ipdom.get(block, '<exit>')
        # symbolic loop exit bookkeeping
        for h, body in f.loops.items():
            if block in body and any(lb not in body and lb in f.can_return for c, lb in alts) and ip not in body:
                if fr.cap is None or fr.cap.header != h:
                    n = fr.exitcount.get(h, 0) + 1
                    fr.exitcount[h] = n
                    # every exit test of the body has been met once before a loop is taken to be uncounted
                    tests = sum(1 for x in body if any(y not in body for y in f.blocks[x].succ))
                    if n > (120 if h in fr.counted or h in f.small else max(1, tests)):
                        raise NeedAccel((f.name, h))
        res = []
        for c, lb in alts:
            s = st.fork()
            s.pc.append(c)
            e = self.goto(fr, lb, block, dict(env), s)
            r = self.run_guard(fr, lb, e, s, ip if ip != '<exit>' else '<exit>')
            if r is not None:
                res.append(r)
        if not res:
            return None
        if ip == '<exit>':
            # all alternatives returned
            if stop == '<exit>' and fr.cap is None:
                env0, s0 = res[0]
                for e2, s2 in res[1:]:
                    d = self.disc(s0, s2)
                    m = self.merge(s0, s2)
                    env0 = {'<ret>': self.vite(d, env0.get('<ret>'), e2.get('<ret>'), f.ret) if env0.get('<ret>') is not None else None}
                    s0 = m
                fr.returns.append((env0.get('<ret>'), s0))
                return None
            for e2, s2 in res:
                fr.returns.append((e2.get('<ret>'), s2))
            return None
        e0, s0 = res[0]
        for e2, s2 in res[1:]:
            d = self.disc(s0, s2)
            m = self.merge(s0, s2)
            e0 = self.merge_env(d, e0, e2)
            s0 = m
        return ip, e0, s0

    def merge_env(self, d, a, b):
        if a is b:
            return a
        r = dict(a)
        for k, v in b.items():
            w = a.get(k)
            if k not in a:
                r[k] = v
            elif w is v:
                continue
            else:
                try:
                    if not isinstance(v, T) and not isinstance(w, T) and type(v) == type(w) and v == w:
                        continue
                    r[k] = self.vite(d, w, v, None)
                except Unsupported:
                    r[k] = LOST
        return r

    # ------------------------------------------------------------------ loops with symbolic trip count
    def iteration(self, fr, header, env, st):
        cap = Capture(header, fr.f.loops[header])
        old = fr.cap
        fr.cap = cap
        try:
            r = self.run_guard(fr, header, env, st, '<never>')
        finally:
            fr.cap = old
        back = None
        if cap.backs:
            e0, s0 = cap.backs[0]
            for e2, s2 in cap.backs[1:]:
                d = self.disc(s0, s2)
                m = self.merge(s0, s2)
                e0 = self.merge_env(d, e0, e2); s0 = m
            back = (e0, s0)
        return cap.exits, back

    def cells_of(self, env, st, header, f):
        """flat view: key -> value"""
        d = {}
        for i in f.blocks[header].phis:
            d[('env', i.dst)] = env.get(i.dst)
        for oid, o in st.mem.items():
            for off, (n, v) in o.cells.items():
                d[('mem', oid, off, n)] = v
        d[('ndraws',)] = st.ndraws
        return d

    def accelerate(self, fr, header, env, st, stop):
        """loop with symbolic trip count.  From a generic state (every cell the body writes is an
        arbitrary value) one iteration gives the recurrence of each cell; recurrences with a loop
        invariant (or arithmetic) increment are solved, the other cells stay arbitrary, subject to
        the invariants that are proved inductive."""
        import prove
        f = fr.f
        entry = self.cells_of(env, st, header, f)
        mark = (len(fr.returns), len(fr.exc), len(self.obls))

        def rollback():
            del fr.returns[mark[0]:]; del fr.exc[mark[1]:]; del self.obls[mark[2]:]

        def differs(g, w):
            if g is w:
                return False
            if isinstance(g, T) or isinstance(w, T):
                return True
            return g != w

        kv = fresh('iter', 'I')
        kr = i2r(kv)
        ex1, bk = self.iteration(fr, header, env, st.fork())
        rollback()
        changed = set()
        if bk is not None:
            got = self.cells_of(bk[0], bk[1], header, f)
            changed = {k for k, v in got.items() if self.base_key(k, st) and differs(v, entry.get(k))}
            # cells that disappeared (overwritten with another granularity)
            changed |= {k for k in entry if k not in got}
        hv = {}
        cands = None
        for attempt in range(40):
            for k in changed:
                if k not in hv:
                    vals = [x for x in (entry.get(k), got.get(k)) if x is not None]
                    hv[k] = self.havoc_val(vals, k)
            if cands is None or attempt_new:
                m = {}
                for k in changed:
                    e0 = entry.get(k)
                    if isinstance(e0, T) and e0.op in ('v', 'iv') and isinstance(hv[k], T) and hv[k].s == e0.s:
                        m[e0.id] = hv[k]
                cands = []
                for c in st.pc:
                    c2 = subst(c, m)
                    if c2 is not c:
                        cands.append((c, c2))
                attempt_new = False
            e2, s2 = self.install(env, st, hv)
            npc = len(s2.pc)
            s2.pc = list(st.pc) + [c2 for c, c2 in cands]
            exk, bk2 = self.iteration(fr, header, e2, s2.fork())
            rollback()
            if bk2 is None:
                break
            got2 = self.cells_of(bk2[0], bk2[1], header, f)
            more = {k for k, v in got2.items() if k not in changed and self.base_key(k, st) and differs(v, entry.get(k))}
            more |= {k for k in entry if k not in got2 and k not in changed}
            if more:
                changed |= more
                got = got2
                attempt_new = True
                continue
            # keep the inductive candidates
            m2 = {}
            for k in changed:
                if isinstance(hv[k], T) and isinstance(got2.get(k), T):
                    m2[hv[k].id] = got2[k]
            keep = []
            for c, c2 in cands:
                post = subst(c2, m2)
                try:
                    ok = prove.prove_bool(bk2[1].pc, post)[0]
                except prove.GiveUp:
                    ok = False
                if DEBUG:
                    print('cand', ok, prove.show_cond(prove.ctx_of([]).cond(c2)))
                    if not ok:
                        try:
                            w = prove.prove_bool(bk2[1].pc, post)[1]
                            print('   ', prove.show_poly(w[1]), '|', '; '.join(prove.show_cond(x, 6) for x in w[0].facts[-15:]))
                        except prove.GiveUp as g:
                            print('   giveup', g)
                if ok:
                    keep.append((c, c2))
            if len(keep) == len(cands):
                break
            cands = keep
        else:
            raise Unsupported('no loop invariant found')
        # solve the recurrences
        forms = {}
        if bk2 is not None:
            forms = self.recurrences(entry, hv, got2, bk2[1].pc, prove)
        cur = dict(hv)
        for k, form in forms.items():
            cur[k] = form(kr, kv)
        m3 = {hv[k].id: cur[k] for k in forms if isinstance(hv[k], T)}
        e3, s3 = self.install(env, st, cur)
        s3.pc = list(st.pc) + [bnot(ilt(kv, IC(0)))] + [subst(c2, m3) for c, c2 in cands]
        base_len = len(s3.pc)
        exits, bk3 = self.iteration(fr, header, e3, s3)
        free = {hv[k].id for k in hv if k not in forms and isinstance(hv[k], T)}
        if bk3 is not None and cands:
            # the invariants, for the values computed by the last iteration
            got3 = self.cells_of(bk3[0], bk3[1], header, f)
            m4 = {hv[k].id: got3[k] for k in changed if isinstance(hv[k], T) and isinstance(got3.get(k), T)}
            for c, c2 in cands:
                post = subst(c2, m4)
                for lb, e4, s4 in exits:
                    try:
                        with prove.limited(12, 2500, 300):
                            ok = prove.prove_bool(s4.pc, post)[0]
                    except prove.GiveUp:
                        ok = False
                    if ok:
                        s4.pc.append(post)
                        self.lifted[post.id] = c
        self.accel_info.append({'function': f.name, 'header': header, 'closed_forms': len(forms), 'havocked': len(changed) - len(forms), 'invariants': len(cands)})
        if bk3 is not None:
            # for k >= 1 the previous iteration continued; only what does not mention arbitrary cells
            cont = []
            for c in bk3[1].pc[base_len:]:
                for y in (c.a if c.op == 'and' else (c,)):
                    if not any(x.id in free or x.op in ('v', 'iv') and '!' in str(x.v) and x is not kv for x in atoms(y)):
                        cont.append(y)
            shift = {kv.id: iadd(kv, IC(-1)), kr.id: add(kr, MONE)}
            always, later = [], []
            for y in cont:
                y2 = subst(y, shift)
                # what the entry of the loop already says for k = 0 holds for every k
                try:
                    with prove.limited(4, 1000, 300):
                        ok = prove.prove_bool(st.pc, subst(y2, {kv.id: IC(0), kr.id: ZERO}))[0]
                except prove.GiveUp:
                    ok = False
                (always if ok else later).append(y2)
            facts = [y for y in always + [bor(ieq(kv, IC(0)), band(*later))] if y is not TRUE]
            for fact in facts:
                for (lb, e4, s4) in exits:
                    s4.pc.append(fact)
                for s4 in fr.exc[mark[1]:]:
                    s4.pc.append(fact)
                for ob in self.obls[mark[2]:]:
                    ob.pc.append(fact)
        res = []
        for lb, e4, s4 in exits:
            r = self.run_guard(fr, lb, e4, s4, stop)
            if r is not None:
                res.append(r)
        if not res:
            return None
        e0, s0 = res[0]
        for e2, s2 in res[1:]:
            d = self.disc(s0, s2)
            m = self.merge(s0, s2)
            if stop == '<exit>':
                e0 = {'<ret>': self.vite(d, e0.get('<ret>'), e2.get('<ret>'), f.ret) if e0.get('<ret>') is not None else None}
            else:
                e0 = self.merge_env(d, e0, e2)
            s0 = m
        return e0, s0

    def base_key(self, k, st):
        return k[0] != 'mem' or k[1] in st.mem

    def recurrences(self, entry, hv, got, pc, prove):
        forms = {}
        ctx = prove.ctx_of(pc)
        ids = {}
        for k, v in hv.items():
            if isinstance(v, T) and v.s in 'RI':
                a = prove.atom('v' if v.s == 'R' else 'i', v.v)
                ids[a.id] = k
        linear = {}
        delta = {}
        for k, v in hv.items():
            g = got.get(k)
            if not (isinstance(v, T) and v.s in 'RI') or g is None:
                continue
            e0 = entry.get(k)
            try:
                if v.s == 'I':
                    if isinstance(g, int):
                        continue
                    d = prove.padd(ctx.inorm(g), prove.pscale(ctx.inorm(v), -1))
                else:
                    if not (isinstance(g, T) and g.s == 'R'):
                        continue
                    d = prove.padd(ctx.norm(g), prove.pscale(ctx.norm(v), -1))
            except prove.GiveUp:
                continue
            delta[k] = d
        kfree = lambda p: not any(a in prove.PSUB[prove.pid(p)] for a in ids)
        for k, d in delta.items():
            v = hv[k]
            e0 = entry.get(k)
            if v.s == 'I':
                if not prove.is_const(d):
                    continue
                n = 8 * k[3] if k[0] == 'mem' else 64
                i0 = e0 if isinstance(e0, T) else IC(to_signed(e0, n)) if isinstance(e0, int) else None
                if i0 is None:
                    continue
                c = int(prove.cval(d))
                forms[k] = (lambda i0, c: lambda kr, ki: iadd(i0, imul(IC(c), ki)))(i0, c)
                linear[k] = (i2r(i0), C(c))
            elif kfree(d):
                w0 = ZERO if e0 is ZB else e0
                if not isinstance(w0, T):
                    continue
                dt_ = prove.poly_term(d)
                forms[k] = (lambda w0, d_: lambda kr, ki: add(w0, mul(kr, d_)))(w0, dt_)
                linear[k] = (w0, dt_)
        # increments that are linear in solved cells: quadratic closed forms
        inv = {}
        for a, k in ids.items():
            inv[a] = k
        half = C(Fraction(1, 2))
        for k, d in delta.items():
            if k in forms or hv[k].s != 'R':
                continue
            const = {}
            parts = {}
            ok = True
            for m, c in d.items():
                hs = [(a, e) for a, e in m if a in inv]
                rest = tuple(x for x in m if x[0] not in inv)
                if not kfree({rest: c}):
                    ok = False; break
                if not hs:
                    const[rest] = c
                elif len(hs) == 1 and hs[0][1] == 1 and inv[hs[0][0]] in linear:
                    parts.setdefault(inv[hs[0][0]], {})[rest] = c
                else:
                    ok = False; break
            w0 = ZERO if entry.get(k) is ZB else entry.get(k)
            if not ok or not isinstance(w0, T):
                continue
            c0 = prove.poly_term(const)
            ps = [(linear[q], prove.poly_term(p)) for q, p in parts.items()]

            def form(kr, ki, w0=w0, c0=c0, ps=ps):
                r = add(w0, mul(kr, c0))
                for (u0, du), co_ in ps:
                    r = add(r, mul(co_, add(mul(kr, u0), mul(half, mul(du, mul(kr, sub(kr, ONE)))))))
                return r
            forms[k] = form
        return forms

    def havoc_val(self, vs, key):
        for v in vs:
            if isinstance(v, T):
                return fresh('loop', v.s)
            if isinstance(v, int):
                return fresh('loop', 'I')
            if isinstance(v, Bits):
                return Bits(fresh('loop'), v.n)
        for v in vs:
            if v is ZB:
                return fresh('loop') if key[0] == 'mem' and key[3] == 8 else fresh('loop', 'I')
            if isinstance(v, (Ptr, PIte, PtrInt)):
                # stack pointers that differ per iteration cannot be summarised
                return UNDEF
        return UNDEF

    def install(self, env, st, vals):
        e = dict(env)
        s = st.fork()
        for k, v in vals.items():
            if k[0] == 'env':
                e[k[1]] = v
            elif k[0] == 'ndraws':
                s.ndraws = v
            else:
                if k[1] in s.mem:
                    o = s.wobj(k[1])
                    if isinstance(v, Undef):
                        o.cells.pop(k[2], None)
                    else:
                        o.cells[k[2]] = (k[3], v)
        s.draws = None
        return e, s

    # ------------------------------------------------------------------ straight line instructions
    def simple(self, fr, ins, env, st):
        op = ins.op
        a = ins.a
        V_ = self.val
        if op == 'load':
            r = self.load(st, V_(env, st, a[1], ir.PTR), a[0])
        elif op == 'store':
            self.store(st, V_(env, st, a[2], ir.PTR), a[0], V_(env, st, a[1], a[0]))
            return env
        elif op == 'getelementptr':
            r = self.gep(st, a[0], [(t, V_(env, st, v, t)) for t, v in a[1]])
        elif op in ir.FP_BIN:
            if a[0][0] == 'vec':
                x, y = V_(env, st, a[1], a[0]), V_(env, st, a[2], a[0])
                r = tuple(self.fbin(op, self.real(self.agg(x, i, None)), self.real(self.agg(y, i, None)), st) for i in range(a[0][1]))
            else:
                x, y = self.real(V_(env, st, a[1], a[0])), self.real(V_(env, st, a[2], a[0]))
                r = self.fbin(op, x, y, st)
        elif op == 'fneg':
            r = neg(self.real(V_(env, st, a[1], a[0])))
        elif op in ir.INT_BIN:
            r = self.ibin(st, op, a[0], V_(env, st, a[1], a[0]), V_(env, st, a[2], a[0]))
        elif op == 'icmp':
            r = self.icmp(st, a[0], a[1], V_(env, st, a[2], a[1]), V_(env, st, a[3], a[1]))
        elif op == 'fcmp':
            r = self.fcmp(a[0], self.real(V_(env, st, a[2], a[1])), self.real(V_(env, st, a[3], a[1])))
        elif op == 'cast':
            r = self.cast(st, a[0], a[1], V_(env, st, a[2], a[1]), a[3])
        elif op == 'select':
            if a[0][0] == 'vec':
                raise Unsupported('vector select')
            c = self.boolean(V_(env, st, a[1], a[0]))
            d = self.decide(st, c) if c not in (TRUE, FALSE) else (c is TRUE)
            if d is True:
                r = V_(env, st, a[3], a[2])
            elif d is False:
                r = V_(env, st, a[4], a[2])
            else:
                r = self.vite(c, V_(env, st, a[3], a[2]), V_(env, st, a[4], a[2]), a[2])
        elif op == 'alloca':
            n = self.m.sizeof(a[0])
            if a[1] is not None:
                cnt = V_(env, st, a[1][1], a[1][0])
                if not isinstance(cnt, int):
                    raise Unsupported('alloca of symbolic size')
                n *= cnt
            r = self.alloc(st, n, a[0], '%s:%s' % (fr.f.name[:40], ins.dst))
        elif op == 'extractvalue':
            r = V_(env, st, a[1], a[0])
            for i in a[2]:
                r = self.agg(r, i, None)
        elif op == 'insertvalue':
            base = V_(env, st, a[1], a[0])
            r = self.insertv(self.m.resolve(a[0]), base, V_(env, st, a[3], a[2]), a[4])
        elif op == 'freeze':
            r = V_(env, st, a[1], a[0])
            if isinstance(r, Undef):
                r = self.fresh_of(self.m.resolve(a[0]), 'freeze') if a[0][0] in 'if' else r
        elif op == 'extractelement':
            i = V_(env, st, a[2], ('i', 64))
            r = self.agg(V_(env, st, a[1], a[0]), i, None)
        elif op == 'insertelement':
            i = V_(env, st, a[3], ('i', 64))
            base = V_(env, st, a[1], a[0])
            n = a[0][1]
            r = tuple((V_(env, st, a[2], a[0][2]) if j == i else self.agg(base, j, None)) for j in range(n))
        elif op == 'landingpad':
            r = env['<lp>']
        else:
            raise Unsupported('instruction %s' % ins.text[:100])
        env[ins.dst] = r
        return env

    def insertv(self, t, base, v, idx):
        t = self.m.resolve(t)
        n = len(t[1]) if t[0] == 'st' else t[1]
        el = [self.agg(base, i, None) for i in range(n)]
        if len(idx) == 1:
            el[idx[0]] = v
        else:
            et = t[1][idx[0]] if t[0] == 'st' else t[2]
            el[idx[0]] = self.insertv(et, el[idx[0]], v, idx[1:])
        return tuple(el)

    def plainly_nonneg(self, t):
        """sums and products of squares, roots and non negative numbers"""
        st = [t]
        n = 0
        while st:
            x = st.pop()
            n += 1
            if n > 5000:
                return False
            if x.op == 'c':
                if x.v < 0:
                    return False
            elif x.op == 'add':
                st.extend(x.a)
            elif x.op == 'mul':
                if x.a[0] is not x.a[1]:
                    st.extend(x.a)
            elif x.op == 'ite':
                st.extend(x.a[1:])
            elif x.op == 'div':
                # a zero divisor never gets here (see fbin)
                st.extend(x.a)
            elif x.op != 'sqrt':
                return False
        return True

    def plainly_nonzero(self, st, y):
        known = None
        todo = [y]
        while todo:
            t = todo.pop()
            if t.op == 'c' and t.v != 0:
                continue
            if t.op == 'mul' or t.op == 'sqrt':
                u = t.a[0] if t.op == 'sqrt' else None
                if t.op == 'mul':
                    todo.extend(t.a)
                    continue
            else:
                u = t
            if known is None:
                known = set()
                for c in st.pc:
                    for k in (c.a if c.op == 'and' else (c,)):
                        known.add(k.id)
            if lt(ZERO, u).id in known or t.op != 'sqrt' and (lt(u, ZERO).id in known or bnot(eq(u, ZERO)).id in known):
                continue
            return False
        return True

    def root(self, st, x):
        if self.plainly_nonneg(x):
            return tm.sqrt(x)
        if x.op == 'c':
            return tm.sqrt(x) if x.v >= 0 else fn('root_of_negative', x)
        z = lt(x, ZERO)
        if z is FALSE or self.decide(st, z) is False:
            return tm.sqrt(x)
        return ite(z, fn('root_of_negative', x), tm.sqrt(x))

    def fbin(self, op, x, y, st=None):
        if op == 'fadd':
            return add(x, y)
        if op == 'fsub':
            return sub(x, y)
        if op == 'fmul':
            return mul(x, y)
        if op == 'fdiv':
            if y.op == 'c' or st is None:
                return div(x, y)
            if self.plainly_nonzero(st, y):
                return div(x, y)
            z = eq(y, ZERO)
            d = FALSE if z is FALSE else self.decide(st, z)
            if d is False or z is FALSE:
                return div(x, y)
            # not a number or infinite when the divisor is zero
            return ite(z, fn('divided_by_zero', x), div(x, y))
        if op == 'frem':
            return fn('fmod', x, y)
        raise Unsupported(op)

    # ------------------------------------------------------------------ calls
    def do_call(self, fr, block, ins, env, st, stop):
        rt, callee, args, nl, ul = ins.a
        if callee[0] == 'l':
            cv = env[callee[1]]
        elif callee[0] == 'g':
            cv = self.global_ptr(st, callee[1]) if callee[1] not in self.m.functions and callee[1] not in self.m.decls else Func(callee[1])
        else:
            cv = self.const(st, callee, ir.PTR)
        if not isinstance(cv, Func):
            raise Unsupported('indirect call')
        name = cv.name
        if name.startswith('llvm.') and self.is_noop(name):
            if ins.dst:
                env[ins.dst] = UNDEF
            return 'cont', env, st
        argv = [None if t[0] == 'meta' else self.val(env, st, v, t) for t, v, at in args]
        argt = [t for t, v, at in args]
        for i, (t, v, at) in enumerate(args):
            if 'byval' in at and name not in self.m.functions:
                pass
        exc = []
        r = self.external(name, argv, argt, rt, st)
        if r is not None:
            kind, val = r
            if kind == 'throw':
                st.exc = val
                exc = [st]
                res = None
            elif kind == 'stop':
                return None
            else:
                res = (val, st)
        elif name in self.m.functions:
            res, exc = self.call_function(name, argv, st)
        else:
            raise Unsupported('external function %s' % name)
        if ins.op == 'call':
            fr.exc.extend(exc)
            if res is None:
                return None
            if ins.dst:
                env[ins.dst] = res[0]
            return 'cont', env, res[1]
        # invoke
        f = fr.f
        outs = []
        ip = f.ipdom.get(block, '<exit>')
        if not exc:
            if res is None:
                return None
            if ins.dst:
                env[ins.dst] = res[0]
            env = self.goto(fr, nl, block, env, res[1])
            return nl, env, res[1]
        # exceptional continuation(s)
        es = exc[0]
        for s2 in exc[1:]:
            es = self.merge(es, s2)
        lpb = f.blocks[ul]
        lp = lpb.instrs[0]
        envu = dict(env)
        handled = True
        if lp.op == 'landingpad':
            t, cleanup, clauses = lp.a
            sel = None
            for k, cv_ in clauses:
                if k != 'catch':
                    continue
                if cv_[0] == 'null':
                    sel = 1; break
                tn = cv_[1] if cv_[0] == 'g' else None
                if tn and self.exc_matches(es.exc, tn):
                    sel = self.typeid(tn); break
            if sel is None:
                sel = 0
                if not cleanup:
                    handled = False
            envu['<lp>'] = (self.alloc(es, 16, None, 'exception', 'heap'), sel)
        if not handled:
            fr.exc.append(es)
            if res is None:
                return None
            if ins.dst:
                env[ins.dst] = res[0]
            env = self.goto(fr, nl, block, env, res[1])
            return nl, env, res[1]
        if res is None:
            envu = self.goto(fr, ul, block, envu, es)
            return ul, envu, es
        if ul not in f.can_return:
            eu = self.goto(fr, ul, block, envu, es)
            self.run_guard(fr, ul, eu, es, '<never2>')
            if ins.dst:
                env[ins.dst] = res[0]
            env = self.goto(fr, nl, block, env, res[1])
            return nl, env, res[1]
        en = dict(env)
        if ins.dst:
            en[ins.dst] = res[0]
        en = self.goto(fr, nl, block, en, res[1])
        r1 = self.run_guard(fr, nl, en, res[1], ip)
        eu = self.goto(fr, ul, block, envu, es)
        r2 = self.run_guard(fr, ul, eu, es, ip)
        rs = [x for x in (r1, r2) if x is not None]
        if not rs:
            return None
        if ip == '<exit>':
            for e2, s2 in rs:
                fr.returns.append((e2.get('<ret>'), s2))
            return None
        e0, s0 = rs[0]
        for e2, s2 in rs[1:]:
            d = self.disc(s0, s2)
            m = self.merge(s0, s2)
            e0 = self.merge_env(d, e0, e2); s0 = m
        return ip, e0, s0

    def exc_matches(self, thrown, ti):
        if thrown == ti:
            return True
        return ti in ('_ZTISt9exception', '_ZTISt11logic_error') and thrown is not None and thrown.startswith('_ZTISt')

    def typeid(self, n):
        return 2 + (sum(map(ord, n)) % 1000)

    NOOP = ('llvm.lifetime', 'llvm.experimental.noalias', 'llvm.dbg', 'llvm.assume', 'llvm.stacksave', 'llvm.stackrestore',
            'llvm.invariant', 'llvm.donothing', 'llvm.prefetch')

    def is_noop(self, n):
        return n.startswith(self.NOOP)

    def cstr(self, st, p):
        o = st.mem[p.o]
        s = ''
        i = p.off
        while True:
            c = o.cells.get(i)
            if c is None or c[1] is ZB or c[1] == 0:
                return s
            s += chr(c[1])
            i += 1

    def newname(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return base if n == 0 else '%s@%d' % (base, n)

    def external(self, name, a, t, rt, st):
        """contracts of external functions and the harness primitives; None: not external"""
        h = self.stub.get(name)
        if h is not None:
            return h(self, name, a, t, rt, st)
        if name.startswith('vf_'):
            return self.harness_prim(name, a, t, rt, st)
        if name.startswith('llvm.'):
            return self.llvm_intrinsic(name, a, t, rt, st)
        R = self.real
        if name in ('sqrt', 'sqrtf'):
            return 'ok', self.root(st, R(a[0]))
        if name in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinf', 'cosf', 'asinf', 'acosf', 'tanf', 'atanf', 'exp', 'expf', 'log', 'logf'):
            return 'ok', self.trig(name.rstrip('f') if name not in ('',) else name, R(a[0]))
        if name in ('atan2', 'atan2f'):
            return 'ok', fn('atan2', R(a[0]), R(a[1]))
        if name in ('pow', 'powf'):
            if R(a[1]).op == 'c' and R(a[1]).v.denominator == 1 and 0 <= R(a[1]).v <= 4:
                r = ONE
                for _ in range(int(R(a[1]).v)):
                    r = mul(r, R(a[0]))
                return 'ok', r
            return 'ok', fn('pow', R(a[0]), R(a[1]))
        if name in ('hypot', 'hypotf'):
            return 'ok', tm.sqrt(add(mul(R(a[0]), R(a[0])), mul(R(a[1]), R(a[1]))))
        if name in ('fabs', 'fabsf'):
            return 'ok', self.fabs(R(a[0]))
        if name in ('fmod', 'fmodf'):
            return 'ok', fn('fmod', R(a[0]), R(a[1]))
        if name in ('ceil', 'ceilf'):
            return 'ok', rceil(R(a[0]))
        if name in ('floor', 'floorf'):
            return 'ok', rfloor(R(a[0]))
        if name in ('fmin', 'fminf'):
            return 'ok', ite(lt(R(a[1]), R(a[0])), R(a[1]), R(a[0]))
        if name in ('fmax', 'fmaxf'):
            return 'ok', ite(lt(R(a[0]), R(a[1])), R(a[1]), R(a[0]))
        if name.startswith('_ZNSt19normal_distributionI') and 'EclI' in name:
            return self.normal_draw(name, a, st)
        if name in self.m.functions:
            if self.is_io(name):
                return self.io(name, a, t, rt, st)
            return None
        if name in ('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t'):
            if not isinstance(a[0], int):
                raise Unsupported('symbolic allocation size')
            return 'ok', self.alloc(st, a[0], None, 'heap', 'heap')
        if name in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', 'free', '_ZdlPvmSt11align_val_t', '_ZdlPvSt11align_val_t'):
            p = a[0]
            if isinstance(p, Ptr) and p.o in st.mem:
                st.wobj(p.o).alive = False
            return 'ok', None
        if name == '__cxa_allocate_exception':
            return 'ok', self.alloc(st, max(a[0], 16), None, 'exception', 'heap')
        if name in ('__cxa_free_exception', '__cxa_end_catch', '__clang_call_terminate', '__cxa_atexit'):
            return 'ok', 0
        if name == '__cxa_begin_catch':
            return 'ok', a[0]
        if name == '__cxa_throw':
            ti = a[1]
            tn = None
            if isinstance(ti, Ptr):
                tn = st.mem[ti.o].name
            return 'throw', tn
        if name == '__cxa_rethrow':
            return 'throw', st.exc
        if name == '_ZSt9terminatev' or name == 'abort' or name == '__assert_fail':
            self.fail_path(st, 'abort', 'call of %s' % name)
        if name.startswith('_ZSt') and '__throw_' in name:
            return 'throw', '_ZTISt9exception'
        if re.match(r'_ZNSt\d+(invalid_argument|runtime_error|logic_error|out_of_range|domain_error|exception)[CD]\d', name):
            return 'ok', None
        if self.is_io(name):
            return self.io(name, a, t, rt, st)
        if name in ('bcmp', 'memcmp'):
            return self.memcmp(a, st)
        if name in ('memcpy', 'memmove'):
            self.memcpy(st, a[0], a[1], a[2]); return 'ok', a[0]
        return None

    def trig(self, name, x):
        if x is ZERO and name in ('sin', 'tan', 'asin', 'atan'):
            return ZERO
        if x is ZERO and name in ('cos', 'exp'):
            return ONE
        return fn(name, x)

    def memcmp(self, a, st):
        if not isinstance(a[2], int):
            raise Unsupported('memcmp size')
        acc = TRUE
        # compare as 8-byte reals / bytes
        n = a[2]
        i = 0
        while i < n:
            x = st.mem[a[0].o].cells.get(a[0].off + i)
            y = st.mem[a[1].o].cells.get(a[1].off + i)
            if x is None or y is None or x[0] != y[0]:
                raise Unsupported('memcmp layout')
            vx, vy = x[1], y[1]
            if isinstance(vx, T) and vx.s == 'R' or isinstance(vy, T) and vy.s == 'R':
                vx = self.conv(st, vx, ('f', 64)); vy = self.conv(st, vy, ('f', 64))
                acc = band(acc, eq(vx, vy))
            else:
                vx = self.conv(st, vx, ('i', 8 * x[0])); vy = self.conv(st, vy, ('i', 8 * x[0]))
                acc = band(acc, self.icmp(st, 'eq', ('i', 8 * x[0]), vx, vy))
            i += x[0]
        return 'ok', ite(acc, IC(0), IC(1))

    IO_RE = re.compile(r'^(_ZSt4endlIc|_ZStlsI|_ZNSo|_ZSt16__ostream_insert|_ZNSolsE|_ZStlsISt11char_traits|_ZNSt8ios_base|_ZNKSt5ctype|_ZNSt9basic_ios|_ZSt16__throw_bad_castv|_ZNSt6locale|_ZSt13__check_facet|_ZNKSt9basic_ios|_ZSt4(?:cout|cerr))')

    def is_io(self, name):
        return bool(self.IO_RE.match(name))

    def io(self, name, a, t, rt, st):
        # stream output: no effect on the program state except the ghost output trace
        self.trusted.add('iostream output operators (no effect on simulator state)')
        if 'endl' in name:
            st.out.append(('s', '\n'))
        elif re.match(r'_ZNSolsE[df]$|_ZNSo9_M_insertI[dfe]E', name):
            st.out.append(('r', self.real(a[1])))
        elif re.match(r'_ZNSolsE[ijlmb]$|_ZNSo9_M_insertI[lmb]E', name):
            v = a[1]
            st.out.append(('i', v))
        elif re.match(r'_ZStlsI.*PKc|_ZSt16__ostream_insert', name):
            try:
                s = self.cstr(st, a[1])
                if len(a) > 2 and isinstance(a[2], int):
                    s = s[:a[2]]
                st.out.append(('s', s))
            except Exception:
                st.out.append(('s', '?'))
        elif re.match(r'_ZStlsI.*c$|_ZNSo3putEc', name):
            st.out.append(('s', chr(a[1]) if isinstance(a[1], int) else '?'))
        else:
            st.out.append(('x', name))
        return 'ok', a[0] if a and rt[0] == 'ptr' else (0 if rt[0] == 'i' else None)

    def normal_draw(self, name, a, st):
        """trusted contract of std::normal_distribution: mean + stddev * u, u a function of the
        generator state; the generator advances"""
        self.trusted.add('std::normal_distribution / std::minstd_rand0 (result = mean + stddev*u, u a function of the generator state; variates come in pairs)')
        t = ('f', 64) if name.startswith('_ZNSt19normal_distributionId') else ('f', 32)
        w = t[1] // 8
        d = a[0]
        par = a[2] if len(a) > 2 else a[0]
        mean = self.load(st, par, t)
        sd = self.load(st, Ptr(par.o, par.off + w), t)
        saved = self.load(st, Ptr(d.o, d.off + 2 * w), t)
        av = self.load(st, Ptr(d.o, d.off + 3 * w), ('i', 8))
        e = self.load(st, a[1], ('i', 64))
        e = self.toI(e, 64); av = self.toI(av, 8)
        if av is IC(0) or av is IC(1) or (isinstance(av, int)):
            # libstdc++ keeps the second variate of a pair and hands it out without touching the engine
            one = av is IC(1) or av == 1
            u = saved if one else fn('normal', i2r(e))
            if not one:
                self.store(st, a[1], ('i', 64), ifn('eng', e))
                self.store(st, Ptr(d.o, d.off + 2 * w), t, fn('saved', i2r(e)))
            self.store(st, Ptr(d.o, d.off + 3 * w), ('i', 8), IC(0) if one else IC(1))
            if st.draws is not None:
                st.draws.append(u)
            st.ndraws = iadd(st.ndraws, IC(1))
            return 'ok', add(mean, mul(sd, u))
        u = fn('normal', i2r(e), saved, i2r(av))
        ne = ifn('eng', e, ifn('rb', saved), av)
        self.store(st, a[1], ('i', 64), ne)
        self.store(st, Ptr(d.o, d.off + 2 * w), t, fn('saved', i2r(e), saved, i2r(av)))
        self.store(st, Ptr(d.o, d.off + 3 * w), ('i', 8), ite(bfn('avail', e, av), IC(1), IC(0)))
        if st.draws is not None:
            st.draws.append(u)
        st.ndraws = iadd(st.ndraws, IC(1))
        return 'ok', add(mean, mul(sd, u))

    def llvm_intrinsic(self, name, a, t, rt, st):
        R = self.real
        b = name.split('.')
        k = b[1]
        if k in ('memcpy', 'memmove'):
            if not isinstance(a[2], int):
                # length = ite of constants
                if isinstance(a[2], T) and a[2].op == 'ite':
                    c = a[2].a[0]
                    s1 = st.fork(); s2 = st.fork()
                    s1.pc.append(c); s2.pc.append(bnot(c))
                    for s_, l_ in ((s1, a[2].a[1]), (s2, a[2].a[2])):
                        self.llvm_intrinsic(name, [a[0], a[1], l_.v if l_.op == 'ic' else l_], t, rt, s_)
                    self.assign_state(st, self.merge(s1, s2))
                    return 'ok', None
                raise Unsupported('memcpy of symbolic length')
            self.memcpy(st, a[0], a[1], a[2])
            return 'ok', None
        if k == 'memset':
            if not isinstance(a[2], int) or not isinstance(a[1], int):
                raise Unsupported('memset symbolic')
            if a[2] == 0:
                return 'ok', None
            if isinstance(a[0], PIte):
                raise Unsupported('memset through conditional pointer')
            self.check_access(st, a[0], a[2], 'memset')
            if a[1] == 0:
                self.memset0(st, a[0].o, a[0].off, a[2])
            else:
                self.kill(st, a[0].o, a[0].off, a[2])
                o = st.wobj(a[0].o)
                for i in range(a[2]):
                    o.cells[a[0].off + i] = (1, a[1])
            return 'ok', None
        if k == 'fabs':
            return 'ok', self.fabs(R(a[0]))
        if k == 'sqrt':
            return 'ok', self.root(st, R(a[0]))
        if k in ('sin', 'cos', 'exp', 'log'):
            return 'ok', self.trig(k, R(a[0]))
        if k == 'copysign':
            return 'ok', ite(self.signbit(R(a[1])), neg(self.fabs(R(a[0]))), self.fabs(R(a[0])))
        if k == 'ceil':
            return 'ok', rceil(R(a[0]))
        if k == 'floor':
            return 'ok', rfloor(R(a[0]))
        if k in ('minnum', 'minimum'):
            return 'ok', ite(lt(R(a[1]), R(a[0])), R(a[1]), R(a[0]))
        if k in ('maxnum', 'maximum'):
            return 'ok', ite(lt(R(a[0]), R(a[1])), R(a[1]), R(a[0]))
        if k in ('fmuladd', 'fma'):
            return 'ok', add(mul(R(a[0]), R(a[1])), R(a[2]))
        if k in ('umax', 'umin', 'smax', 'smin'):
            pred = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[k]
            c = self.icmp(st, pred, t[0], a[0], a[1])
            return 'ok', self.vite(c, a[0], a[1], t[0])
        if k == 'abs':
            c = self.icmp(st, 'slt', t[0], a[0], 0)
            return 'ok', self.vite(c, self.ibin(st, 'sub', t[0], 0, a[0]), a[0], t[0])
        if k == 'is' and b[2] == 'fpclass':
            m = a[1]
            x = R(a[0])
            # reals: never nan/inf; sign of zero arbitrary
            negm = m & (0x8 | 0x10)
            zneg = m & 0x20; zpos = m & 0x40
            posm = m & (0x80 | 0x100)
            nrm = bor(band(lt(x, ZERO), TRUE if negm else FALSE), band(lt(ZERO, x), TRUE if posm else FALSE))
            z = eq(x, ZERO)
            sg = bfn('signbit_of_zero', x)
            zz = bor(band(sg, TRUE if zneg else FALSE), band(bnot(sg), TRUE if zpos else FALSE))
            return 'ok', bor(nrm, band(z, zz))
        if k == 'eh':
            if isinstance(a[0], Ptr) and a[0].o in st.mem:
                return 'ok', self.typeid(st.mem[a[0].o].name)
            return 'ok', 1
        if k == 'trap':
            self.fail_path(st, 'abort', 'trap')
        if k in ('umul', 'uadd', 'usub', 'smul', 'sadd', 'ssub') and b[2] == 'with':
            n = t[0][1]
            if isinstance(a[0], int) and isinstance(a[1], int):
                x, y = a[0], a[1]
                if k[0] == 's':
                    x, y = to_signed(x, n), to_signed(y, n)
                r = {'mul': x * y, 'add': x + y, 'sub': x - y}[k[1:]]
                ov = not (0 <= r < (1 << n)) if k[0] == 'u' else not (-(1 << (n - 1)) <= r < (1 << (n - 1)))
                return 'ok', (r & ((1 << n) - 1), TRUE if ov else FALSE)
        if k == 'expect':
            return 'ok', a[0]
        if k == 'objectsize':
            return 'ok', (1 << 64) - 1
        if k == 'is' and b[2] == 'constant':
            return 'ok', FALSE
        if k in ('rint', 'nearbyint', 'round', 'trunc', 'roundeven'):
            x = R(a[0])
            if k == 'trunc':
                return 'ok', ite(lt(x, ZERO), rceil(x), rfloor(x))
            if k == 'round':
                h = C(Fraction(1, 2))
                return 'ok', ite(lt(x, ZERO), rceil(sub(x, h)), rfloor(add(x, h)))
        if k == 'pow':
            return 'ok', fn('pow', R(a[0]), R(a[1]))
        if k == 'powi':
            if isinstance(a[1], int) and 0 <= to_signed(a[1], 32) <= 4:
                r = ONE
                for _ in range(a[1]):
                    r = mul(r, R(a[0]))
                return 'ok', r
        raise Unsupported('intrinsic ' + name)

    # ------------------------------------------------------------------ harness primitives
    def harness_prim(self, name, a, t, rt, st):
        R = self.real
        n = name[3:]
        if n in ('real', 'realf'):
            nm = self.newname(self.cstr(st, a[0]))
            v = V(nm)
            self.inputs.append((nm, 'R', None, None))
            return 'ok', v
        if n in ('real_in', 'realf_in'):
            nm = self.newname(self.cstr(st, a[0]))
            v = V(nm)
            lo, hi = R(a[1]), R(a[2])
            self.inputs.append((nm, 'R', lo, hi))
            st.pc += [le(lo, v), le(v, hi)]
            return 'ok', v
        if n in ('pos', 'posf'):
            nm = self.newname(self.cstr(st, a[0]))
            v = V(nm)
            self.inputs.append((nm, 'R', None, None))
            st.pc.append(lt(ZERO, v))
            return 'ok', v
        if n in ('nonneg', 'nonnegf'):
            nm = self.newname(self.cstr(st, a[0]))
            v = V(nm)
            self.inputs.append((nm, 'R', None, None))
            st.pc.append(le(ZERO, v))
            return 'ok', v
        if n == 'bool':
            nm = self.newname(self.cstr(st, a[0]))
            self.inputs.append((nm, 'B', None, None))
            return 'ok', BV(nm)
        if n == 'int':
            nm = self.newname(self.cstr(st, a[0]))
            v = IV(nm)
            lo, hi = to_signed(a[1], 32), to_signed(a[2], 32)
            self.inputs.append((nm, 'I', lo, hi))
            if hi - lo < 8:
                # finite choice, explicit
                r = IC(hi)
                for k in range(lo, hi):
                    r = ite(ieq(v, IC(k)), IC(k), r)
                st.pc += [bnot(ilt(v, IC(lo))), bnot(ilt(IC(hi), v))]
                return 'ok', r
            st.pc += [bnot(ilt(v, IC(lo))), bnot(ilt(IC(hi), v))]
            return 'ok', v
        if n in ('unit4', 'unit4f'):
            nm = self.newname(self.cstr(st, a[1]))
            ft = ('f', 64) if n == 'unit4' else ('f', 32)
            w = ft[1] // 8
            vs = []
            for i, s in enumerate('xyzw'):
                v = V('%s.%s' % (nm, s))
                vs.append(v)
                self.inputs.append(('%s.%s' % (nm, s), 'R', C(-1), C(1)))
                self.store(st, Ptr(a[0].o, a[0].off + i * w), ft, v)
            ss = ZERO
            for v in vs:
                ss = add(ss, mul(v, v))
            st.pc.append(eq(ss, ONE))
            return 'ok', None
        if n == 'assume':
            c = self.boolean(a[0])
            if c is FALSE:
                return 'stop', None
            d = self.decide(st, c)
            if d is False:
                return 'stop', None
            if c is not TRUE:
                for y in (c.a if c.op == 'and' else (c,)):
                    st.pc.append(y)
            self.assumes += 1
            return 'ok', None
        if n in ('assume_eq', 'assume_eqf'):
            c = eq(R(a[0]), R(a[1]))
            if c is not TRUE:
                st.pc.append(c)
            return 'ok', None
        if n == 'assert':
            self.obls.append(Obligation(self.cstr(st, a[1]), 'bool', list(st.pc), self.boolean(a[0]), None, self.harness))
            return 'ok', None
        if n in ('eq', 'eqf'):
            self.obls.append(Obligation(self.cstr(st, a[2]), 'eq', list(st.pc), R(a[0]), R(a[1]), self.harness))
            return 'ok', None
        if n in ('near',):
            # |a-b| <= tol, tol a constant: an equality up to representation of constants
            self.obls.append(Obligation(self.cstr(st, a[3]), 'bool', list(st.pc), band(le(sub(R(a[0]), R(a[1])), R(a[2])), le(sub(R(a[1]), R(a[0])), R(a[2]))), None, self.harness))
            return 'ok', None
        if n in ('le', 'lef'):
            self.obls.append(Obligation(self.cstr(st, a[2]), 'bool', list(st.pc), le(R(a[0]), R(a[1])), None, self.harness))
            return 'ok', None
        if n in ('lt',):
            self.obls.append(Obligation(self.cstr(st, a[2]), 'bool', list(st.pc), lt(R(a[0]), R(a[1])), None, self.harness))
            return 'ok', None
        if n == 'unreachable':
            self.obls.append(Obligation(self.cstr(st, a[0]), 'unreachable', list(st.pc), None, None, self.harness))
            return 'stop', None
        if n == 'reached':
            self.obls.append(Obligation(self.cstr(st, a[0]), 'reach', list(st.pc), None, None, self.harness))
            return 'ok', None
        if n == 'havoc':
            self.havoc(st, a[0], a[1], self.newname(self.cstr(st, a[2])))
            return 'ok', None
        if n == 'same':
            self.same(st, a[0], a[1], a[2], self.cstr(st, a[3]))
            return 'ok', None
        if n == 'draw_reset':
            st.draws = []
            st.ndraws = IC(0)
            return 'ok', None
        if n == 'draw':
            if st.draws is None:
                raise Unsupported('draw trace lost in an accelerated loop')
            i = to_signed(a[0], 32)
            if i >= len(st.draws):
                # no such draw happened: arbitrary value (the draw count obligation catches it)
                return 'ok', fresh('nodraw')
            return 'ok', st.draws[i]
        if n == 'draw_count':
            v = st.ndraws
            return 'ok', (v.v & 0xffffffff) if v.op == 'ic' else v
        if n == 'out_reset':
            st.out = []
            return 'ok', None
        if n == 'out_real':
            i = a[0]
            rs = [v for k, v in self.flat_out(st) if k in 'ri']
            if i >= len(rs):
                return 'ok', fresh('noout')
            v = rs[i]
            return 'ok', v if isinstance(v, T) and v.s == 'R' else C(to_signed(v, 32))
        if n == 'out_count':
            return 'ok', len([1 for k, v in self.flat_out(st) if k in 'ri'])
        if n == 'out_text_is':
            # the text with every number replaced by '#'
            s = ''.join('#' if k in 'ri' else v for k, v in self.flat_out(st))
            return 'ok', TRUE if s == self.cstr(st, a[0]) else FALSE
        if n == 'float_exact':
            self.float_exact = True
            return 'ok', None
        if n == 'fn1':
            return 'ok', fn(self.cstr(st, a[0]), R(a[1]))
        if n == 'fn2':
            return 'ok', fn(self.cstr(st, a[0]), R(a[1]), R(a[2]))
        if n == 'sqrt':
            return 'ok', tm.sqrt(R(a[0]))
        if n == 'touch':
            return 'ok', None
        raise Unsupported('harness primitive ' + name)

    def flat_out(self, st):
        for x in st.out:
            if x[0] == 'merged':
                raise Unsupported('output differs per path')
        # calls on streams that have no output effect
        return [x for x in st.out if x[0] in ('s', 'r', 'i')]

    def layout(self, st, p, size):
        """typed leaves of the memory region; list of (off, type, path)"""
        o = st.mem[p.o]
        if o.type is None:
            raise Unsupported('havoc of an untyped object')
        res = []
        for off, t, path in self.m.leaves(o.type):
            if p.off <= off < p.off + size:
                res.append((off - p.off, t, path))
        if not res:
            raise Unsupported('havoc layout')
        return res

    def havoc(self, st, p, size, name):
        rec = []
        for off, t, path in self.layout(st, p, size):
            names = [x for x in path if isinstance(x, str)]
            pad = path and isinstance(path[-1], tuple) and path[-1][1][2] == ('i', 8) and path[-1][1][1] < 8
            if t[0] == 'f':
                if any('std::normal_distribution<>::param_type' in x or 'normal_distribution<float>::param_type' in x or '::param_type' in x for x in names):
                    continue
                nm = '%s+%d' % (name, off)
                self.inputs.append((nm, 'R', None, None))
                self.store(st, Ptr(p.o, p.off + off), t, V(nm))
                rec.append((off, 'd' if t[1] == 64 else 'f', nm))
            elif t[0] == 'i':
                if pad:
                    continue
                nm = '%s+%d' % (name, off)
                if t[1] == 8:
                    self.inputs.append((nm, 'B', None, None))
                    self.store(st, Ptr(p.o, p.off + off), t, ite(BV(nm), IC(1), IC(0)))
                    rec.append((off, 'b', nm))
                elif t[1] == 64:
                    # generator state
                    self.inputs.append((nm, 'I', 1, 2147483646))
                    self.store(st, Ptr(p.o, p.off + off), t, IV(nm))
                    rec.append((off, 'q', nm))
                else:
                    self.inputs.append((nm, 'I', 0, 7))
                    self.store(st, Ptr(p.o, p.off + off), t, IV(nm))
                    rec.append((off, 'i', nm))
            elif t[0] == 'ptr':
                continue
        self.havocs.append((name, rec))
        if self.spill:
            self.spill(['H %s %d %s %s' % (name, off, k, nm) for off, k, nm in rec])

    def same(self, st, p, q, size, oid):
        rec = []
        n = 0
        lay = self.layout(st, p, size)
        i = 0
        while i < len(lay):
            off, t, path = lay[i]
            names = [x for x in path if isinstance(x, str)]
            pad = path and isinstance(path[-1], tuple) and path[-1][1][2] == ('i', 8) and path[-1][1][1] < 8
            i += 1
            if pad:
                continue
            if t[0] == 'ptr':
                # std::vector: compare the contents
                pb = self.load(st, Ptr(p.o, p.off + off), t); qb = self.load(st, Ptr(q.o, q.off + off), t)
                if isinstance(pb, Ptr) and isinstance(qb, Ptr) and i < len(lay) and lay[i][1][0] == 'ptr':
                    pe = self.load(st, Ptr(p.o, p.off + off + 8), t); qe = self.load(st, Ptr(q.o, q.off + off + 8), t)
                    i += 2
                    szeq = TRUE if isinstance(pe, Ptr) and isinstance(qe, Ptr) and pe.off - pb.off == qe.off - qb.off else FALSE
                    self.obls.append(Obligation(oid, 'bool', list(st.pc), szeq, None, self.harness, 'container size'))
                    if szeq is TRUE and pb.o and qb.o:
                        oa, ob = st.mem[pb.o], st.mem[qb.o]
                        inner = []
                        for k in sorted(oa.cells):
                            if pb.off <= k < pe.off:
                                y = ob.cells.get(qb.off + k - pb.off)
                                self.same_cell(st, oid, oa.cells[k], y, 'container element +%d' % k)
                                inner.append((k - pb.off, 'd' if isinstance(oa.cells[k][1], T) and oa.cells[k][1].s == 'R' else 'r', oa.cells[k][0]))
                        rec.append((off, 'V', inner))
                    continue
                raise Unsupported('same on pointers')
            x = self.load(st, Ptr(p.o, p.off + off), t); y = self.load(st, Ptr(q.o, q.off + off), t)
            if t[0] == 'f':
                if x is not y:
                    self.obls.append(Obligation(oid, 'eq', list(st.pc), self.real(x), self.real(y), self.harness, 'offset %d' % off))
                n += 1
                rec.append((off, 'd' if t[1] == 64 else 'f', ''))
            else:
                c = self.icmp(st, 'eq', t, x, y)
                if c is not TRUE:
                    self.obls.append(Obligation(oid, 'bool', list(st.pc), c, None, self.harness, 'offset %d' % off))
                n += 1
                rec.append((off, {8: 'b', 32: 'i', 64: 'q', 1: 'b'}[t[1]], ''))
        # syntactically identical cells are discharged at once
        self.obls.append(Obligation(oid, 'bool', list(st.pc), TRUE, None, self.harness, '%d cells' % n))
        key = '%s#%d' % (oid, size)      # the same clause may compare objects of several types
        if self.spill and key not in {x[0] for x in self.layouts}:
            self.spill(['S %s %d %s -' % (key, r[0], r[1]) for r in rec])
        self.layouts.append((key, rec))

    def same_cell(self, st, oid, x, y, where):
        if y is None or x[0] != y[0]:
            self.obls.append(Obligation(oid, 'bool', list(st.pc), FALSE, None, self.harness, where)); return
        vx, vy = x[1], y[1]
        if vx is vy:
            return
        if (isinstance(vx, T) and vx.s == 'R') or (isinstance(vy, T) and vy.s == 'R'):
            t = ('f', 8 * x[0])
            self.obls.append(Obligation(oid, 'eq', list(st.pc), self.conv(st, vx, t), self.conv(st, vy, t), self.harness, where)); return
        t = ('i', 8 * x[0])
        c = self.icmp(st, 'eq', t, self.conv(st, vx, t), self.conv(st, vy, t))
        if c is not TRUE:
            self.obls.append(Obligation(oid, 'bool', list(st.pc), c, None, self.harness, where))

    # ------------------------------------------------------------------ entry
    def run_harness(self, fname):
        for _ in range(8):
            self.obls = []; self.inputs = []; self.names = {}; self.havocs = []; self.layouts = []
            self.nobj = 0; self.gobj = {}; self.steps = 0
            self.accel_info = []
            st = State()
            try:
                for n in sorted(self.gmut):
                    self.global_ptr(st, n)
                res, exc = self.call_function(fname, [], st)
            except NeedAccel as e:
                if e.key in self.accel:
                    raise Unsupported('acceleration did not converge')
                self.accel.add(e.key)
                continue
            except Stop:
                res, exc = None, []
            for s in exc:
                self.obls.append(Obligation('no-uncaught-exception', 'unreachable', list(s.pc), None, None, self.harness, 'uncaught exception %s' % s.exc))
            new = {n for n in self.gwritten if n in self.m.globals} - self.gmut
            if new:
                self.gmut |= new
                continue
            self.final = res
            return res
        raise Unsupported('too many accelerated loops')
