"""Parser for the textual LLVM 18 IR that clang emits for the contract harnesses.

Only what the verifier needs is represented; any construct that is not understood
raises Unsupported when it is *executed* (never silently skipped).
"""
import re
from fractions import Fraction
import struct


class Unsupported(Exception):
    pass


TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<cstr>c"(?:[^"\\]|\\.)*")
 | (?P<local>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<global>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<comdat>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<str>"[^"]*")
 | (?P<hex>0x[KMLHR]?[0-9A-Fa-f]+)
 | (?P<num>[-+]?[0-9]+(?:\.[0-9]*(?:[eE][-+]?[0-9]+)?)?)
 | (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
 | (?P<dots>\.\.\.)
 | (?P<punct>[(){}\[\]<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise Unsupported('lex: %r' % s[i:i + 40])
        i = m.end()
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
    return out


# ---- types: ('i',bits) ('f',64|32) ('ptr',) ('void',) ('arr',n,t) ('st',[t..],packed) ('named',name)
#             ('vec',n,t) ('label',) ('meta',) ('fn',)
class Type(tuple):
    pass


VOID = ('void',)
PTR = ('ptr',)


class P:
    """token cursor"""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise Unsupported('expected %s got %s near %s' % (v, x[1], ' '.join(t[1] for t in self.t[max(0, self.i - 8):self.i + 8])))

    def end(self):
        return self.i >= len(self.t)


def parse_type(p):
    k, v = p.next()
    t = None
    if k == 'word':
        if v == 'void':
            t = VOID
        elif v == 'ptr':
            t = PTR
            if p.peek()[1] == 'addrspace':
                p.next(); p.expect('('); p.next(); p.expect(')')
        elif v == 'double':
            t = ('f', 64)
        elif v == 'float':
            t = ('f', 32)
        elif v == 'x86_fp80':
            t = ('f', 80)
        elif v == 'label':
            t = ('label',)
        elif v == 'metadata':
            t = ('meta',)
        elif v == 'opaque':
            t = ('opaque',)
        elif v == 'token':
            t = ('token',)
        elif re.fullmatch(r'i[0-9]+', v):
            t = ('i', int(v[1:]))
        else:
            raise Unsupported('type %s' % v)
    elif k == 'local':
        t = ('named', v)
    elif v == '[':
        n = int(p.next()[1]); p.expect('x'); e = parse_type(p); p.expect(']')
        t = ('arr', n, e)
    elif v == '{':
        es = []
        if not p.accept('}'):
            while True:
                es.append(parse_type(p))
                if p.accept('}'):
                    break
                p.expect(',')
        t = ('st', tuple(es), False)
    elif v == '<':
        if p.peek()[1] == '{':
            p.next()
            es = []
            if not p.accept('}'):
                while True:
                    es.append(parse_type(p))
                    if p.accept('}'):
                        break
                    p.expect(',')
            p.expect('>')
            t = ('st', tuple(es), True)
        else:
            n = int(p.next()[1]); p.expect('x'); e = parse_type(p); p.expect('>')
            t = ('vec', n, e)
    else:
        raise Unsupported('type token %s' % v)
    # function type suffix
    while p.peek()[1] == '(' and k != 'local_fn':
        # function type: T (args...)
        save = p.i
        p.next()
        try:
            while not p.accept(')'):
                if p.accept('...'):
                    continue
                parse_type(p)
                p.accept(',')
        except Unsupported:
            p.i = save
            break
        t = ('fn', t)
    return t


PARAM_ATTR_WORDS = set('''noundef nonnull noalias nocapture readonly readnone writeonly signext zeroext inreg
 returned immarg writable dead_on_unwind nofree nest noext swiftself nosync allocptr allocalign'''.split())
PARAM_ATTR_CALL = set('''dereferenceable dereferenceable_or_null sret byval byref align elementtype preallocated
 inalloca nofpclass captures range initializes'''.split())
CALL_CONV = set('fastcc ccc coldcc tailcc'.split())


def parse_attrs(p):
    """skip parameter attributes, return dict of the interesting ones"""
    d = {}
    while True:
        k, v = p.peek()
        if k == 'word' and v in PARAM_ATTR_WORDS:
            p.next(); d[v] = True
        elif k == 'word' and v in PARAM_ATTR_CALL:
            p.next()
            if v == 'align' and p.peek()[0] == 'num':
                p.next(); continue
            p.expect('(')
            if v in ('sret', 'byval', 'byref', 'elementtype', 'inalloca', 'preallocated'):
                d[v] = parse_type(p); p.expect(')')
            else:
                depth = 1
                vals = []
                while depth:
                    x = p.next()
                    if x[1] == '(':
                        depth += 1
                    elif x[1] == ')':
                        depth -= 1
                    if depth:
                        vals.append(x[1])
                d[v] = vals
        elif k == 'str':
            p.next()
            if p.accept('='):
                p.next()
        elif k == 'attr':
            p.next()
        else:
            return d


def dbl_from_hex(h):
    # 0xHHHHHHHHHHHHHHHH : IEEE double bits (also used for float constants)
    if h[2] in 'KMLHR':
        raise Unsupported('fp constant ' + h)
    bits = int(h[2:], 16)
    f = struct.unpack('<d', struct.pack('<Q', bits))[0]
    return f


def parse_value(p, ty):
    """operand of type ty -> tuple"""
    k, v = p.next()
    if k == 'local':
        return ('l', v)
    if k == 'global':
        return ('g', v[1:].strip('"'))
    if k == 'num':
        if ty[0] == 'f':
            return ('fc', float(v))
        return ('ic', int(v))
    if k == 'hex':
        return ('fc', dbl_from_hex(v))
    if k == 'cstr':
        raw = v[2:-1]
        bs = bytearray()
        i = 0
        while i < len(raw):
            if raw[i] == '\\':
                bs.append(int(raw[i + 1:i + 3], 16)); i += 3
            else:
                bs.append(ord(raw[i])); i += 1
        return ('cs', bytes(bs))
    if k == 'word':
        if v in ('true', 'false'):
            return ('ic', 1 if v == 'true' else 0)
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if v == 'none':
            return ('null',)
        if v == 'getelementptr':
            while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                p.next()
            if p.peek()[1] == 'inrange':
                p.next(); p.expect('(')
                while not p.accept(')'):
                    p.next()
            p.expect('(')
            bt = parse_type(p); p.expect(',')
            ops = []
            while True:
                p.accept('inrange')
                t = parse_type(p); ops.append((t, parse_value(p, t)))
                if p.accept(')'):
                    break
                p.expect(',')
            return ('gep', bt, ops)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            p.expect('(')
            t = parse_type(p); x = parse_value(p, t); p.expect('to'); t2 = parse_type(p); p.expect(')')
            return ('cast', v, t, x, t2)
        if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'icmp'):
            while p.peek()[1] in ('nuw', 'nsw'):
                p.next()
            pred = p.next()[1] if v == 'icmp' else None
            p.expect('(')
            t = parse_type(p); a = parse_value(p, t); p.expect(','); t2 = parse_type(p); b = parse_value(p, t2); p.expect(')')
            return ('cbin', v, t, a, b, pred)
        if v == 'asm':
            return ('asm',)
        if v == 'blockaddress' or v == 'dso_local_equivalent' or v == 'no_cfi':
            raise Unsupported(v)
    if k == 'punct' and v in '[{<':
        packed = False
        if v == '<' and p.peek()[1] == '{':
            p.next(); packed = True; close = '}'
        else:
            close = {'[': ']', '{': '}', '<': '>'}[v]
        es = []
        if not p.accept(close):
            while True:
                t = parse_type(p); es.append((t, parse_value(p, t)))
                if p.accept(close):
                    break
                p.expect(',')
        if packed:
            p.expect('>')
        return ('agg', es)
    if k == 'meta':
        # metadata operand, swallow
        if p.peek()[1] == '(':
            depth = 0
            while True:
                x = p.next()[1]
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
                    if depth == 0:
                        break
        return ('meta',)
    raise Unsupported('value %s %s' % (k, v))


class Instr:
    __slots__ = ('op', 'dst', 'a', 'text')

    def __init__(self, op, dst, a, text):
        self.op = op; self.dst = dst; self.a = a; self.text = text

    def __repr__(self):
        return self.text


class Block:
    __slots__ = ('name', 'instrs', 'phis', 'succ', 'term')


class Function:
    def __init__(self, name):
        self.name = name
        self.params = []      # (name, type, attrs)
        self.ret = None
        self.ret_attrs = {}
        self.blocks = {}
        self.order = []
        self.entry = None
        self.analysed = False


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.functions = {}
        self.decls = {}
        self._lay = {}
        self.aliases = {}

    # ---- layout
    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def size_align(self, t):
        r = self._lay.get(t)
        if r is None:
            r = self._size_align(t)
            self._lay[t] = r
        return r

    def _size_align(self, t):
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            s = 1
            while s < b:
                s *= 2
            return s, min(s, 16)
        if k == 'f':
            return {64: (8, 8), 32: (4, 4), 80: (16, 16)}[t[1]]
        if k == 'ptr':
            return 8, 8
        if k == 'arr':
            s, a = self.size_align(t[2])
            return s * t[1], a
        if k == 'vec':
            s, a = self.size_align(t[2])
            return s * t[1], s * t[1]
        if k == 'named':
            return self.size_align(self.types[t[1]])
        if k == 'st':
            off = 0; al = 1
            for e in t[1]:
                s, a = self.size_align(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise Unsupported('sizeof %s' % (t,))

    def sizeof(self, t):
        return self.size_align(t)[0]

    def field_off(self, t, idx):
        off = 0
        for i, e in enumerate(t[1]):
            s, a = self.size_align(e)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if i == idx:
                return off
            off += s
        raise Unsupported('field')

    def leaves(self, t, base=0, path=()):
        """flat list of (offset, scalar type, path of enclosing struct names)"""
        k = t[0]
        if k == 'named':
            yield from self.leaves(self.types[t[1]], base, path + (t[1],))
        elif k == 'st':
            for i, e in enumerate(t[1]):
                yield from self.leaves(e, base + self.field_off(t, i), path)
        elif k in ('arr', 'vec'):
            s = self.sizeof(t[2])
            for i in range(t[1]):
                yield from self.leaves(t[2], base + i * s, path + (('idx', t),))
        else:
            yield base, t, path


INT_BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor'.split())
FP_BIN = set('fadd fsub fmul fdiv frem'.split())
CASTS = set('trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast addrspacecast'.split())
FLAGS = set('nuw nsw exact disjoint nneg fast nnan ninf nsz arcp contract afn reassoc inbounds nusw samesign'.split())


def parse_call(p, op):
    # after 'call'/'invoke'
    while p.peek()[1] in FLAGS or p.peek()[1] in CALL_CONV:
        p.next()
    ra = parse_attrs(p)
    rt = parse_type(p)
    if rt[0] == 'fn':
        rt = rt[1]
    callee = parse_value(p, PTR)
    if callee == ('asm',):
        while p.peek()[1] in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'):
            p.next()
        p.next(); p.expect(','); p.next()
    p.expect('(')
    args = []
    if not p.accept(')'):
        while True:
            t = parse_type(p)
            at = parse_attrs(p)
            if t[0] == 'meta':
                depth = 0
                while True:
                    v = p.peek()[1]
                    if depth == 0 and v in (',', ')'):
                        break
                    if v in '({':
                        depth += 1
                    if v in ')}':
                        depth -= 1
                    p.next()
                args.append((t, ('meta',), at))
            else:
                args.append((t, parse_value(p, t), at))
            if p.accept(')'):
                break
            p.expect(',')
    return rt, callee, args


def parse_instr(line):
    p = P(tokenize(line))
    dst = None
    if p.peek()[0] == 'local' and p.peek(1)[1] == '=':
        dst = p.next()[1]; p.next()
    op = p.next()[1]
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]

    def tv():
        t = parse_type(p)
        return t, parse_value(p, t)

    if op in INT_BIN or op in FP_BIN:
        while p.peek()[1] in FLAGS:
            p.next()
        t, a = tv(); p.expect(','); b = parse_value(p, t)
        return Instr(op, dst, (t, a, b), line)
    if op == 'fneg':
        while p.peek()[1] in FLAGS:
            p.next()
        t, a = tv()
        return Instr(op, dst, (t, a), line)
    if op in ('icmp', 'fcmp'):
        while p.peek()[1] in FLAGS:
            p.next()
        pred = p.next()[1]
        t, a = tv(); p.expect(','); b = parse_value(p, t)
        return Instr(op, dst, (pred, t, a, b), line)
    if op in CASTS:
        while p.peek()[1] in FLAGS:
            p.next()
        t, a = tv(); p.expect('to'); t2 = parse_type(p)
        return Instr('cast', dst, (op, t, a, t2), line)
    if op == 'freeze':
        t, a = tv()
        return Instr(op, dst, (t, a), line)
    if op == 'select':
        while p.peek()[1] in FLAGS:
            p.next()
        ct, c = tv(); p.expect(','); t, a = tv(); p.expect(','); t2, b = tv()
        return Instr(op, dst, (ct, c, t, a, b), line)
    if op == 'phi':
        while p.peek()[1] in FLAGS:
            p.next()
        t = parse_type(p)
        inc = []
        while True:
            p.expect('[')
            v = parse_value(p, t); p.expect(','); lb = p.next()[1]; p.expect(']')
            inc.append((lb, v))
            if not p.accept(','):
                break
            if p.peek()[0] == 'meta':
                break
        return Instr(op, dst, (t, dict(inc)), line)
    if op == 'alloca':
        p.accept('inalloca')
        t = parse_type(p)
        n = None
        if p.accept(','):
            if p.peek()[1] == 'align':
                pass
            else:
                nt = parse_type(p); n = (nt, parse_value(p, nt))
        return Instr(op, dst, (t, n), line)
    if op == 'load':
        p.accept('atomic'); p.accept('volatile')
        t = parse_type(p); p.expect(','); pt, a = tv()
        return Instr(op, dst, (t, a), line)
    if op == 'store':
        p.accept('atomic'); p.accept('volatile')
        t, v = tv(); p.expect(','); pt, a = tv()
        return Instr(op, None, (t, v, a), line)
    if op == 'getelementptr':
        while p.peek()[1] in FLAGS:
            p.next()
        bt = parse_type(p); p.expect(',')
        ops = []
        while True:
            ops.append(tv())
            if not p.accept(','):
                break
            if p.peek()[0] == 'meta':
                break
        return Instr(op, dst, (bt, ops), line)
    if op in ('call', 'invoke'):
        rt, callee, args = parse_call(p, op)
        if op == 'call':
            return Instr('call', dst, (rt, callee, args, None, None), line)
        while p.peek()[1] != 'to':
            p.next()
        p.expect('to'); p.expect('label'); n = p.next()[1]
        p.expect('unwind'); p.expect('label'); u = p.next()[1]
        return Instr('invoke', dst, (rt, callee, args, n, u), line)
    if op == 'br':
        if p.peek()[1] == 'label':
            p.next()
            return Instr('br', None, (None, p.next()[1], None), line)
        t, c = tv(); p.expect(','); p.expect('label'); a = p.next()[1]; p.expect(','); p.expect('label'); b = p.next()[1]
        return Instr('br', None, (c, a, b), line)
    if op == 'switch':
        t, v = tv(); p.expect(','); p.expect('label'); d = p.next()[1]; p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = parse_type(p); cv = parse_value(p, ct); p.expect(','); p.expect('label'); cases.append((cv[1], p.next()[1]))
        return Instr('switch', None, (t, v, d, cases), line)
    if op == 'ret':
        if p.peek()[1] == 'void':
            return Instr('ret', None, None, line)
        return Instr('ret', None, tv(), line)
    if op == 'unreachable':
        return Instr(op, None, None, line)
    if op == 'resume':
        return Instr(op, None, tv(), line)
    if op == 'landingpad':
        t = parse_type(p)
        clauses = []
        cleanup = False
        while not p.end():
            k, v = p.next()
            if v == 'cleanup':
                cleanup = True
            elif v in ('catch', 'filter'):
                ct = parse_type(p)
                clauses.append((v, parse_value(p, ct)))
        return Instr(op, dst, (t, cleanup, clauses), line)
    if op == 'extractvalue':
        t, v = tv()
        idx = []
        while p.accept(','):
            if p.peek()[0] == 'meta':
                break
            idx.append(int(p.next()[1]))
        return Instr(op, dst, (t, v, idx), line)
    if op == 'insertvalue':
        t, v = tv(); p.expect(','); t2, e = tv()
        idx = []
        while p.accept(','):
            if p.peek()[0] == 'meta':
                break
            idx.append(int(p.next()[1]))
        return Instr(op, dst, (t, v, t2, e, idx), line)
    if op in ('extractelement',):
        t, v = tv(); p.expect(','); it, i = tv()
        return Instr(op, dst, (t, v, i), line)
    if op in ('insertelement',):
        t, v = tv(); p.expect(','); et, e = tv(); p.expect(','); it, i = tv()
        return Instr(op, dst, (t, v, e, i), line)
    return Instr('unsupported', dst, (op,), line)


GLOBAL_WORDS = set('''private internal linkonce linkonce_odr weak weak_odr available_externally common appending
 external extern_weak dso_local dso_preemptable default hidden protected unnamed_addr local_unnamed_addr thread_local
 externally_initialized'''.split())


def parse_header(line):
    p = P(tokenize(line))
    kind = p.next()[1]
    while True:
        k, v = p.peek()
        if k == 'word' and (v in GLOBAL_WORDS or v in CALL_CONV):
            p.next()
        else:
            break
    ra = parse_attrs(p)
    rt = parse_type_nofn(p)
    name = p.next()[1][1:].strip('"')
    p.expect('(')
    params = []
    if not p.accept(')'):
        while True:
            if p.accept('...'):
                p.expect(')')
                break
            t = parse_type(p)
            at = parse_attrs(p)
            nm = None
            if p.peek()[0] == 'local':
                nm = p.next()[1]
            params.append((nm, t, at))
            if p.accept(')'):
                break
            p.expect(',')
    rest = [t[1] for t in p.t[p.i:]]
    return kind, rt, ra, name, params, rest


def parse_type_nofn(p):
    # return types of function definitions are never function types
    save = p.i
    k, v = p.peek()
    # guard: parse_type would swallow "(args)" of nothing since name token intervenes
    return parse_type(p)


def parse_module(text):
    m = Module()
    # globals that some function of the module writes to directly
    m.stored = set(re.findall(r'store [^\n]*, ptr (?:getelementptr inbounds \([^@\n]*)?@([-\w.$]+)', text))
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith('%') and ' = type ' in ln:
            nm, rest = ln.split(' = type ', 1)
            m.types[nm] = parse_type(P(tokenize(rest)))
        elif ln.startswith('@'):
            parse_global(m, ln)
        elif ln.startswith('declare'):
            kind, rt, ra, name, params, rest = parse_header(ln)
            m.decls[name] = (rt, ra, params)
        elif ln.startswith('define'):
            i = parse_function(m, lines, i)
        i += 1
    return m


def parse_global(m, ln):
    p = P(tokenize(ln))
    name = p.next()[1][1:].strip('"')
    p.expect('=')
    const = False
    ext = False
    while True:
        k, v = p.peek()
        if v in ('constant', 'global'):
            p.next(); const = v == 'constant'; break
        if v in ('alias', 'ifunc'):
            p.next(); p_t = parse_type(p); p.expect(',')
            t = parse_type(p)
            val = parse_value(p, t)
            m.aliases[name] = val
            return
        if v in ('external', 'extern_weak'):
            ext = True
        if v == 'thread_local':
            p.next()
            if p.peek()[1] == '(':
                while not p.accept(')'):
                    p.next()
            continue
        p.next()
    t = parse_type(p)
    init = None
    if not ext:
        try:
            init = parse_value(p, t)
        except (Unsupported, IndexError):
            init = None
    m.globals[name] = (t, init, const)


def parse_function(m, lines, i):
    kind, rt, ra, name, params, rest = parse_header(lines[i].rsplit('{', 1)[0])
    f = Function(name)
    f.ret = rt
    f.ret_attrs = ra
    # unnamed parameters are numbered
    cnt = 0
    ps = []
    for nm, t, at in params:
        if nm is None:
            nm = '%' + str(cnt)
        if re.fullmatch(r'%[0-9]+', nm):
            cnt = int(nm[1:]) + 1
        ps.append((nm, t, at))
    f.params = ps
    cur = None
    i += 1
    first = True
    while lines[i] != '}':
        ln = lines[i]
        st = ln.strip()
        if not st or st.startswith(';'):
            i += 1
            continue
        if not ln.startswith(' '):
            lab = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if lab:
                cur = Block(); cur.name = '%' + lab.group(1); cur.instrs = []; cur.phis = []
                f.blocks[cur.name] = cur; f.order.append(cur.name)
                if f.entry is None:
                    f.entry = cur.name
                i += 1
                continue
        if cur is None:
            cur = Block(); cur.name = '%' + str(cnt); cur.instrs = []; cur.phis = []
            f.blocks[cur.name] = cur; f.order.append(cur.name); f.entry = cur.name
        # join multi line instructions
        full = st
        if re.search(r'(^|= )(tail |musttail |notail )?invoke ', full) and ' unwind label' not in full:
            i += 1; full += ' ' + lines[i].strip()
        elif 'landingpad' in full:
            while lines[i + 1].strip().startswith(('cleanup', 'catch', 'filter')):
                i += 1; full += ' ' + lines[i].strip()
        elif re.match(r'switch ', full):
            while ']' not in lines[i]:
                i += 1; full += ' ' + lines[i].strip()
        try:
            ins = parse_instr(full)
        except (Unsupported, IndexError) as e:
            ins = Instr('unsupported', None, (str(e),), full)
        if ins.op == 'phi':
            cur.phis.append(ins)
        else:
            cur.instrs.append(ins)
        i += 1
    for b in f.blocks.values():
        t = b.instrs[-1]
        b.term = t
        if t.op == 'br':
            b.succ = [t.a[1]] + ([t.a[2]] if t.a[2] else [])
        elif t.op == 'switch':
            b.succ = [t.a[2]] + [c[1] for c in t.a[3]]
        elif t.op == 'invoke':
            b.succ = [t.a[3], t.a[4]]
        else:
            b.succ = []
    m.functions[name] = f
    return i


# --------------------------------------------------------------------------- CFG analysis
SMALL = re.compile(r'= icmp (?:eq|ne|ult|ule|slt|sle|ugt|uge|sgt|sge) i(?:32|64) (%[^ ,]+), (\d+)')


def small_bound(f, h, body):
    """does an exit test of the loop compare a counter with a small constant?"""
    defs = {}
    for x in body:
        b = f.blocks[x]
        for i in list(b.phis) + list(b.instrs):
            if i.dst:
                defs[i.dst] = i
    heads = {i.dst for i in f.blocks[h].phis}
    for x in body:
        b = f.blocks[x]
        if b.term.op != 'br' or b.term.a[0] is None or all(y in body for y in b.succ):
            continue
        work, seen = re.findall(r'%[-\w.$]+|%"[^"]*"', b.term.text.split(',')[0]), set()
        while work:
            v = work.pop()
            if v in seen or v not in defs:
                continue
            seen.add(v)
            i = defs[v]
            m = SMALL.search(i.text)
            if m and 2 <= int(m.group(2)) <= 64:
                c = m.group(1)
                if c in heads or (c in defs and defs[c].op == 'add' and any(w in heads for w in re.findall(r'%[-\w.$]+', defs[c].text.split('=', 1)[1]))):
                    return True
            if i.op in ('select', 'and', 'or', 'xor', 'freeze'):
                work.extend(re.findall(r'%[-\w.$]+', i.text.split('=', 1)[1]))
    return False


def analyse(f):
    if f.analysed:
        return
    f.analysed = True
    blocks = f.blocks
    # blocks that can reach a ret (normal completion)
    pred = {b: [] for b in blocks}
    for b in blocks.values():
        for s in b.succ:
            pred[s].append(b.name)
    f.pred = pred
    live = set()
    work = [b.name for b in blocks.values() if b.term.op == 'ret']
    # blocks reachable only through unwind edges count as exceptional even if they end in ret (catch)
    while work:
        x = work.pop()
        if x in live:
            continue
        live.add(x)
        work.extend(pred[x])
    f.can_return = live
    EXIT = '<exit>'
    succ = {}
    for b in blocks.values():
        ss = [s for s in b.succ if s in live]
        if b.term.op == 'ret':
            ss = [EXIT]
        if not ss:
            ss = [EXIT]
        succ[b.name] = ss
    # immediate post dominators by iterative data flow on reverse postorder of reverse graph
    order = []
    seen = set()

    def dfs(start):
        st = [(start, iter(rpred.get(start, ())))]
        seen.add(start)
        while st:
            n, it = st[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    st.append((x, iter(rpred.get(x, ()))))
                    break
            else:
                order.append(n)
                st.pop()
    rpred = {}
    for b, ss in succ.items():
        for s in ss:
            rpred.setdefault(s, []).append(b)
    dfs(EXIT)
    order.reverse()
    num = {n: k for k, n in enumerate(order)}
    ip = {EXIT: EXIT}
    changed = True
    while changed:
        changed = False
        for n in order[1:]:
            new = None
            for s in succ[n]:
                if s in ip:
                    if new is None:
                        new = s
                    else:
                        a, b = new, s
                        while a != b:
                            while num[a] > num[b]:
                                a = ip[a]
                            while num[b] > num[a]:
                                b = ip[b]
                        new = a
            if ip.get(n) != new:
                ip[n] = new
                changed = True
    f.ipdom = ip
    # dominators, back edges, natural loops
    order = []
    seen = {f.entry}
    st = [(f.entry, iter(blocks[f.entry].succ))]
    while st:
        n, it = st[-1]
        for x in it:
            if x not in seen:
                seen.add(x); st.append((x, iter(blocks[x].succ))); break
        else:
            order.append(n); st.pop()
    order.reverse()
    num = {n: k for k, n in enumerate(order)}
    idom = {f.entry: f.entry}
    changed = True
    while changed:
        changed = False
        for n in order[1:]:
            new = None
            for q in pred[n]:
                if q in idom:
                    if new is None:
                        new = q
                    else:
                        a, b = new, q
                        while a != b:
                            while num[a] > num[b]:
                                a = idom[a]
                            while num[b] > num[a]:
                                b = idom[b]
                        new = a
            if idom.get(n) != new:
                idom[n] = new; changed = True
    f.idom = idom

    def dominates(a, b):
        while True:
            if a == b:
                return True
            if idom[b] == b:
                return False
            b = idom[b]
    loops = {}
    for b in blocks.values():
        if b.name not in num:
            continue
        for s in b.succ:
            if dominates(s, b.name):
                body = loops.setdefault(s, {s})
                work = [b.name]
                while work:
                    x = work.pop()
                    if x in body:
                        continue
                    body.add(x)
                    work.extend(q for q in pred[x] if q in num)
    f.loops = loops
    f.small = {h for h, body in loops.items() if small_bound(f, h, body)}
