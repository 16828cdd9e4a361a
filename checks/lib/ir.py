"""A symbolic interpreter for the LLVM IR that rustc emits for the code under check."""
import math
import bisect, os, re, struct
from .bv import Dom, W, Unsupported


class Panic(Exception):
    pass


class Infeasible(Exception):
    pass


# ------------------------------------------------------------------------------ parsing
_name = r'(?:"(?:[^"\\]|\\.)*"|[-A-Za-z0-9$._]+)'
_loc = re.compile(r'%' + _name)
_glob = re.compile(r'@' + _name)


class Module:
    def __init__(self):
        self.funcs = {}       # mangled name -> (header, body lines, pretty)
        self.globals = {}     # name -> init text
        self.types = {}
        self.decoded = {}
        self.pretty = {}

    def load(self, path):
        lines = open(path).read().split('\n')
        i, comment = 0, None
        n = len(lines)
        tag = os.path.basename(path).split('-')[0]
        while i < n:
            l = lines[i]
            if l.startswith('; Function Attrs'):
                pass
            elif l.startswith('; '):
                comment = l[2:]
            elif l.startswith('define '):
                m = _glob.search(l)
                j = i + 1
                while lines[j] != '}':
                    j += 1
                name = m.group(0)[1:].strip('"')
                if name not in self.funcs or ' internal ' not in l[:30]:
                    self.funcs[name] = (l, lines[i + 1:j], comment)
                    self.pretty[name] = comment or name
                i = j
                comment = None
            elif l.startswith('@'):
                m = re.match(r'(@' + _name + r') = (.*)$', l)
                if m:
                    g = m.group(1)
                    if ' external ' not in ' ' + m.group(2)[:40]:
                        self.globals.setdefault((tag, g), m.group(2))
                        self.globals.setdefault(g, m.group(2))
            elif l.startswith('%'):
                m = re.match(r'(%' + _name + r') = type (.*)$', l)
                if m:
                    self.types[m.group(1)] = m.group(2)
            elif not l.strip():
                comment = None
            i += 1

    # -------------------------------------------------------------- types
    def ty(self, s):
        return parse_type(s.strip(), self)


class Ty:
    __slots__ = ('k', 'a', 'n', 'size', 'align', 'offs')

    def __init__(self, k, a=None, n=0):
        self.k, self.a, self.n = k, a, n
        self.offs = None
        if k == 'i':
            self.size = max(1, (n + 7) // 8)
            if self.size not in (1, 2, 4, 8, 16):
                self.size = 1 << (self.size - 1).bit_length()
            self.align = self.size
        elif k == 'ptr':
            self.size = self.align = 8
            self.n = 64
        elif k == 'arr':
            self.size, self.align = a.size * n, a.align
        elif k == 'st':
            off, al, offs = 0, 1, []
            for t in a:
                if not n:
                    off = -(-off // t.align) * t.align
                    al = max(al, t.align)
                offs.append(off)
                off += t.size
            self.size = -(-off // al) * al
            self.align, self.offs = al, offs
        else:
            self.size = self.align = 0


_tc = {}


def parse_type(s, mod):
    k = (s, id(mod))
    if k not in _tc:
        t, r = _pt(s, mod)
        if r.strip():
            raise Unsupported('type ' + s)
        _tc[k] = t
    return _tc[k]


def _pt(s, mod):
    s = s.lstrip()
    m = re.match(r'i(\d+)', s)
    if m:
        return Ty('i', n=int(m.group(1))), s[m.end():]
    if s.startswith('double'):          # only concrete values, kept as Python floats
        return Ty('i', n=64), s[6:]
    if s.startswith('ptr'):
        return Ty('ptr'), s[3:]
    if s.startswith('void'):
        return Ty('void'), s[4:]
    if s.startswith('['):
        m = re.match(r'\[(\d+) x ', s)
        t, r = _pt(s[m.end():], mod)
        r = r.lstrip()
        assert r[0] == ']', s
        return Ty('arr', t, int(m.group(1))), r[1:]
    packed = s.startswith('<{')
    if packed or s.startswith('{'):
        r = s[2 if packed else 1:].lstrip()
        ts = []
        while not r.startswith('}'):
            t, r = _pt(r, mod)
            ts.append(t)
            r = r.lstrip()
            if r.startswith(','):
                r = r[1:].lstrip()
        r = r[1:]
        if packed:
            r = r.lstrip()[1:]
        return Ty('st', ts, int(packed)), r
    m = re.match(r'%' + _name, s)
    if m:
        return _pt(mod.types[m.group(0)], mod)[0], s[m.end():]
    raise Unsupported('type ' + s[:60])


def split_args(s):
    out, d, cur, q = [], 0, '', False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in '([{<':
                d += 1
            elif ch in ')]}>':
                d -= 1
            elif ch == ',' and d == 0:
                out.append(cur.strip())
                cur = ''
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


_attr = re.compile(r'^(?:noundef|noalias|nonnull|nocapture|zeroext|signext|readonly|writeonly|returned|noreturn|immarg|captures\([^)]*\)|'
                   r'align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|range\([^)]*\)|sret\(.*?\](?: *\})*\)|'
                   r'sret\([^()]*\)|byval\([^()]*\)|inreg|nofree|dead_on_unwind|writable|initializes\(.*?\)\)|allocalign|allocptr|noext)\s*')


def strip_attrs(s):
    s = s.strip()
    while True:
        m = _attr.match(s)
        if not m or not m.group(0):
            return s
        s = s[m.end():].lstrip()


def parse_targ(s, mod):
    """'i64 noundef %x' -> (Ty, operand text)"""
    s = strip_attrs(s)
    t, r = _pt(s, mod)
    return t, strip_attrs(r)


def closing(s, i):
    """index of the parenthesis matching the one at s[i]"""
    d, q = 0, False
    for j in range(i, len(s)):
        ch = s[j]
        if ch == '"':
            q = not q
        elif not q:
            if ch == '(':
                d += 1
            elif ch == ')':
                d -= 1
                if d == 0:
                    return j
    raise Unsupported('parentheses: ' + s)


class Func:
    pass


_bin = ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem')


def decode_func(mod, name):
    head, body, pretty = mod.funcs[name]
    f = Func()
    f.name, f.pretty = name, pretty or name
    i = head.index('@')
    i = head.index('(', i + len(_glob.search(head).group(0)))
    j = closing(head, i)
    f.params = [split_last(a) for a in split_args(head[i + 1:j])]
    f.params = [(p.split()[-1]) for p in split_args(head[i + 1:j])]
    f.blocks, f.order = {}, []
    cur = None
    k = 0
    lines = []
    # join continuation lines
    for l in body:
        s = l.strip()
        if not s or s.startswith(';'):
            continue
        lines.append(l)
    while k < len(lines):
        l = lines[k]
        s = l.strip()
        m = re.match(r'^(' + _name + r'):', l)
        if m and not l.startswith(' '):
            cur = m.group(1)
            f.blocks[cur] = []
            f.order.append(cur)
            k += 1
            continue
        if cur is None:
            cur = 'start'
            f.blocks[cur] = []
            f.order.append(cur)
        if ' invoke ' in ' ' + s and ' to label' not in s:
            k += 1
            s += ' ' + lines[k].strip()
        if s.startswith('switch') or re.search(r'= switch', s):
            while not s.rstrip().endswith(']'):
                k += 1
                s += ' ' + lines[k].strip()
        if 'landingpad' in s:
            while k + 1 < len(lines) and re.match(r'\s+(cleanup|filter|catch)', lines[k + 1]):
                k += 1
        s = re.sub(r', !\w+ ![0-9]+', '', s)
        s = re.sub(r', !\w+ !\{[^}]*\}', '', s)
        f.blocks[cur].append(decode(s, mod))
        k += 1
    return f


def split_last(a):
    return a


def decode(s, mod):
    m = re.match(r'(%' + _name + r') = (.*)$', s)
    dst = None
    if m:
        dst, s = m.group(1), m.group(2)
    op = s.split(None, 1)[0]
    rest = s[len(op):].strip()
    if op == 'tail' or op == 'musttail' or op == 'notail':
        op = 'call'
        rest = rest.split(None, 1)[1]
    if op in _bin:
        rest = re.sub(r'^(?:(?:nuw|nsw|exact|disjoint) )+', '', rest)
        t, r = _pt(rest, mod)
        a, b = split_args(r)
        return (op, dst, t, a, b)
    if op == 'icmp':
        rest = re.sub(r'^samesign ', '', rest)
        pred, r = rest.split(None, 1)
        t, r = _pt(r, mod)
        a, b = split_args(r)
        return ('icmp', dst, pred, t, a, b)
    if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'uitofp'):
        rest = re.sub(r'^(?:(?:nuw|nsw|nneg) )+', '', rest)
        if op == 'freeze':
            t, r = _pt(rest, mod)
            return ('cast', dst, 'bitcast', t, r.strip(), t)
        a, b = rest.rsplit(' to ', 1)
        t, r = _pt(a, mod)
        return ('cast', dst, op, t, r.strip(), mod.ty(b))
    if op == 'alloca':
        t = mod.ty(split_args(rest)[0])
        return ('alloca', dst, t)
    if op == 'load':
        rest = re.sub(r'^(?:volatile|atomic) ', '', rest)
        a = split_args(rest)
        t = mod.ty(a[0])
        return ('load', dst, t, parse_targ(a[1], mod)[1])
    if op == 'store':
        rest = re.sub(r'^(?:volatile|atomic) ', '', rest)
        a = split_args(rest)
        t, v = parse_targ(a[0], mod)
        return ('store', None, t, v, parse_targ(a[1], mod)[1])
    if op == 'getelementptr':
        rest = re.sub(r'^(?:(?:inbounds|nuw|nusw) )+', '', rest)
        a = split_args(rest)
        t = mod.ty(a[0])
        return ('gep', dst, t, parse_targ(a[1], mod)[1], [parse_targ(x, mod) for x in a[2:]])
    if op == 'br':
        a = split_args(rest)
        if len(a) == 1:
            return ('br', None, a[0].split()[-1][1:])
        return ('cbr', None, a[0].split(None, 1)[1], a[1].split()[-1][1:], a[2].split()[-1][1:])
    if op == 'switch':
        i = rest.index('[')
        a = split_args(rest[:i])
        t, v = parse_targ(a[0], mod)
        cs = re.findall(r'i\d+ (-?\d+), label %(' + _name + ')', rest[i:])
        return ('switch', None, t, v, a[1].split()[-1][1:], [(int(x), y) for x, y in cs])
    if op == 'ret':
        if rest == 'void':
            return ('ret', None, None, None)
        t, v = parse_targ(rest, mod)
        return ('ret', None, t, v)
    if op in ('call', 'invoke'):
        inv = None
        if op == 'invoke':
            m = re.search(r' to label %(' + _name + r') unwind label %(' + _name + r')\s*$', rest)
            inv = m.group(1)
            rest = rest[:m.start()]
        # callee: last @name or %name before '(' at top level
        rest = re.sub(r'^(?:(?:fastcc|ccc|coldcc|preserve_mostcc|preserve_nonecc|nuw|nsw|range\([^)]*\)) )+', '', rest)
        rest = strip_attrs(rest)
        t, r = _pt(rest, mod)
        r = r.strip()
        m = re.match(r'(?:addrspace\(\d+\) )?([@%]' + _name + r')\(', r)
        if not m:
            if r.startswith('asm'):
                return ('asm', dst, t, r)
            raise Unsupported('call ' + r[:80])
        i = m.end() - 1
        j = closing(r, i)
        args = [parse_targ(x, mod) for x in split_args(r[i + 1:j])]
        return ('call', dst, t, m.group(1), args, inv)
    if op in ('extractvalue',):
        t, r = _pt(rest, mod)
        a = split_args(r)
        return ('extract', dst, t, a[0], [int(x) for x in a[1:]])
    if op == 'insertvalue':
        a = split_args(rest)
        t, v = parse_targ(a[0], mod)
        t2, v2 = parse_targ(a[1], mod)
        return ('insert', dst, t, v, t2, v2, [int(x) for x in a[2:]])
    if op == 'select':
        a = split_args(rest)
        c = parse_targ(a[0], mod)[1]
        t, x = parse_targ(a[1], mod)
        _, y = parse_targ(a[2], mod)
        return ('select', dst, c, t, x, y)
    if op == 'phi':
        t, r = _pt(rest, mod)
        prs = re.findall(r'\[ *(.*?), *%(' + _name + r') *\]', r)
        return ('phi', dst, t, prs)
    if op in ('unreachable', 'landingpad', 'resume', 'fence'):
        return (op, dst)
    return ('unknown', dst, s)


# ------------------------------------------------------------------------------ memory
OBJ = 1 << 32


class Memory:
    """objects: base -> {offset: (size, value)}; cells never overlap"""

    def __init__(self):
        self.objs = {}
        self.own = set()        # objects no other Memory shares
        self.next = 1

    def alloc(self, size):
        b = self.next * OBJ
        self.next += 1
        self.objs[b] = {}
        self.own.add(b)
        return b

    def copy(self):
        m = Memory()
        m.objs = dict(self.objs)
        m.next = self.next
        self.own = set()
        return m

    def writable(self, b):
        if b not in self.own:
            self.objs[b] = dict(self.objs[b])
            self.own.add(b)
        return self.objs[b]


class SymPtr:
    """one of several addresses: [(indicator word, address)], exactly one indicator holds"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Exec:
    loose = False
    """One execution (one path)."""

    def __init__(self, mod, dom, hooks=None, decisions=None, limit=5_000_000, merge=()):
        self.mod, self.dom = mod, dom
        self.hooks = dict(SUBTLE)
        self.hooks.update(hooks or {})  # pretty-name -> handler(exec, args, ret_type) -> value
        self.mem = Memory()
        self.gaddr = {}
        self.faddr = {}
        self.addrf = {}
        self.prefix = list(decisions or [])
        self.trace = []                # (key, value) of decisions taken
        self.steps, self.limit = 0, limit
        self.used = set()
        self.merge = merge
        self.depth = 0
        self.assumed = []
        self.tags = {}

    # ------------------------------------------------------------ decisions
    def decide(self, c, label=None):
        """A symbolic boolean becomes 0 or 1; forks the path."""
        if isinstance(c, int):
            return c & 1
        c = self.dom.subst(c)
        if self.assumed and isinstance(c, W):
            v = self.implied(c)
            if v is not None:
                return v
        while isinstance(c, W):
            if c.lo == c.hi:
                return c.lo
            i = min(i for m in c.p for i in m)
            if not self.dom.isbool(i):
                raise Unsupported('branch on a non-boolean expression')
            n = len(self.trace)
            v = self.prefix[n] if n < len(self.prefix) else 0
            self.trace.append((i, v))
            self.dom.assign[i] = v
            c = self.dom.subst(c)
        return c & 1

    # ------------------------------------------------------------ memory access
    def pointers(self, a, i, step):
        """address a + i * step for a word i over few bits"""
        d = self.dom
        atoms = sorted({x for m in i.p for x in m})
        if len(atoms) > 8 or not all(d.isbool(x) for x in atoms):
            raise Unsupported('symbolic index')
        alts = {}
        for n in range(1 << len(atoms)):
            env = {x: n >> j & 1 for j, x in enumerate(atoms)}
            ind = 1
            for x, v in env.items():
                b = d.mk({(x,): 1})
                ind = d.imul(ind, b if v else d.isub(1, b))
            if self.implied(ind) == 0:
                continue
            v = sum(c for m, c in i.p.items() if all(env[x] for x in m)) & ((1 << 64) - 1)
            if v >> 63:
                v -= 1 << 64
            k = (a + v * step) & ((1 << 64) - 1)
            alts[k] = d.iadd(alts[k], ind) if k in alts else ind
        return SymPtr([(w, k) for k, w in alts.items()])

    def implied(self, c):
        """the value that the conditions of the enclosing merged arms give the boolean c"""
        d = self.dom
        for a in self.assumed:
            p = d.subst(d.imul(a, c))
            if isinstance(p, int) and p == 0:
                return 0
            p = d.subst(d.isub(a, p))
            if isinstance(p, int) and p == 0:
                return 1
        return None

    def base(self, a):
        if not isinstance(a, int):
            raise Unsupported('symbolic address')
        b = a // OBJ * OBJ
        if b not in self.mem.objs:
            raise Unsupported(f'address {a:#x}')
        return self.mem.objs[b], a - b

    def wbase(self, a):
        self.base(a)
        b = a // OBJ * OBJ
        return self.mem.writable(b), a - b

    def store(self, a, size, v):
        if size == 0:
            return
        if isinstance(a, SymPtr):
            for c, k in a.alts:
                self.store(k, size, self.mergeval(c, v, self.load(k, size)))
            return
        o, off = self.wbase(a)
        self.clear(o, off, size)
        o[off] = (size, v)

    def clear(self, o, off, size):
        if off in o and o[off][0] == size:
            return
        for k in [k for k, (s, _) in o.items() if k < off + size and off < k + s]:
            s, v = o.pop(k)
            if k < off:
                o[k] = (off - k, self.part(v, s, 0, off - k))
            if k + s > off + size:
                o[off + size] = (k + s - off - size, self.part(v, s, off + size - k, k + s - off - size))

    def part(self, v, size, off, n):
        if v is UNDEF:
            return v
        if hasattr(v, 'part'):
            return v.part(self, off, n)
        d = self.dom
        x = d.lshr(v, 8 * off, 8 * size)
        return d.wrap(x, 8 * n)

    def load(self, a, size):
        if size == 0:
            return 0
        if isinstance(a, SymPtr):
            r = self.load(a.alts[0][1], size)
            for c, k in a.alts[1:]:
                r = self.mergeval(c, self.load(k, size), r)
            return r
        o, off = self.base(a)
        c = o.get(off)
        if c and c[0] == size:
            return c[1]
        # assemble
        got, pos = 0, off
        parts = []
        while pos < off + size:
            c = o.get(pos)
            if c:
                s, v = c
                k = pos
            else:
                for k, (s, v) in o.items():
                    if k < pos < k + s:
                        break
                else:
                    parts.append((pos - off, 1, UNDEF))
                    pos += 1
                    continue
            n = min(k + s, off + size) - pos
            parts.append((pos - off, n, v if (k == pos and n == s) else self.part(v, s, pos - k, n)))
            pos += n
        if any(v is UNDEF for _, _, v in parts):
            return UNDEF
        if any(not isinstance(v, (int, W)) for _, _, v in parts):
            raise Unsupported('mixed load of abstract data')
        d = self.dom
        r = 0
        for p, n, v in parts:
            r = d.iadd(r, d.imul(v, 1 << (8 * p)))
        if isinstance(r, W):
            r = d.simp(W(r.p, max(r.lo, 0), min(r.hi, (1 << 8 * size) - 1)))
        return r

    def memcpy(self, dst, src, n):
        if n == 0:
            return
        o, off = self.base(src)
        cells = []
        for k, (s, v) in o.items():
            if k < off + n and off < k + s:
                lo, hi = max(k, off), min(k + s, off + n)
                cells.append((lo - off, hi - lo, v if (lo, hi) == (k, k + s) else self.part(v, s, lo - k, hi - lo)))
        o2, off2 = self.wbase(dst)
        self.clear(o2, off2, n)
        o2.pop(off2, None)
        for p, s, v in cells:
            o2[off2 + p] = (s, v)

    def store_typed(self, a, t, v):
        if t.k in ('i', 'ptr'):
            self.store(a, t.size, v)
        elif t.k == 'arr':
            for i, x in enumerate(v):
                self.store_typed(a + i * t.a.size, t.a, x)
        elif t.k == 'st':
            for o, x, u in zip(t.offs, v, t.a):
                self.store_typed(a + o, u, x)

    def load_typed(self, a, t):
        if t.k in ('i', 'ptr'):
            v = self.load(a, t.size)
            return v
        if t.k == 'arr':
            return [self.load_typed(a + i * t.a.size, t.a) for i in range(t.n)]
        if t.k == 'st':
            return [self.load_typed(a + o, u) for o, u in zip(t.offs, t.a)]
        raise Unsupported('load of ' + t.k)

    # ------------------------------------------------------------ constants
    def global_addr(self, g):
        if g in self.gaddr:
            return self.gaddr[g]
        name = g[1:].strip('"')
        if name in self.mod.funcs or g not in self.mod.globals:
            a = self.mem.alloc(8)
            self.gaddr[g] = a
            self.addrf[a] = name
            return a
        text = self.mod.globals[g]
        m = re.search(r'\b(?:constant|global) ', text)
        t, r = _pt(text[m.end():], self.mod)
        a = self.mem.alloc(t.size)
        self.gaddr[g] = a
        init = split_args(r)[0]
        self.store_typed(a, t, self.const(init, t))
        return a

    def const(self, s, t):
        s = s.strip()
        if t.k == 'i':
            if s == 'true':
                return 1
            if s == 'false':
                return 0
            if re.match(r'-?\d+$', s):
                return int(s) & ((1 << t.n) - 1)
        if s in ('zeroinitializer', 'null'):
            return 0 if t.k in ('i', 'ptr') else [self.const('zeroinitializer', u) for u in ([t.a] * t.n if t.k == 'arr' else t.a)]
        if s in ('undef', 'poison'):
            return UNDEF if t.k in ('i', 'ptr') else [self.const('undef', u) for u in ([t.a] * t.n if t.k == 'arr' else t.a)]
        if s.startswith('c"'):
            raw = s[2:s.rindex('"')]
            out, i = [], 0
            while i < len(raw):
                if raw[i] == '\\':
                    if raw[i + 1] == '\\':
                        out.append(92)
                        i += 2
                    else:
                        out.append(int(raw[i + 1:i + 3], 16))
                        i += 3
                else:
                    out.append(ord(raw[i]))
                    i += 1
            return out
        if s.startswith('@'):
            return self.global_addr(s)
        if s.startswith('<{') or s.startswith('{') or s.startswith('['):
            inner = s[2:-2] if s.startswith('<{') else s[1:-1]
            out = []
            for x in split_args(inner):
                u, v = parse_targ(x, self.mod)
                out.append(self.const(v, u))
            return out
        m = re.match(r'getelementptr (?:(?:inbounds|nuw) )*\((.*)\)$', s)
        if m:
            a = split_args(m.group(1))
            et = self.mod.ty(a[0])
            pt, p = parse_targ(a[1], self.mod)
            idx = [(u, v) for u, v in (parse_targ(x, self.mod) for x in a[2:])]
            return self.gep(et, self.const(p, pt), [self.const(v, u) for u, v in idx])
        m = re.match(r'(inttoptr|ptrtoint) \((.*) to (.*)\)$', s)
        if m:
            u, v = parse_targ(m.group(2), self.mod)
            return self.const(v, u)
        raise Unsupported('constant ' + s[:80])

    def gep(self, t, base, idx):
        a = base
        for n, i in enumerate(idx):
            if n == 0:
                step = t.size
            elif t.k == 'arr':
                t = t.a
                step = t.size
            elif t.k == 'st':
                if not isinstance(i, int):
                    raise Unsupported('gep')
                a = a + t.offs[i]
                t = t.a[i]
                continue
            if not isinstance(i, int):
                i = self.dom.subst(i)
                if not isinstance(i, int):
                    if not self.merge or not isinstance(a, int):
                        raise Unsupported('symbolic index')
                    a = self.pointers(a, i, step)
                    continue
            if i == 0:
                continue
            if isinstance(a, SymPtr):
                a = SymPtr([(c, (k + i * step) & ((1 << 64) - 1)) for c, k in a.alts])
                continue
            if i >> 63:
                i -= 1 << 64
            a = a + i * step
        return a if isinstance(a, SymPtr) else a & ((1 << 64) - 1)

    # ------------------------------------------------------------ running
    def call(self, name, args):
        pretty = self.mod.pretty.get(name, name)
        h = self.hooks.get(pretty) or self.hooks.get(name)
        if h is None:
            for pat, fn in self.hooks.get('*', ()):
                if pat(pretty, name):
                    h = fn
                    break
        if h is not None:
            r = h(self, args, pretty)
            if r is not NotImplemented:
                return r
        if name not in self.mod.funcs:
            return self.extern(name, args)
        if name not in self.mod.decoded:
            self.mod.decoded[name] = decode_func(self.mod, name)
        f = self.mod.decoded[name]
        self.used.add(pretty)
        env = dict(zip(f.params, args))
        self.depth += 1
        if self.depth > 400:
            raise Unsupported('recursion too deep')
        try:
            kind, v = self.run(f, env, f.order[0], None)
        finally:
            self.depth -= 1
        for x in f.blocks[f.order[0]]:      # the frame is gone
            if x[0] == 'alloca' and x[1] in env:
                self.mem.objs.pop(env[x[1]], None)
        return v

    def val(self, env, s, t):
        if s[0] == '%':
            return env[s]
        return self.const(s, t)

    def run(self, f, env, blk, stop):
        """Run from blk until return (('ret', v)) or until reaching block stop (('stop', prev))."""
        prev = None
        d = self.dom
        while True:
            if blk == stop and prev is not None:
                return 'stop', prev
            ins = f.blocks[blk]
            # phis first, simultaneously
            i = 0
            if ins and ins[0][0] == 'phi':
                new = {}
                while ins[i][0] == 'phi':
                    _, dst, t, prs = ins[i]
                    for v, b in prs:
                        if b == prev:
                            new[dst] = self.val(env, v, t)
                            break
                    i += 1
                env.update(new)
            nxt = None
            while True:
                x = ins[i]
                i += 1
                self.steps += 1
                if self.steps > self.limit:
                    raise Unsupported('step limit')
                op = x[0]
                if op == 'load':
                    _, dst, t, p = x
                    env[dst] = self.load_typed(self.val(env, p, PTR), t)
                elif op == 'store':
                    _, _, t, v, p = x
                    self.store_typed(self.val(env, p, PTR), t, self.val(env, v, t))
                elif op == 'gep':
                    _, dst, t, p, idx = x
                    env[dst] = self.gep(t, self.val(env, p, PTR), [self.val(env, v, u) for u, v in idx])
                elif op == 'alloca':
                    env[x[1]] = self.mem.alloc(x[2].size)
                elif op in _bin:
                    _, dst, t, a, b = x
                    env[dst] = self.binop(op, self.val(env, a, t), self.val(env, b, t), t.n)
                elif op == 'icmp':
                    _, dst, pred, t, a, b = x
                    a, b = self.val(env, a, t), self.val(env, b, t)
                    self.need(a), self.need(b)
                    env[dst] = d.icmp(pred, a, b, t.n)
                elif op == 'cast':
                    _, dst, k, t, a, t2 = x
                    a = self.val(env, a, t)
                    if k == 'uitofp':
                        a = d.subst(a)
                        if not isinstance(a, int):
                            raise Unsupported('float of a symbolic word')
                        a = float(a)
                    if k == 'trunc':
                        self.need(a)
                        a = d.wrap(a, t2.n)
                    elif k == 'sext':
                        self.need(a)
                        a = d.wrap(d.signed(a, t.n), t2.n)
                    env[dst] = a
                elif op == 'extract':
                    _, dst, t, a, idx = x
                    v = self.val(env, a, t)
                    for k in idx:
                        v = v[k]
                    env[dst] = v
                elif op == 'insert':
                    _, dst, t, a, t2, b, idx = x
                    v = self.deep(self.val(env, a, t))
                    w = v
                    for k in idx[:-1]:
                        w = w[k]
                    w[idx[-1]] = self.val(env, b, t2)
                    env[dst] = v
                elif op == 'select':
                    _, dst, c, t, a, b = x
                    c = self.val(env, c, I1)
                    self.need(c)
                    c = d.subst(c)
                    a, b = self.val(env, a, t), self.val(env, b, t)
                    if isinstance(c, int):
                        env[dst] = a if c else b
                    elif t.k == 'i':
                        env[dst] = d.ite(c, a, b)
                    else:
                        env[dst] = a if self.decide(c) else b
                elif op == 'call':
                    _, dst, t, fn, args, inv = x
                    av = [self.val(env, v, u) if u.k != 'void' else None for u, v in args]
                    if fn[0] == '%':
                        a = env[fn]
                        if a not in self.addrf:
                            raise Unsupported('indirect call')
                        name = self.addrf[a]
                    else:
                        name = fn[1:].strip('"')
                    if name.startswith('llvm.'):
                        r = self.intrinsic(name, av, t)
                    else:
                        r = self.call(name, av)
                    if dst is not None:
                        env[dst] = r
                    if inv is not None:
                        nxt = inv
                        break
                elif op == 'br':
                    nxt = x[2]
                    break
                elif op == 'cbr':
                    c = self.val(env, x[2], I1)
                    self.need(c)
                    c = d.subst(c)
                    if not isinstance(c, int):
                        j = self.try_merge(f, env, blk, c, x[3], x[4])
                        if j is not None:
                            blk, nxt = j          # (predecessor, join)
                            break
                    nxt = x[3] if self.decide(c) else x[4]
                    break
                elif op == 'switch':
                    _, _, t, v, dflt, cs = x
                    v = d.subst(self.val(env, v, t))
                    self.need(v)
                    nxt = dflt
                    for k, lab in cs:
                        if self.decide(d.icmp('eq', v, k & ((1 << t.n) - 1), t.n)):
                            nxt = lab
                            break
                    break
                elif op == 'ret':
                    _, _, t, v = x
                    return 'ret', (None if t is None else self.val(env, v, t))
                elif op == 'unreachable':
                    raise Panic('unreachable')
                elif op == 'fence':
                    pass
                elif op == 'asm':
                    env[x[1]] = 0
                else:
                    raise Unsupported(f'{op} {x[1:]}')
            prev, blk = blk, nxt

    def need(self, v):
        if v is UNDEF:
            raise Unsupported('use of an undefined value')

    def deep(self, v):
        return [self.deep(x) for x in v] if isinstance(v, list) else v

    def binop(self, op, a, b, w):
        d = self.dom
        self.need(a), self.need(b)
        if not isinstance(a, (int, W)) or not isinstance(b, (int, W)):
            raise Unsupported('arithmetic on abstract data')
        if op == 'add':
            return d.add(a, b, w)
        if op == 'sub':
            return d.sub(a, b, w)
        if op == 'mul':
            return d.mul(a, b, w)
        if op == 'and':
            return d.and_(a, b, w)
        if op == 'or':
            return d.or_(a, b, w)
        if op == 'xor':
            return d.xor(a, b, w)
        if op == 'shl':
            return d.shl(a, d.subst(b), w)
        if op == 'lshr':
            return d.lshr(a, d.subst(b), w)
        if op == 'ashr':
            if not isinstance(b, int):
                raise Unsupported('ashr')
            return d.wrap(d.floor(d.signed(a, w), b), w)
        if op in ('udiv', 'urem') and isinstance(b, int) and b:
            if isinstance(a, int):
                return a // b if op == 'udiv' else a % b
            if b & (b - 1) == 0:
                k = b.bit_length() - 1
                q = d.floor(a, k)
                return q if op == 'udiv' else d.isub(a, d.imul(q, b))
            r = d.lift(lambda x: x // b if op == 'udiv' else x % b, a)
            if r is not None:
                return r
        raise Unsupported(f'{op} {a} {b}')

    # ------------------------------------------------------------ if-conversion
    nomerge = None      # branches whose arms could not be merged (they fork); shared by the runs

    def try_merge(self, f, env, blk, c, b1, b0):
        if self.nomerge is None:
            return self.do_merge(f, env, blk, c, b1, b0)
        if (f.pretty, blk) in self.nomerge:
            return None
        try:
            return self.do_merge(f, env, blk, c, b1, b0)
        except Restart:
            raise
        except (Unsupported, Panic, TypeError):
            self.nomerge.add((f.pretty, blk))
            raise Restart()

    def do_merge(self, f, env, blk, c, b1, b0):
        """Run both arms up to where they join and merge their effects (only for the functions
        the check asked for)."""
        if not any(m in f.pretty for m in self.merge):
            return None
        join = ipdom(f, blk)
        if join is None or join == 'EXIT':
            return None
        mem0, n = self.mem, len(self.trace)
        res = []
        for b in (b1, b0):
            self.mem = mem0.copy()
            if res:                      # keep what the first arm allocated (constants it touched)
                m1 = res[0][0]
                m1.own = set()
                self.mem.next = m1.next
                for k, v in m1.objs.items():
                    if k not in mem0.objs:
                        self.mem.objs[k] = v
            e = dict(env)
            if b == join:
                res.append((self.mem, e, blk))
                continue
            self.assumed.append(c if not res else self.dom.isub(1, c))
            try:
                k, v = self.run2(f, e, b, join, blk)
            finally:
                self.assumed.pop()
            if k != 'stop':
                raise Unsupported('arm leaves the function')
            res.append((self.mem, e, v))
        if len(self.trace) != n:
            raise Unsupported('decision inside a merged arm')
        (m1, e1, p1), (m0, e0, p0) = res
        out = m0.copy()
        out.next = max(m1.next, m0.next)
        self.fresh = (set(m1.objs) - set(mem0.objs), set(m0.objs) - set(m1.objs))
        self.pair, done = {}, set()
        for b in m1.objs:
            if b not in mem0.objs:
                continue
            x, y = m1.objs[b], m0.objs[b]
            if x is y or x == y:
                continue
            o = out.writable(b)
            for k in set(x) | set(y):
                u, w = x.get(k), y.get(k)
                if u is not None and w is not None and u[0] == w[0]:
                    if u[1] is w[1]:
                        continue
                    o[k] = (u[0], self.mergeval(c, u[1], w[1]))
                else:
                    o.pop(k, None)      # a cell that only one arm has: treat as undefined
        self.mem = out
        for k in set(e1) | set(e0):
            if k in e1 and k in e0:
                env[k] = e1[k] if e1[k] is e0[k] else self.mergeval(c, e1[k], e0[k])
        while set(self.pair) - done:
            oa = (set(self.pair) - done).pop()
            done.add(oa)
            ob = self.pair[oa]
            x, y = m1.objs[oa], m0.objs[ob]
            o = out.writable(ob)
            for k in set(x) | set(y):
                u, w = x.get(k), y.get(k)
                if u is not None and w is not None and u[0] == w[0]:
                    if u[1] is not w[1]:
                        o[k] = (u[0], self.mergeval(c, u[1], w[1]))
                else:
                    o.pop(k, None)
        ph = f.blocks[join][0][0] == 'phi' if f.blocks[join] else False
        if ph:
            raise Unsupported('phi at a merge')
        return (p1, join)

    def run2(self, f, env, b, join, pred):
        # run() ignores stop on its first block only when no block has been executed
        return self.run(f, env, b, join)

    def mergeval(self, c, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, list):
            return [self.mergeval(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, (int, W)) and isinstance(b, (int, W)):
            if isinstance(a, int) and isinstance(b, int):
                if a == b:
                    return a
                if self.nomerge is not None and a // OBJ * OBJ in self.mem.objs and b // OBJ * OBJ in self.mem.objs:
                    if self.loose:
                        oa, ob = a // OBJ * OBJ, b // OBJ * OBJ
                        if a - oa == b - ob and oa in self.fresh[0] and ob in self.fresh[1] and self.pair.get(oa, ob) == ob and \
                                all(v != ob or k == oa for k, v in self.pair.items()):
                            self.pair[oa] = ob      # both arms made such an object: one stands for both
                            return b
                        return UNDEF        # using it is refused
                    raise Unsupported('different addresses at a merge')
            return self.dom.ite(c, a, b)
        if hasattr(a, 'merge'):
            return a.merge(self, c, b)
        if a == b:
            return a
        raise Unsupported('merge')

    # ------------------------------------------------------------ intrinsics and externals
    def intrinsic(self, n, a, t):
        d = self.dom
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            k = a[2] if isinstance(a[2], int) else d.subst(a[2])
            if not isinstance(k, int):
                raise Unsupported('symbolic length')
            self.memcpy(a[0], a[1], k)
            return None
        if n.startswith('llvm.memset'):
            for i in range(a[2]):
                self.store(a[0] + i, 1, a[1])
            return None
        m = re.match(r'llvm\.([us])(add|sub|mul)\.with\.overflow\.i(\d+)', n)
        if m:
            w = int(m.group(3))
            op = {'add': d.iadd, 'sub': d.isub, 'mul': d.imul}[m.group(2)]
            x, y = a
            if m.group(1) == 's':
                x, y = d.signed(x, w), d.signed(y, w)
                r = op(x, y)
                if isinstance(r, int):
                    return [r & ((1 << w) - 1), int(not -(1 << w - 1) <= r < 1 << w - 1)]
                raise Unsupported(n)
            r = op(x, y)
            v = d.wrap(r, w)
            return [v, d.isub(1, d.eq0(d.isub(r, v)))]
        m = re.match(r'llvm\.(log|ceil|floor|sqrt|log2)\.f64', n)
        if m and isinstance(a[0], float):
            return float(getattr(math, m.group(1))(a[0]))
        if n.startswith('llvm.fptoui.sat.i64') and isinstance(a[0], float):
            return min(max(int(a[0]), 0), (1 << 64) - 1)
        m = re.match(r'llvm\.([us])(min|max)\.i(\d+)', n)
        if m and all(isinstance(x, int) for x in a):
            return (min if m.group(2) == 'min' else max)(a)
        m = re.match(r'llvm\.u(add|sub)\.sat\.i(\d+)', n)
        if m and all(isinstance(x, int) for x in a[:2]):
            r = a[0] + a[1] if m.group(1) == 'add' else a[0] - a[1]
            return max(0, min(r, (1 << int(m.group(2))) - 1))
        if n.startswith('llvm.is.constant'):
            return 0
        if n.startswith('llvm.expect'):
            return a[0]
        if n.startswith(('llvm.assume', 'llvm.lifetime', 'llvm.experimental.noalias')):
            return None
        m = re.match(r'llvm\.(ctlz|cttz|ctpop|bswap|fshl|fshr)\.i(\d+)', n)
        if m and all(isinstance(x, int) for x in a):
            w, x = int(m.group(2)), a[0]
            k = m.group(1)
            if k == 'ctlz':
                return w - x.bit_length()
            if k == 'cttz':
                return w if x == 0 else (x & -x).bit_length() - 1
            if k == 'ctpop':
                return bin(x).count('1')
            if k == 'bswap':
                return int.from_bytes(x.to_bytes(w // 8, 'little'), 'big')
            s = a[2] % w
            v = (a[0] << w | a[1])
            return (v << s >> w) & ((1 << w) - 1) if k == 'fshl' else (v >> s) & ((1 << w) - 1)
        if m and m.group(1)[:3] == 'fsh' and isinstance(a[2], int) and self.dom.linbool:
            w, s = int(m.group(2)), a[2] % int(m.group(2))
            x, y = self.dom.explode(a[0], w), self.dom.explode(a[1], w)     # hi, lo
            if x is not None and y is not None:
                z = y + x
                z = z[w - s:2 * w - s] if m.group(1) == 'fshl' else z[s:s + w]
                r = 0
                for i, b in enumerate(z):
                    r = self.dom.iadd(r, self.dom.imul(b, 1 << i))
                return r
        if n.startswith('llvm.trap'):
            raise Panic('trap')
        raise Unsupported('intrinsic ' + n)

    def extern(self, name, args):
        if 'panic' in name or 'unwrap_failed' in name or 'expect_failed' in name or '_fail' in name:
            raise Panic(name)
        if '__rust_alloc' in name or '__rustc' in name and 'alloc' in name:
            if 'dealloc' in name:
                return None
            if 'no_alloc_shim' in name:
                return None
            if 'realloc' in name:
                b = self.mem.alloc(args[3])
                self.memcpy(b, args[0], min(args[1], args[3]))
                return b
            b = self.mem.alloc(args[0])
            if 'zeroed' in name:
                for i in range(args[0]):
                    self.store(b + i, 1, 0)
            return b
        if 'copy_from_slice_impl' in name:
            if args[1] != args[3]:
                raise Panic('copy_from_slice: lengths differ')
            e = {'h': 1, 'a': 1, 't': 2, 'm': 4, 'y': 8, 'j': 8, 'o': 16}.get(name.split('copy_from_slice_impl')[1][:1])
            if e is None:
                raise Unsupported(name)
            self.memcpy(args[0], args[2], args[1] * e)
            return None
        if 'RawVecInner15try_allocate_in' in name:      # alloc's RawVec (compiled into std)
            cap, zeroed, size = args[1], args[2], args[4]
            b = self.mem.alloc(cap * size)
            if zeroed:
                for i in range(cap * size):
                    self.store(b + i, 1, 0)
            for i, v in enumerate((0, cap, b)):
                self.store(args[0] + 8 * i, 8, v)
            return None
        if 'RawVecInner14grow_amortized' in name or 'do_reserve_and_handle' in name:
            slf, n, add, _, size = args
            cap, ptr = self.load(slf, 8), self.load(slf + 8, 8)
            new = max(cap * 2, n + add, 4)
            b = self.mem.alloc(new * size)
            if cap:
                self.memcpy(b, ptr, cap * size)
            self.store(slf, 8, new)
            self.store(slf + 8, 8, b)
            return [(1 << 64) - 1, 0]
        if '3VechE7reserve' in name:        # Vec<u8>::reserve (compiled into std)
            slf, add = args
            cap, n = self.load(slf, 8), self.load(slf + 16, 8)
            if n + add > cap:
                new = max(cap * 2, n + add, 8)
                b = self.mem.alloc(new)
                if n:
                    self.memcpy(b, self.load(slf + 8, 8), n)
                self.store(slf, 8, new)
                self.store(slf + 8, 8, b)
            return None
        if 'ops4drop4Drop4drop' in name and ('3VechE' in name or 'RawVechE' in name):
            return None
        if 'RawVecInner10deallocate' in name:
            return None
        raise Unsupported('external ' + name)


PTR, I1 = Ty('ptr'), Ty('i', n=1)


# `subtle` on primitive words (an external crate): its documented meaning
def _ct_eq(n):
    def h(ex, args, pretty):
        return ex.dom.icmp('eq', ex.load(args[0], n), ex.load(args[1], n), 8 * n)
    return h


def _select(n):
    def h(ex, args, pretty):
        a, b = ex.load(args[0], n), ex.load(args[1], n)
        return ex.dom.ite(ex.dom.subst(args[2]), b, a)
    return h


SUBTLE = {}
for _t, _n in (('u8', 1), ('u16', 2), ('u32', 4), ('u64', 8), ('usize', 8), ('u128', 16)):
    SUBTLE[f'<{_t} as subtle::ConstantTimeEq>::ct_eq'] = _ct_eq(_n)
    SUBTLE[f'<{_t} as subtle::ConditionallySelectable>::conditional_select'] = _select(_n)


# ------------------------------------------------------------------------------ control flow
def succs(f, b):
    x = f.blocks[b][-1]
    if x[0] == 'br':
        return [x[2]]
    if x[0] == 'cbr':
        return [x[3], x[4]]
    if x[0] == 'switch':
        return [x[4]] + [l for _, l in x[5]]
    if x[0] == 'call' and x[5] is not None:
        return [x[5]]
    return []


def ipdom(f, b):
    if not hasattr(f, 'pd'):
        f.pd = {}
        nodes = list(f.blocks)
        dead = {n for n in nodes if f.blocks[n][-1][0] in ('unreachable', 'resume')}
        full = set(nodes) | {'EXIT'}
        pd = {n: set(full) for n in nodes}
        pd['EXIT'] = {'EXIT'}
        ch = True
        while ch:
            ch = False
            for n in reversed(nodes):
                ss = [s for s in succs(f, n) if s not in dead]
                if f.blocks[n][-1][0] == 'ret':
                    ss = ['EXIT']
                if not ss:
                    continue
                new = set.intersection(*[pd[s] for s in ss]) | {n}
                if new != pd[n]:
                    pd[n] = new
                    ch = True
        for n in nodes:
            cand = pd[n] - {n}
            # the closest: the one post-dominated by all the others
            f.pd[n] = next((c for c in cand if all(o in pd[c] for o in cand)), None)
    return f.pd[b]


class Restart(Exception):
    """a merged run has to start again (its branch is now one that forks)"""


def explore(make, run, max_paths=4000):
    """All paths: make(prefix) -> Exec; run(exec) -> result.  Yields (exec, result or Panic)."""
    stack = [[]]
    n = 0
    while stack:
        pre = stack.pop()
        ex = make(pre)
        n += 1
        if n > max_paths:
            raise Unsupported('too many paths')
        try:
            r = run(ex)
        except Panic as e:
            r = e
        vals = [v for _, v in ex.trace]
        for i in range(len(pre), len(vals)):
            stack.append(vals[:i] + [1 - vals[i]])
        yield ex, r
