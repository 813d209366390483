"""Symbolic interpreter for LLVM IR compiled from the repository's C sources.

clang -O0 + mem2reg on the current source, linked into one module; integers
are machine words (bit-vectors when symbolic), doubles are exact reals (or
Python floats in concrete worlds), pointers are checked (bounds, alignment,
initialisation, lifetime)."""
import hashlib
import math
import os
import re
import shutil
import subprocess
import tempfile
from fractions import Fraction

import z3

from . import core, mem
from .core import R, Cx, I, B
from .mem import RawMem, Ptr, MemFault, NULL
from . import world as _world

_CACHE = {}


class CExit(Exception):
    """exit()/abort() reached in C code."""


def build_ir(csrcs, flags=()):
    """Compile repo C files to one textual IR module."""
    key = (tuple(csrcs), tuple(flags), _world.REPO)
    if key in _CACHE:
        return _CACHE[key]
    d = tempfile.mkdtemp(prefix='symx_ir_')
    try:
        outs = []
        for k, c in enumerate(csrcs):
            p = os.path.join(_world.REPO, c)
            o = os.path.join(d, '%d.ll' % k)
            subprocess.run(['clang', '-O0', '-Xclang', '-disable-O0-optnone', '-ffp-contract=off',
                            '-fno-discard-value-names', '-w',
                            # warnings for gcc, which builds the extension
                            '-Wno-error=implicit-function-declaration', '-Wno-error=implicit-int',
                            '-Wno-error=int-conversion', '-Wno-error=incompatible-function-pointer-types',
                            '-S', '-emit-llvm',
                            '-I', os.path.dirname(p), *flags, '-o', o, p],
                           check=True, stderr=subprocess.PIPE)
            outs.append(o)
        l = os.path.join(d, 'l.ll')
        subprocess.run(['llvm-link', '-S', '-o', l, *outs], check=True, stderr=subprocess.PIPE)
        m = os.path.join(d, 'm.ll')
        subprocess.run(['opt', '-S', '-passes=mem2reg', '-o', m, l], check=True,
                       stderr=subprocess.PIPE)
        with open(m) as f:
            txt = f.read()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    _CACHE[key] = txt
    return txt


def build_so(csrcs, out, flags=()):
    subprocess.run(['gcc', '-O2', '-fPIC', '-shared', '-w', *flags, '-o', out] +
                   [os.path.join(_world.REPO, c) for c in csrcs] + ['-lm'], check=True,
                   stderr=subprocess.PIPE)


# -- types ------------------------------------------------------------------
class Ty:
    def __init__(self, k, bits=0, elem=None, n=0, fields=None):
        self.k, self.bits, self.elem, self.n, self.fields = k, bits, elem, n, fields
        self.size, self.align = self._lay()

    def _lay(self):
        if self.k == 'int':
            s = max(1, self.bits // 8)
            return s, s
        if self.k == 'float':
            return self.bits // 8, self.bits // 8
        if self.k == 'ptr':
            return 8, 8
        if self.k == 'arr':
            return self.elem.size * self.n, self.elem.align
        if self.k == 'struct':
            off, al, self.offs = 0, 1, []
            for f in self.fields:
                off = (off + f.align - 1) // f.align * f.align
                self.offs.append(off)
                off += f.size
                al = max(al, f.align)
            return (off + al - 1) // al * al, al
        return 0, 1


class Parser:
    def __init__(self, txt):
        self.structs = {}
        self.raw_structs = {}
        self.funcs = {}
        self.globals = {}
        self.parse(txt)

    def ty(self, s):
        t, rest = self.ty_prefix(s)
        if rest.strip():
            raise NotImplementedError('type ' + s)
        return t

    def ty_prefix(self, s):
        s = s.lstrip()
        m = re.match(r'i(\d+)\b', s)
        if m:
            return Ty('int', int(m.group(1))), s[m.end():]
        for nm, b in (('double', 64), ('float', 32)):
            if re.match(nm + r'\b', s):
                return Ty('float', b), s[len(nm):]
        if re.match(r'ptr\b', s):
            return Ty('ptr'), s[3:]
        if re.match(r'void\b', s):
            return Ty('void'), s[4:]
        m = re.match(r'\[(\d+) x ', s)
        if m:
            el, rest = self.ty_prefix(s[m.end():])
            rest = rest.lstrip()
            assert rest[0] == ']'
            return Ty('arr', elem=el, n=int(m.group(1))), rest[1:]
        if s.startswith('{'):
            fs, rest = [], s[1:]
            while True:
                rest = rest.lstrip()
                if rest.startswith('}'):
                    return Ty('struct', fields=fs), rest[1:]
                if rest.startswith(','):
                    rest = rest[1:]
                f, rest = self.ty_prefix(rest)
                fs.append(f)
        m = re.match(r'%[\w.]+', s)
        if m:
            nm = m.group(0)
            if nm not in self.structs:
                self.structs[nm] = self.ty(self.raw_structs[nm])
            return self.structs[nm], s[m.end():]
        raise NotImplementedError('type ' + s[:40])

    def parse(self, txt):
        lines = txt.splitlines()
        for ln in lines:
            m = re.match(r'(%[\w.]+) = type (.*)$', ln)
            if m:
                self.raw_structs[m.group(1)] = m.group(2)
        k = 0
        while k < len(lines):
            ln = lines[k]
            m = re.match(r'@([\w.]+) = (.*)$', ln)
            if m:
                self._global(m.group(1), m.group(2))
            elif ln.startswith('define'):
                m = re.search(r'@([\w.]+)\(', ln)
                name = m.group(1)
                args = re.findall(r'%([\w.]+)(?=\s*[,)])', ln[m.end() - 1:])
                blocks, cur, first = {}, None, None
                k += 1
                while lines[k] != '}':
                    s = lines[k]
                    mb = re.match(r'^([\w.$-]+):', s)
                    if mb:
                        cur = mb.group(1)
                        blocks[cur] = []
                        first = first or cur
                    elif s.strip() and not s.strip().startswith(';'):
                        if cur is None:
                            cur = first = '0'
                            blocks[cur] = []
                        x = s.strip()
                        if x.startswith('switch') and not x.endswith(']'):
                            while not lines[k].strip().endswith(']'):
                                k += 1
                                x += ' ' + lines[k].strip()
                        x = re.sub(r', ![\w.]+ !\d+', '', x)
                        x = re.sub(r'\s*;.*$', '', x) if '"' not in x else x
                        blocks[cur].append(x)
                    k += 1
                self.funcs[name] = (args, blocks, first)
            k += 1

    def _global(self, name, rest):
        m = re.match(r'(.*?)\b(global|constant)\s+(.*)$', rest)
        if not m:
            return
        t, init = self.ty_prefix(m.group(3))
        init = re.sub(r', align \d+.*$', '', init.strip())
        self.globals[name] = (t, init, 'external' in m.group(1))


_ATTR = re.compile(r'\b(noundef|nonnull|signext|zeroext|noalias|nocapture|readonly|writeonly|'
                   r'returned|immarg|inreg|dso_local|fastcc|tail|musttail|notail|nuw|nsw|exact|'
                   r'inbounds|fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|volatile|disjoint|nneg|'
                   r'allocsize\([^)]*\)|align \d+|dereferenceable\(\d+\)|'
                   r'dereferenceable_or_null\(\d+\))\s*')


class Machine:
    """One run-time instance of a linked module."""

    def __init__(self, world, parser):
        self.w = world
        self.p = parser
        self.gl = {}
        self.freed = set()
        self.live = []
        self.steps = 0
        self.max_steps = 2000000
        self.natives = {}
        self.prods = {}             # factors of computed products
        self.quots = {}
        self.fresh_div = False      # name quotients instead of expanding them
        self.cut = {}          # loop cut points: callbacks per function name
        for name, (t, init, ext) in parser.globals.items():
            g = RawMem(t.size, '@' + name)
            self.gl[name] = g
            if not ext:
                self._init(g, 0, t, init)
        self.code = parser.__dict__.setdefault('_code', {})

    def _init(self, g, off, t, init):
        init = init.strip()
        if init in ('zeroinitializer', 'null', 'undef'):
            self._zero(g, off, t)
        elif t.k == 'int':
            g.store(off, int(init) & ((1 << t.bits) - 1), t.size)
        elif t.k == 'float':
            g.store(off, self.flt(init), t.size)
        elif t.k == 'ptr' and init.startswith('@'):
            g.store(off, ('g', init[1:]), 8)
        elif t.k == 'arr' and init.startswith('['):
            parts = _split(init[1:-1])
            for k, s in enumerate(parts):
                et, rest = self.p.ty_prefix(s)
                self._init(g, off + k * t.elem.size, t.elem, rest)
        elif init.startswith('c"'):
            pass
        else:
            raise NotImplementedError('initialiser ' + init[:60])

    def _zero(self, g, off, t):
        if t.k == 'arr':
            for k in range(t.n):
                self._zero(g, off + k * t.elem.size, t.elem)
        elif t.k == 'struct':
            for o, f in zip(t.offs, t.fields):
                self._zero(g, off + o, f)
        elif t.k == 'ptr':
            g.store(off, NULL, 8)
        elif t.k == 'float':
            g.store(off, self.real(0), t.size)
        else:
            g.store(off, 0, t.size)

    # -- values --------------------------------------------------------------
    def real(self, x):
        return R(core.frac(x)) if self.w.symbolic else float(x)

    def flt(self, s):
        if s.startswith('0x'):
            import struct
            v = struct.unpack('>d', bytes.fromhex(s[2:].rjust(16, '0')))[0]
        else:
            v = float(s)
        if math.isinf(v) or math.isnan(v):
            return v
        return self.real(v)

    def val(self, t, s, env):
        s = s.strip()
        if s[0] == '%':
            return env[s[1:]]
        if s[0] == '@':
            n = s[1:]
            if n in self.gl:
                return Ptr(self.gl[n], 0)
            return ('f', n)
        if s in ('undef', 'poison'):
            return ('undef',)
        if s == 'null':
            return NULL
        if s == 'true':
            return 1
        if s == 'false':
            return 0
        if t.k == 'float':
            return self.flt(s)
        if t.k == 'int':
            return int(s) & ((1 << t.bits) - 1)
        if s == 'zeroinitializer':
            return [0] * t.n
        raise NotImplementedError('value ' + s)

    def call(self, name, *args):
        if name in self.natives:
            return self.natives[name](*args)
        if name not in self.p.funcs:
            return self.libc(name, args)
        params, blocks, first = self.p.funcs[name]
        env = {}
        for a, v in zip(params, args):
            env[a] = self.enter(v)
        frame = []
        try:
            return self.run(name, blocks, first, env, frame)
        finally:
            for m in frame:
                self.freed.add(id(m))

    def enter(self, v):
        """Values coming from Python callers."""
        if isinstance(v, (bool,)):
            return int(v)
        if isinstance(v, int) and v < 0:
            return v & 0xffffffff
        if isinstance(v, I):
            return z3.Extract(31, 0, v.t)
        return v

    def code_of(self, s):
        c = self.code.get(s)
        if c is None:
            c = self.code[s] = self.decode(s)
        return c

    def run(self, fn, blocks, cur, env, frame):
        prev = None
        while True:
            phis = []
            body = blocks[cur]
            nxt = None
            for s in body:
                self.steps += 1
                if self.steps > self.max_steps:
                    core.ctx().unsupported('C step budget') if core.active() else _raise(
                        RuntimeError('C step budget'))
                op = self.code_of(s)
                if op[0] == 'phi':
                    phis.append((op[1], self.val(op[2], op[3][prev], env)))
                    continue
                if phis:
                    for d, v in phis:
                        env[d] = v
                    phis = []
                r = self.step(op, env, frame)
                if r is not None:
                    if r[0] == 'ret':
                        return r[1]
                    nxt = r[1]
                    break
            hook = self.cut.get((fn, nxt))
            if hook:
                hook(env)
            prev, cur = cur, nxt

    # -- decoding -------------------------------------------------------------
    def decode(self, s):
        s0 = s
        dest = None
        m = re.match(r'%([\w.]+) = (.*)$', s)
        if m:
            dest, s = m.group(1), m.group(2)
        s = re.sub(r'\s+#\d+$', '', s)
        op = s.split(' ', 1)[0]
        rest = s[len(op):].strip()
        if op in ('tail', 'musttail', 'notail'):
            op = 'call'
            rest = rest[len('call'):].strip() if rest.startswith('call') else rest
        if op == 'phi':
            t, r = self.p.ty_prefix(rest)
            inc = {}
            for v, b in re.findall(r'\[ ([^,]+), %([\w.$-]+) \]', r):
                inc[b] = v
            return ('phi', dest, t, inc)
        if op != 'call':
            rest = _ATTR.sub('', rest)
        if op == 'br':
            if rest.startswith('label'):
                return ('br', rest.split('%')[1].strip())
            m = re.match(r'i1 ([^,]+), label %([\w.$-]+), label %([\w.$-]+)', rest)
            return ('cbr', m.group(1), m.group(2), m.group(3))
        if op == 'ret':
            if rest == 'void':
                return ('ret', None, None)
            t, r = self.p.ty_prefix(rest)
            return ('ret', t, r.strip())
        if op == 'switch':
            m = re.match(r'i(\d+) ([^,]+), label %([\w.$-]+) \[(.*)\]', rest)
            cases = re.findall(r'i\d+ (-?\d+), label %([\w.$-]+)', m.group(4))
            return ('switch', Ty('int', int(m.group(1))), m.group(2), m.group(3), cases)
        if op == 'unreachable':
            return ('unreachable',)
        if op == 'alloca':
            t, r = self.p.ty_prefix(rest)
            m = re.match(r',\s*i\d+ ([^,]+)', r)
            return ('alloca', dest, t, m.group(1) if m else '1')
        if op == 'load':
            t, r = self.p.ty_prefix(rest)
            m = re.match(r',\s*ptr ([^,]+)', r)
            return ('load', dest, t, m.group(1))
        if op == 'store':
            t, r = self.p.ty_prefix(rest)
            m = re.match(r'\s*(.*?),\s*ptr ([^,]+)', r)
            return ('store', t, m.group(1), m.group(2).strip())
        if op == 'getelementptr':
            t, r = self.p.ty_prefix(rest)
            parts = _split(r.lstrip(', '))
            base = parts[0].split(None, 1)[1]
            idx = []
            for p in parts[1:]:
                it, v = self.p.ty_prefix(p)
                idx.append((it, v.strip()))
            return ('gep', dest, t, base, idx)
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl',
                  'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            t, r = self.p.ty_prefix(rest)
            a, b = _split(r)
            return ('bin', dest, op, t, a.strip(), b.strip())
        if op == 'fneg':
            t, r = self.p.ty_prefix(rest)
            return ('fneg', dest, t, r.strip())
        if op in ('icmp', 'fcmp'):
            pred, r = rest.split(' ', 1)
            t, r = self.p.ty_prefix(r)
            a, b = _split(r)
            return (op, dest, pred, t, a.strip(), b.strip())
        if op in ('sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc',
                  'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
            t, r = self.p.ty_prefix(rest)
            m = re.match(r'\s*(.*?)( to (.*))?$', r)
            return ('cast', dest, op, t, m.group(1).strip(),
                    self.p.ty(m.group(3)) if m.group(3) else t)
        if op == 'select':
            m = _split(rest)
            c = m[0].split(None, 1)[1]
            t, a = self.p.ty_prefix(m[1])
            t2, b = self.p.ty_prefix(m[2])
            return ('select', dest, c, t, a.strip(), b.strip())
        if op == 'extractvalue':
            t, r = self.p.ty_prefix(rest)
            m = re.match(r'\s*([^,]+), (\d+)', r)
            return ('extract', dest, m.group(1), int(m.group(2)))
        if op == 'insertvalue':
            t, r = self.p.ty_prefix(rest)
            parts = _split(r)
            et, ev = self.p.ty_prefix(parts[1])
            return ('insert', dest, t, parts[0].strip(), et, ev.strip(), int(parts[2]))
        if op == 'call':
            r = _ATTR.sub('', rest)
            i = _callee(r)
            t, r2 = self.p.ty_prefix(r)
            r2 = r2.strip()
            if r2.startswith('('):      # function type, e.g. (ptr, ...)
                d = _close(r2, 0)
                r2 = r2[d + 1:].strip()
            m = re.match(r'([@%][\w.]+)\(', r2)
            d = _close(r2, m.end() - 1)
            args = []
            for a in _split(r2[m.end():d]):
                if not a.strip():
                    continue
                at, v = self.p.ty_prefix(a)
                args.append((at, v.strip()))
            return ('call', dest, t, m.group(1), args)
        raise NotImplementedError('IR: ' + s0)

    # -- execution --------------------------------------------------------------
    def step(self, op, env, frame):
        k = op[0]
        if k == 'load':
            p = self.val(None, op[3], env)
            env[op[1]] = self.load(p, op[2])
        elif k == 'store':
            self.store(self.val(None, op[3], env), self.val(op[1], op[2], env), op[1])
        elif k == 'gep':
            env[op[1]] = self.gep(op[2], self.val(None, op[3], env),
                                  [(t, self.val(t, v, env)) for t, v in op[4]])
        elif k == 'bin':
            a, b = self.val(op[3], op[4], env), self.val(op[3], op[5], env)
            env[op[1]] = self.fbin(op[2], a, b) if op[3].k == 'float' else \
                self.ibin(op[2], op[3].bits, a, b)
        elif k == 'icmp':
            env[op[1]] = self.icmp(op[2], op[3], self.val(op[3], op[4], env),
                                   self.val(op[3], op[5], env))
        elif k == 'fcmp':
            env[op[1]] = self.fcmp(op[2], self.val(op[3], op[4], env), self.val(op[3], op[5], env))
        elif k == 'br':
            return ('br', op[1])
        elif k == 'cbr':
            return ('br', op[2] if self.truth(self.val(Ty('int', 1), op[1], env)) else op[3])
        elif k == 'ret':
            return ('ret', None if op[1] is None else self.val(op[1], op[2], env))
        elif k == 'cast':
            env[op[1]] = self.cast(op[2], op[3], self.val(op[3], op[4], env), op[5])
        elif k == 'call':
            callee = self.val(None, op[3], env)
            if callee[0] != 'f':
                raise MemFault('call through a non-function pointer')
            v = self.call(callee[1], *[self.val(t, a, env) for t, a in op[4]])
            if op[1]:
                env[op[1]] = v
        elif k == 'alloca':
            n = int(op[3]) if not op[3].startswith('%') else env[op[3][1:]]
            m = RawMem(op[2].size * n, 'stack')
            frame.append(m)
            self.live.append(m)
            env[op[1]] = Ptr(m, 0)
        elif k == 'fneg':
            env[op[1]] = -self.num(self.val(op[2], op[3], env))
        elif k == 'select':
            c = self.val(Ty('int', 1), op[2], env)
            a, b = self.val(op[3], op[4], env), self.val(op[3], op[5], env)
            if z3.is_expr(c) and op[3].k == 'float':
                env[op[1]] = core.ite(B(c), a, b)
            else:
                env[op[1]] = a if self.truth(c) else b
        elif k == 'extract':
            env[op[1]] = self.val(None, op[2], env)[op[3]]
        elif k == 'insert':
            v = self.val(op[2], op[3], env)
            v = [None] * (len(op[2].fields) if op[2].k == 'struct' else op[2].n) \
                if isinstance(v, tuple) else list(v)
            v[op[6]] = self.val(op[4], op[5], env)
            env[op[1]] = v
        elif k == 'switch':
            v = self.val(op[1], op[2], env)
            for c, lab in op[4]:
                if self.truth(self.icmp('eq', op[1], v, int(c) & ((1 << op[1].bits) - 1))):
                    return ('br', lab)
            return ('br', op[3])
        elif k == 'unreachable':
            raise CExit('unreachable')
        else:
            raise NotImplementedError(k)

    def num(self, v):
        if isinstance(v, tuple) and v and v[0] == 'undef':
            raise MemFault('use of an uninitialised value')
        return v

    def truth(self, c):
        c = self.num(c)
        if isinstance(c, B):
            return bool(c)
        if z3.is_bool(c):
            return core.ctx().branch(c)
        if z3.is_bv(c):
            return core.ctx().branch(c != 0)
        return bool(c)

    def chk(self, p):
        if not isinstance(p, Ptr):
            raise MemFault('dereference of a non-pointer value')
        if p.mem is None:
            raise MemFault('null pointer dereference')
        if id(p.mem) in self.freed:
            raise MemFault('use after free of %s' % getattr(p.mem, 'name', 'memory'))

    def load(self, p, t):
        self.chk(p)
        if t.k == 'struct':
            return [self.load(Ptr(p.mem, p.off + o), f) for o, f in zip(t.offs, t.fields)]
        if isinstance(p.mem, mem.ArrMem) and t.k == 'float' and p.mem.itemsize == 16:
            cell = p.mem.load_cell(p.off // 16)
            return cell.real if p.off % 16 == 0 else cell.imag
        v = p.mem.load(p.off, t.size)
        if isinstance(v, tuple) and v and v[0] == 'g':
            n = v[1]
            return Ptr(self.gl[n], 0) if n in self.gl else ('f', n)
        if t.k == 'int':
            if isinstance(v, I):
                return z3.simplify(z3.Extract(t.bits - 1, 0, v.t))
            if z3.is_expr(v):
                return v
            return int(v) & ((1 << t.bits) - 1)
        if t.k == 'float' and self.w.symbolic and not isinstance(v, (R, float)):
            return core.as_r(v)
        return v

    def store(self, p, v, t):
        self.chk(p)
        if t.k == 'struct':
            for o, f, x in zip(t.offs, t.fields, v):
                self.store(Ptr(p.mem, p.off + o), x, f)
            return
        v = self.num(v)
        if isinstance(p.mem, mem.ArrMem) and t.k == 'float' and p.mem.itemsize == 16:
            c = p.mem.load_cell(p.off // 16)
            if self.w.symbolic:
                c = core.as_c(c)
                p.mem.store_cell(p.off // 16, Cx(v, c.im) if p.off % 16 == 0 else Cx(c.re, v))
            else:
                p.mem.store_cell(p.off // 16, complex(v, c.imag) if p.off % 16 == 0
                                 else complex(c.real, v))
            return
        p.mem.store(p.off, v, t.size)

    def gep(self, t, base, idx):
        if not isinstance(base, Ptr):
            raise MemFault('pointer arithmetic on a non-pointer')
        off = base.off
        first = True
        for it, v in idx:
            v = self.num(v)
            sv = _signed(v, it.bits)
            if first:
                off = off + sv * t.size
                first = False
            elif t.k == 'arr':
                off = off + sv * t.elem.size
                t = t.elem
            elif t.k == 'struct':
                off = off + t.offs[sv]
                t = t.fields[sv]
        if isinstance(off, I):
            s = z3.simplify(off.t)
            if z3.is_bv_value(s):
                off = s.as_signed_long()
        return Ptr(base.mem, off)

    def ibin(self, op, bits, a, b):
        a, b = self.num(a), self.num(b)
        if bits == 1 and (z3.is_bool(a) or z3.is_bool(b) or isinstance(a, B) or isinstance(b, B)):
            a, b = _zb(a), _zb(b)
            return {'and': z3.And(a, b), 'or': z3.Or(a, b), 'xor': z3.Xor(a, b)}[op]
        if z3.is_expr(a) or z3.is_expr(b):
            if not z3.is_expr(a):
                a = z3.BitVecVal(a, bits)
            if not z3.is_expr(b):
                b = z3.BitVecVal(b, bits)
            r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b,
                 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b,
                 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b,
                 'sdiv': lambda: a / b, 'udiv': lambda: z3.UDiv(a, b),
                 'srem': lambda: z3.SRem(a, b), 'urem': lambda: z3.URem(a, b)}[op]()
            return z3.simplify(r)
        m = (1 << bits) - 1
        sa, sb = _sg(a, bits), _sg(b, bits)
        if op in ('sdiv', 'udiv', 'srem', 'urem') and b == 0:
            raise MemFault('integer division by zero')
        if op == 'sdiv':
            q = abs(sa) // abs(sb)
            return (q if (sa < 0) == (sb < 0) else -q) & m
        if op == 'srem':
            r = abs(sa) % abs(sb)
            return (r if sa >= 0 else -r) & m
        return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b,
                'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b,
                'shl': lambda: a << b, 'lshr': lambda: a >> b, 'ashr': lambda: sa >> b,
                'udiv': lambda: a // b, 'urem': lambda: a % b}[op]() & m

    def fbin(self, op, a, b):
        a, b = self.num(a), self.num(b)
        if op == 'fadd':
            return a + b
        if op == 'fsub':
            return a - b
        if op == 'fmul':
            r = a * b
            if isinstance(r, R) and not r.is_const:
                self.prods[(r.t.get_id(),)] = (a, b, r)
            return r
        if op == 'fdiv':
            if self.fresh_div and self.w.symbolic and isinstance(b, R) and not b.is_const:
                a = core.as_r(a)
                c = core.ctx()
                c.add(b.t != 0)
                key = (a.t.get_id(), b.t.get_id())
                if key in self.quots:
                    return self.quots[key][0]
                q = R(z3.Real(c.fresh('quot')))
                self.quots[key] = (q, a, b)
                if self.fresh_div != 'free':
                    c.add((q * b - a).t == 0)
                return q
            if not self.w.symbolic and b == 0:
                return math.nan if a == 0 else math.copysign(math.inf, a)
            return a / b
        raise NotImplementedError(op)

    def icmp(self, pred, t, a, b):
        a, b = self.num(a), self.num(b)
        if t.k == 'ptr':
            same = a is b or (isinstance(a, Ptr) and isinstance(b, Ptr) and a.mem is b.mem
                              and a.off == b.off) or (not isinstance(a, Ptr) and a == b)
            if pred in ('eq', 'ne'):
                return int(bool(same) == (pred == 'eq'))
            if a.mem is not b.mem:
                raise MemFault('ordering of unrelated pointers')
            a, b, bits = a.off, b.off, 64
        else:
            bits = t.bits
        if z3.is_expr(a) or z3.is_expr(b):
            if bits == 1:
                a, b = _zb(a), _zb(b)
                return a == b if pred == 'eq' else a != b
            if not z3.is_expr(a):
                a = z3.BitVecVal(a, bits)
            if not z3.is_expr(b):
                b = z3.BitVecVal(b, bits)
            return z3.simplify({'eq': lambda: a == b, 'ne': lambda: a != b, 'slt': lambda: a < b,
                                'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b,
                                'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
                                'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b)}[pred]())
        if pred[0] == 's':
            a, b = _sg(a, bits), _sg(b, bits)
        return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b,
                    'ge': a >= b}[pred[-2:]])

    def fcmp(self, pred, a, b):
        a, b = self.num(a), self.num(b)
        p = pred[1:] if pred[0] in 'ou' and len(pred) == 3 else pred
        if pred == 'ord':
            return 1
        if pred == 'uno':
            return 0
        if isinstance(a, R) and p not in ('eq', 'ne') and isinstance(core.as_r(b), R) \
                and core.as_r(b).is_const and core.as_r(b).n == 0:
            hit = self.prods.get((a.t.get_id(),))
            if hit:
                # sign of a product from the signs of its factors
                x, y = hit[0], hit[1]
                bt = core.bterm
                pos = z3.Or(z3.And(bt(x > 0), bt(y > 0)), z3.And(bt(x < 0), bt(y < 0)))
                neg = z3.Or(z3.And(bt(x > 0), bt(y < 0)), z3.And(bt(x < 0), bt(y > 0)))
                return z3.simplify({'gt': pos, 'lt': neg, 'ge': z3.Not(neg), 'le': z3.Not(pos)}[p])
        r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b,
             'gt': lambda: a > b, 'ge': lambda: a >= b}[p]()
        if isinstance(r, B):
            return z3.simplify(r.t)
        return int(bool(r))

    def cast(self, op, t, v, to):
        v = self.num(v)
        if op in ('bitcast', 'freeze', 'fpext', 'fptrunc'):
            return v
        if op in ('sext', 'zext', 'trunc'):
            if z3.is_bool(v) or isinstance(v, B):
                v = _zb(v)
                return z3.If(v, z3.BitVecVal(1 if op == 'zext' else -1, to.bits),
                             z3.BitVecVal(0, to.bits))
            if z3.is_expr(v):
                d = to.bits - t.bits
                if op == 'sext':
                    return z3.simplify(z3.SignExt(d, v))
                if op == 'zext':
                    return z3.simplify(z3.ZeroExt(d, v))
                if to.bits == 1:
                    return z3.simplify(z3.Extract(0, 0, v) == 1)
                return z3.simplify(z3.Extract(to.bits - 1, 0, v))
            if op == 'sext':
                return _sg(v, t.bits) & ((1 << to.bits) - 1)
            return v & ((1 << to.bits) - 1)
        if op in ('sitofp', 'uitofp'):
            if z3.is_expr(v):
                return R(z3.ToReal(z3.BV2Int(v, op == 'sitofp')))
            return self.real(_sg(v, t.bits) if op == 'sitofp' else v)
        if op in ('fptosi', 'fptoui'):
            if isinstance(v, R):
                if v.is_const:
                    return int(v.n) & ((1 << to.bits) - 1)
                core.ctx().unsupported('fptosi')
            return int(v) & ((1 << to.bits) - 1)
        raise NotImplementedError(op)

    # -- library -----------------------------------------------------------------
    def libc(self, name, a):
        sym = self.w.symbolic
        if name in ('fabs', 'llvm.fabs.f64'):
            return abs(self.num(a[0]))
        if name == 'llvm.fmuladd.f64':
            return a[0] * a[1] + a[2]
        if name == 'sqrt':
            return a[0].sqrt() if isinstance(a[0], R) else math.sqrt(a[0])
        if name in ('exp', 'log'):
            return getattr(a[0], name)() if isinstance(a[0], R) else getattr(math, name)(a[0])
        if name == 'pow':
            return a[0] ** a[1]
        if name in ('fmax', 'llvm.maxnum.f64'):
            r = a[0] > a[1]
            return core.ite(r, a[0], a[1]) if sym else max(a[0], a[1])
        if name in ('fmin', 'llvm.minnum.f64'):
            r = a[0] < a[1]
            return core.ite(r, a[0], a[1]) if sym else min(a[0], a[1])
        if name == 'cabs':
            if sym:
                return (a[0] * a[0] + a[1] * a[1]).sqrt()
            return abs(complex(a[0], a[1]))
        if name in ('creal', 'cimag'):
            return a[0] if name == 'creal' else a[1]
        if name == 'conj':
            return [a[0], -a[1]]
        if name == '__divdc3':
            x, y = self.cx(a[0], a[1]), self.cx(a[2], a[3])
            r = x / y
            return [r.real, r.imag]
        if name == '__muldc3':
            r = self.cx(a[0], a[1]) * self.cx(a[2], a[3])
            return [r.real, r.imag]
        if name == 'cpow':
            k = self.cx(a[2], a[3])
            if sym:
                if not (k.im.is_const and k.im.n == 0 and k.re.is_const and
                        k.re.n.denominator == 1):
                    core.ctx().unsupported('cpow')
                r = self.cx(a[0], a[1]) ** int(k.re.n)
            else:
                r = self.cx(a[0], a[1]) ** k
            return [r.real, r.imag]
        if name in ('malloc', 'calloc'):
            n = a[0] if name == 'malloc' else a[0] * a[1]
            if z3.is_expr(n):
                core.ctx().unsupported('symbolic allocation size')
            if n >> 63:
                raise MemFault('allocation of negative size')
            m = RawMem(n, 'heap(%d)' % n, zero=name == 'calloc')
            self.live.append(m)
            return Ptr(m, 0)
        if name == 'free':
            p = a[0]
            if p.mem is None:
                return None
            if id(p.mem) in self.freed or p.off != 0 or not isinstance(p.mem, RawMem):
                raise MemFault('invalid free')
            self.freed.add(id(p.mem))
            return None
        if name in ('printf', 'fprintf', 'puts', 'putchar', 'fflush'):
            return 0
        if name in ('exit', 'abort'):
            raise CExit(name)
        if name.startswith('llvm.memset'):
            p, v, n = a[0], a[1], a[2]
            if v != 0:
                core.ctx().unsupported('memset of a nonzero byte')
            self.chk(p)
            if isinstance(p.mem, mem.ArrMem):
                sz = p.mem.itemsize
                for k in range(n // sz):
                    p.mem.store(p.off + k * sz, self.real(0), sz)
            else:
                for k in range(n // 8):
                    p.mem.store(p.off + 8 * k, self.real(0), 8)
            return None
        if name.startswith('llvm.memcpy') or name in ('memcpy', 'memmove') or \
                name.startswith('llvm.memmove'):
            d, s, n = a[0], a[1], a[2]
            self.chk(d), self.chk(s)
            if isinstance(s.mem, RawMem) and isinstance(d.mem, RawMem):
                for o, (nb, v) in list(s.mem.cells.items()):
                    if s.off <= o and o + nb <= s.off + n:
                        d.mem.store(d.off + o - s.off, v, nb)
            else:
                tmp = [s.mem.load(s.off + 8 * k, 8) for k in range(n // 8)]
                for k, v in enumerate(tmp):
                    d.mem.store(d.off + 8 * k, v, 8)
            return d
        if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg'):
            return None
        if name.startswith('llvm.smax'):
            return a[0] if self.truth(self.icmp('sgt', Ty('int', 32), a[0], a[1])) else a[1]
        if name.startswith('llvm.smin'):
            return a[0] if self.truth(self.icmp('slt', Ty('int', 32), a[0], a[1])) else a[1]
        if core.active():
            core.ctx().unsupported('C library call %s' % name)
        raise NotImplementedError(name)

    def cx(self, a, b):
        return Cx(a, b) if self.w.symbolic else complex(a, b)


def _raise(e):
    raise e


def _zb(v):
    if isinstance(v, B):
        return v.t
    if z3.is_bool(v):
        return v
    if z3.is_bv(v):
        return v != 0
    return z3.BoolVal(bool(v))


def _sg(v, bits):
    return v - (1 << bits) if v >> (bits - 1) & 1 else v


def _signed(v, bits):
    if z3.is_expr(v):
        if bits < 64:
            v = z3.SignExt(64 - bits, v)
        return I(z3.simplify(v))
    return _sg(v, bits)


def _split(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '([{<':
            d += 1
        if ch in ')]}>':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def _callee(s):
    return 0


def _close(s, i):
    d = 0
    for k in range(i, len(s)):
        if s[k] == '(':
            d += 1
        if s[k] == ')':
            d -= 1
            if d == 0:
                return k
    raise ValueError(s)


_PARSED = {}


def parsed(csrcs):
    key = (tuple(csrcs), _world.REPO)
    if key not in _PARSED:
        _PARSED[key] = Parser(build_ir(csrcs))
    return _PARSED[key]


def machine(world, csrcs):
    return Machine(world, parsed(csrcs))


def module(world, csrcs):
    """Per-world shared machine (stateless kernels)."""
    c = world.__dict__.setdefault('_c_modules', {})
    key = tuple(csrcs)
    if key not in c:
        c[key] = machine(world, csrcs)
    return c[key]
