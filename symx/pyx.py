"""Interpreter for the repository's Cython sources.

The .pyx text is parsed with Cython's own parser on every run and its syntax
tree is executed over symbolic (or concrete) values.  C helpers declared
`extern` run through the LLVM-IR interpreter on IR compiled from the current
C source.
"""
import os
import types as _types

import numpy as _np

from . import core, npx, mem
from .core import R, Cx, I, B
from .mem import ArrMem, Ptr, MemFault, TRACE
from . import world as _world

SRC = {'edpyt._psparse': 'edpyt/psparse.pyx',
       'edpyt._continued_fraction': 'edpyt/continued_fraction.pyx'}
CSRC = {'edpyt._psparse': ['edpyt/cs_gaxpy.c'], 'edpyt._continued_fraction': []}


class CT:
    def __init__(self, kind, bits=0, signed=True, base=None, name='', ndim=1, mode=None,
                 fields=None):
        self.kind, self.bits, self.signed, self.base = kind, bits, signed, base
        self.name, self.ndim, self.mode, self.fields = name, ndim, mode, fields

    @property
    def size(self):
        if self.kind == 'int':
            return self.bits // 8
        if self.kind == 'float':
            return self.bits // 8
        if self.kind == 'complex':
            return 16
        if self.kind in ('ptr', 'func'):
            return 8
        if self.kind == 'struct':
            return self.layout()[1]
        return 8

    def layout(self):
        off, out, al = 0, {}, 1
        for nm, t in self.fields:
            a = 8 if t.kind in ('ptr', 'complex') else t.size
            off = (off + a - 1) // a * a
            out[nm] = (off, t)
            off += t.size
            al = max(al, a)
        return out, (off + al - 1) // al * al


OBJ = CT('obj')
INT = CT('int', 32)
_BASIC = {'double': CT('float', 64), 'float': CT('float', 32), 'char': CT('int', 8),
          'complex': CT('complex'), 'Py_ssize_t': CT('int', 64), 'size_t': CT('int', 64, False),
          'ptrdiff_t': CT('int', 64), 'bint': CT('int', 32), 'void': CT('void'), 'object': OBJ,
          'int32_t': CT('int', 32), 'int64_t': CT('int', 64), 'uint32_t': CT('int', 32, False),
          'uint64_t': CT('int', 64, False), 'float64_t': CT('float', 64),
          'double_t': CT('float', 64), 'complex128_t': CT('complex'), 'intp_t': CT('int', 64),
          'npy_intp': CT('int', 64), 'int_t': CT('int', 64), 'uint8_t': CT('int', 8, False),
          'list': OBJ, 'tuple': OBJ, 'dict': OBJ, 'str': OBJ, 'bytes': OBJ}


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


class Buf:
    """Typed buffer variable."""

    def __init__(self, arr, ct):
        self.arr, self.ct = arr, ct
        self.mem = ArrMem(arr, ct.base.size) if arr is not None and arr.ndim == 1 else None

    def __getattr__(self, n):
        return getattr(self.arr, n)

    def __len__(self):
        return len(self.arr)

    def __array__(self, *a, **k):
        return self.arr


class Prange:
    def __init__(self, a):
        self.r = a


def load(world, name):
    path = os.path.join(_world.REPO, SRC[name])
    with open(path) as f:
        src = f.read()
    world.sources[name] = src
    return Module(world, name, src).run()


def parse(name, src):
    from Cython.Compiler.TreeFragment import parse_from_strings
    import re
    # decorators and directives do not change the interpreted semantics
    return parse_from_strings(name.rsplit('.', 1)[-1], src)


class Module:
    def __init__(self, world, name, src):
        self.w = world
        self.name = name
        self.tree = parse(name, src)
        self.types = dict(_BASIC)
        self.g = dict(world.builtins)
        self.externs = {}
        self.out = _types.ModuleType(name)

    def run(self):
        self.exec(self.tree.body, Frame(self, None))
        return self.out

    # -- types --------------------------------------------------------------
    def ctype(self, n, fr=None):
        k = type(n).__name__
        if k == 'CSimpleBaseTypeNode':
            name = n.name
            if name is None:
                return OBJ
            if n.module_path:
                return self.types.get(name, OBJ if name == 'ndarray' else None) or self._unk(name)
            if n.is_basic_c_type:
                if n.complex or name == 'complex':
                    return _BASIC['complex']
                if name in ('int', 'long', 'short', 'char'):
                    bits = {'char': 8, 'int': {0: 32, 1: 64, 2: 64, -1: 16}.get(n.longness, 32)}.get(
                        name, 64)
                    return CT('int', bits, n.signed != 0)
                return self.types.get(name) or self._unk(name)
            t = self.types.get(name)
            if t is None:
                if name in self.g or name in ('ndarray',):
                    return OBJ
                # an untyped argument parses as a base type carrying its name
                return None
            return t
        if k == 'TemplatedTypeNode':
            kw = {}
            if n.keyword_args is not None:
                for it in n.keyword_args.key_value_pairs:
                    kw[it.key.value] = it.value
            el = n.positional_args[0] if n.positional_args else kw.get('dtype')
            nd = int(kw['ndim'].value) if 'ndim' in kw else 1
            mode = kw['mode'].value if 'mode' in kw else None
            return CT('buf', base=self.elemtype(el), ndim=nd, mode=mode)
        if k == 'CComplexBaseTypeNode':
            return self.declare(self.ctype(n.base_type), n.declarator)[1]
        if k == 'MemoryViewSliceTypeNode':
            b = self.ctype(n.base_type_node)
            c = any(type(a).__name__ == 'SliceNode' and getattr(a.step, 'value', None) == '1'
                    for a in n.axes)
            return CT('buf', base=b, ndim=len(n.axes), mode='c' if c else None)
        if k == 'CConstTypeNode' or k == 'CConstOrVolatileTypeNode':
            return self.ctype(n.base_type)
        self._unk(k)

    def elemtype(self, e):
        k = type(e).__name__
        if k == 'NameNode':
            return self.types.get(e.name) or self._unk(e.name)
        if k == 'AttributeNode':
            return self.types.get(e.attribute) or self._unk(e.attribute)
        return self.ctype(e)

    def _unk(self, what):
        core.ctx().unsupported('Cython type %s' % what) if core.active() else _raise(
            NotImplementedError('Cython type %s' % what))

    def declare(self, base, d):
        """(name, type) of a declarator over a base type."""
        k = type(d).__name__
        if k == 'CNameDeclaratorNode':
            return d.name, base
        if k == 'CPtrDeclaratorNode':
            return self.declare(CT('ptr', base=base), d.base)
        if k == 'CArrayDeclaratorNode':
            dim = int(d.dimension.value)
            return self.declare(CT('arr', base=base, ndim=dim), d.base)
        if k == 'CFuncDeclaratorNode':
            nm, t = self.declare(base, d.base)
            return nm, CT('func', base=t)
        if k == 'CConstDeclaratorNode':
            return self.declare(base, d.base)
        self._unk(k)

    # -- statements ----------------------------------------------------------
    def exec(self, n, fr):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            self._stop('statement %s' % type(n).__name__)
        m(n, fr)

    def _stop(self, why):
        if core.active():
            core.ctx().unsupported('Cython ' + why)
        raise NotImplementedError('Cython ' + why)

    def s_StatListNode(self, n, fr):
        for x in n.stats:
            self.exec(x, fr)

    def _nop(self, n, fr):
        pass
    s_CImportStatNode = s_FromCImportStatNode = s_PassStatNode = s_GlobalNode = _nop

    def s_FromImportStatNode(self, n, fr):
        mod = n.module.module_name.value
        for nm, target in n.items:
            if mod.startswith('cython'):
                fr.set(target.name, _Special(nm))
            else:
                m = self.w._import(mod, fromlist=(nm,))
                fr.set(target.name, getattr(m, nm))

    def s_CTypeDefNode(self, n, fr):
        nm, t = self.declare(self.ctype(n.base_type), n.declarator)
        self.types[nm] = t

    def s_CStructOrUnionDefNode(self, n, fr):
        fields = []
        for a in n.attributes:
            b = self.ctype(a.base_type)
            for d in a.declarators:
                fields.append(self.declare(b, d))
        self.types[n.name] = CT('struct', name=n.name, fields=fields)

    def s_CDefExternNode(self, n, fr):
        self.exec(n.body, fr)

    def s_CVarDefNode(self, n, fr):
        b = self.ctype(n.base_type)
        for d in n.declarators:
            nm, t = self.declare(b, d)
            if t.kind == 'func':
                args = []
                dd = d
                while type(dd).__name__ != 'CFuncDeclaratorNode':
                    dd = dd.base
                for a in dd.args:
                    args.append(self.declare(self.ctype(a.base_type), a.declarator)[1])
                self.externs[nm] = (t.base, args)
                fr.set(nm, self._extern(nm))
                continue
            fr.types[nm] = t
            default = getattr(_leaf(d), 'default', None)
            if default is not None:
                fr.assign(nm, self.ev(default, fr))
            elif t.kind == 'struct':
                fr.vars[nm] = StructVar(t)
            elif t.kind == 'arr':
                fr.vars[nm] = _c_array(self.w, t)

    def _extern(self, nm):
        from . import llvmir

        def call(*args):
            mod = llvmir.module(self.w, CSRC[self.name])
            return mod.call(nm, *args)
        return call

    def s_CFuncDefNode(self, n, fr):
        base = self.ctype(n.base_type)
        d = n.declarator
        ret = base
        while type(d).__name__ != 'CFuncDeclaratorNode':
            if type(d).__name__ == 'CPtrDeclaratorNode':
                ret = CT('ptr', base=ret)
            d = d.base
        nm = d.base.name
        f = self._func(nm, d.args, n.body, ret)
        fr.set(nm, f)
        if getattr(n, 'overridable', False):
            setattr(self.out, nm, f)

    def s_DefNode(self, n, fr):
        f = self._func(n.name, n.args, n.body, OBJ, outer=fr if fr.fn else None)
        fr.set(n.name, f)
        setattr(self.out, n.name, f)

    def _func(self, name, args, body, ret, outer=None):
        spec = []
        for a in args:
            bt = a.base_type
            t = self.ctype(bt)
            nm, tt = self.declare(t if t is not None else OBJ, a.declarator)
            if not nm:        # untyped argument
                nm, tt = bt.name, OBJ
            spec.append((nm, tt, a.default, a.not_none))

        def f(*a, **k):
            fr = Frame(self, name, outer)
            if len(a) > len(spec):
                raise TypeError('%s() takes %d arguments' % (name, len(spec)))
            for i, (nm, t, df, nn) in enumerate(spec):
                if i < len(a):
                    v = a[i]
                elif nm in k:
                    v = k[nm]
                elif df is not None:
                    v = self.ev(df, fr)
                else:
                    raise TypeError('%s() missing argument %s' % (name, nm))
                if v is None and nn:
                    raise TypeError("Argument '%s' must not be None" % nm)
                fr.types[nm] = t
                fr.assign(nm, v)
            try:
                self.exec(body, fr)
            except _Ret as r:
                return coerce(r.v, ret, self.w) if ret is not OBJ else unbuf(r.v)
            return None
        f.__name__ = name
        return f

    def s_ExprStatNode(self, n, fr):
        self.ev(n.expr, fr)

    def s_SingleAssignmentNode(self, n, fr):
        if type(n.rhs).__name__ == 'ImportNode':
            im = n.rhs
            mod = im.module_name.value
            if mod.split('.')[0] in ('cython',):
                fr.set(n.lhs.name, _Special('cython'))
            else:
                fr.set(n.lhs.name, self.w._import(mod if im.is_import_as_name else mod.split('.')[0],
                                                  fromlist=('x',) if im.is_import_as_name and
                                                  '.' in mod else ()))
            return
        self.store(n.lhs, self.ev(n.rhs, fr), fr)

    def s_CascadedAssignmentNode(self, n, fr):
        v = self.ev(n.rhs, fr)
        for l in n.lhs_list:
            self.store(l, v, fr)

    def s_ParallelAssignmentNode(self, n, fr):
        vals = [self.ev(s.rhs, fr) for s in n.stats]
        for s, v in zip(n.stats, vals):
            self.store(s.lhs, v, fr)

    def s_InPlaceAssignmentNode(self, n, fr):
        old = self.ev(n.lhs, fr)
        self.store(n.lhs, binop(n.operator, old, self.ev(n.rhs, fr)), fr)

    def store(self, l, v, fr):
        k = type(l).__name__
        if k == 'NameNode':
            fr.assign(l.name, v)
        elif k == 'TupleNode':
            v = list(unbuf(v))
            if len(v) != len(l.args):
                raise ValueError('unpack')
            for a, x in zip(l.args, v):
                self.store(a, x, fr)
        elif k == 'AttributeNode':
            o = self.ev(l.obj, fr)
            if isinstance(o, Ptr):
                o = StructRef(o, fr.ptrtype(l.obj))
            if isinstance(o, StructVar):
                o.set(l.attribute, v, self.w)
            else:
                setattr(o, l.attribute, unbuf(v))
        elif k == 'IndexNode':
            b = self.ev(l.base, fr)
            ix = self.ev(l.index, fr)
            index_set(b, ix, v, self.w)
        elif k == 'SliceIndexNode':
            b = unbuf(self.ev(l.base, fr))
            b[self._slice(l, fr)] = unbuf(v)
        else:
            self._stop('assignment to %s' % k)

    def s_IfStatNode(self, n, fr):
        for c in n.if_clauses:
            if truth(self.ev(c.condition, fr)):
                self.exec(c.body, fr)
                return
        if n.else_clause is not None:
            self.exec(n.else_clause, fr)

    def s_ForInStatNode(self, n, fr):
        it = self.ev(n.iterator.sequence, fr)
        par = isinstance(it, Prange)
        if par:
            seq = list(it.r)
            if self.w.prange_order == 'reverse':
                seq = seq[::-1]
        else:
            seq = unbuf(it)
        outer = TRACE.iter
        try:
            for v in seq:
                if par and outer is None:
                    TRACE.iter = v
                self.store(n.target, v, fr)
                try:
                    self.exec(n.body, fr)
                except _Cont:
                    pass
                except _Brk:
                    return
        finally:
            TRACE.iter = outer
        if n.else_clause is not None:
            self.exec(n.else_clause, fr)

    def s_ForFromStatNode(self, n, fr):
        a, b = self.ev(n.bound1, fr), self.ev(n.bound2, fr)
        step = self.ev(n.step, fr) if n.step is not None else 1
        a, b = int(a), int(b)
        if n.relation1 == '<':
            a += 1
        if n.relation1 == '>':
            a -= 1
        if n.relation2 == '<=':
            b += 1
        if n.relation2 == '>=':
            b -= 1
        r = range(a, b, step) if '<' in n.relation1 else range(a, b, -step)
        for v in r:
            self.store(n.target, v, fr)
            try:
                self.exec(n.body, fr)
            except _Cont:
                pass
            except _Brk:
                return

    def s_WhileStatNode(self, n, fr):
        k = 0
        while truth(self.ev(n.condition, fr)):
            k += 1
            if k > 100000:
                self._stop('unbounded while loop')
            try:
                self.exec(n.body, fr)
            except _Cont:
                continue
            except _Brk:
                return

    def s_BreakStatNode(self, n, fr):
        raise _Brk()

    def s_ContinueStatNode(self, n, fr):
        raise _Cont()

    def s_ReturnStatNode(self, n, fr):
        raise _Ret(self.ev(n.value, fr) if n.value is not None else None)

    def s_RaiseStatNode(self, n, fr):
        e = self.ev(n.exc_type, fr)
        if n.exc_value is not None:
            e = e(self.ev(n.exc_value, fr))
        raise e

    def s_AssertStatNode(self, n, fr):
        if not truth(self.ev(n.condition, fr)):
            raise AssertionError()

    def s_GILStatNode(self, n, fr):
        self.exec(n.body, fr)

    def s_WithStatNode(self, n, fr):
        self.exec(n.body, fr)

    def s_CompilerDirectivesNode(self, n, fr):
        self.exec(n.body, fr)

    def s_CEnumDefNode(self, n, fr):
        self._stop('enum')

    # -- expressions ---------------------------------------------------------
    def ev(self, n, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            op = getattr(n, 'operator', None)
            if hasattr(n, 'operand1') and isinstance(op, str):
                return binop(op, self.ev(n.operand1, fr), self.ev(n.operand2, fr))
            self._stop('expression %s' % type(n).__name__)
        return m(n, fr)

    def e_NameNode(self, n, fr):
        return fr.get(n.name)

    def e_IntNode(self, n, fr):
        return int(n.value.rstrip('uUlL'), 0)

    def e_FloatNode(self, n, fr):
        return float(n.value)

    def e_ImagNode(self, n, fr):
        return complex(0, float(n.value))

    def e_BoolNode(self, n, fr):
        return bool(n.value)

    def e_NoneNode(self, n, fr):
        return None

    def e_NullNode(self, n, fr):
        return mem.NULL

    def e_UnicodeNode(self, n, fr):
        return str(n.value)
    e_IdentifierStringNode = e_UnicodeNode

    def e_BytesNode(self, n, fr):
        return n.value

    def e_AttributeNode(self, n, fr):
        o = self.ev(n.obj, fr)
        if isinstance(o, Ptr):
            o = StructRef(o, fr.ptrtype(n.obj))
        if isinstance(o, StructVar):
            return o.get(n.attribute)
        if isinstance(o, _Special):
            return _Special(n.attribute)
        return getattr(o.arr if isinstance(o, Buf) and n.attribute != 'size' else o, n.attribute)

    def e_IndexNode(self, n, fr):
        b = self.ev(n.base, fr)
        return index_get(b, self.ev(n.index, fr))

    def _slice(self, n, fr):
        return slice(self.ev(n.start, fr) if n.start is not None else None,
                     self.ev(n.stop, fr) if n.stop is not None else None)

    def e_SliceIndexNode(self, n, fr):
        return unbuf(self.ev(n.base, fr))[self._slice(n, fr)]

    def e_SliceNode(self, n, fr):
        g = lambda x: None if x is None else self.ev(x, fr)
        return slice(g(n.start), g(n.stop), g(n.step))

    def e_AmpersandNode(self, n, fr):
        o = n.operand
        k = type(o).__name__
        if k == 'IndexNode':
            b = self.ev(o.base, fr)
            ix = self.ev(o.index, fr)
            if isinstance(b, Buf):
                return Ptr(b.mem, _mul(ix, b.ct.base.size))
            if isinstance(b, Ptr):
                t = fr.ptrtype(o.base)
                return Ptr(b.mem, b.off + _mul(ix, t.base.size))
            if isinstance(b, CArr):
                return Ptr(b.mem, _mul(ix, b.ct.base.size))
        if k == 'NameNode':
            v = fr.get(o.name)
            if isinstance(v, StructVar):
                return Ptr(v.mem, v.off)
        self._stop('address of %s' % k)

    def e_SimpleCallNode(self, n, fr):
        f = self.ev(n.function, fr)
        args = [self.ev(a, fr) for a in n.args]
        return self._call(f, args, {})

    def e_GeneralCallNode(self, n, fr):
        f = self.ev(n.function, fr)
        args = list(self.ev(n.positional_args, fr))
        kw = {}
        if n.keyword_args is not None:
            kw = self.ev(n.keyword_args, fr)
        return self._call(f, args, kw)

    def _call(self, f, args, kw):
        if isinstance(f, _Special):
            if f.name == 'prange':
                r = range(*[int(a) for a in args])
                return Prange(r)
            if f.name in ('boundscheck', 'wraparound', 'cdivision'):
                return lambda g: g
            self._stop('call of %s' % f.name)
        if f is range or getattr(f, '__name__', '') == 'range':
            args = [a if isinstance(a, int) else int(a) for a in args]
        internal = getattr(f, '__module__', None) == __name__ and f.__name__ in self.externs or \
            getattr(f, '__qualname__', '').startswith('Module.')
        if not internal:
            args = [unbuf(a) for a in args]
            kw = {k: unbuf(v) for k, v in kw.items()}
        return f(*args, **kw)

    def e_TupleNode(self, n, fr):
        return tuple(self.ev(a, fr) for a in n.args)

    def e_ListNode(self, n, fr):
        return [self.ev(a, fr) for a in n.args]

    def e_DictNode(self, n, fr):
        return {self.ev(i.key, fr): self.ev(i.value, fr) for i in n.key_value_pairs}

    def e_PrimaryCmpNode(self, n, fr):
        a = self.ev(n.operand1, fr)
        b = self.ev(n.operand2, fr)
        r = cmpop(n.operator, a, b)
        c = n.cascade
        while c is not None:
            if not truth(r):
                return False
            a, b = b, self.ev(c.operand2, fr)
            r = cmpop(c.operator, a, b)
            c = c.cascade
        return r

    def e_BoolBinopNode(self, n, fr):
        a = self.ev(n.operand1, fr)
        if n.operator == 'and':
            return self.ev(n.operand2, fr) if truth(a) else a
        return a if truth(a) else self.ev(n.operand2, fr)

    def e_NotNode(self, n, fr):
        return not truth(self.ev(n.operand, fr))

    def e_UnaryMinusNode(self, n, fr):
        return -self.ev(n.operand, fr)

    def e_UnaryPlusNode(self, n, fr):
        return self.ev(n.operand, fr)

    def e_TildeNode(self, n, fr):
        return ~self.ev(n.operand, fr)

    def e_CondExprNode(self, n, fr):
        return self.ev(n.true_val if truth(self.ev(n.test, fr)) else n.false_val, fr)

    def e_TypecastNode(self, n, fr):
        t = self.declare(self.ctype(n.base_type), n.declarator)[1]
        v = self.ev(n.operand, fr)
        if t.kind == 'ptr':
            if isinstance(v, (Buf,)):
                return Ptr(v.mem, 0)
            return v
        return coerce(v, t, self.w, cast=True)

    def e_SizeofTypeNode(self, n, fr):
        return self.declare(self.ctype(n.base_type), n.declarator)[1].size

    def e_SizeofVarNode(self, n, fr):
        nm = getattr(n.operand, 'name', None)
        if nm in self.types:
            return self.types[nm].size
        return fr.types[nm].size


class _Special:
    def __init__(self, name):
        self.name = name


def _raise(e):
    raise e


def _leaf(d):
    while hasattr(d, 'base') and d.base is not None and type(d).__name__ != 'CNameDeclaratorNode':
        d = d.base
    return d


def _mul(a, k):
    return a * k


class Frame:
    def __init__(self, mod, fn, outer=None):
        self.mod, self.fn, self.outer = mod, fn, outer
        self.vars = {} if fn else mod.g
        self.types = {}

    def set(self, n, v):
        self.vars[n] = v

    def get(self, n):
        if n in self.vars:
            return self.vars[n]
        if n in self.types:
            raise MemFault('read of uninitialised C variable %s' % n)
        if self.outer is not None and n in self.outer.vars:
            return self.outer.vars[n]
        if n in self.mod.g:
            return self.mod.g[n]
        raise NameError(n)

    def assign(self, n, v):
        t = self.types.get(n)
        if t is None:
            self.vars[n] = v
        else:
            self.vars[n] = coerce(v, t, self.mod.w)

    def ptrtype(self, node):
        k = type(node).__name__
        if k == 'NameNode':
            t = self.types.get(node.name)
            if t is not None:
                return t
        if k == 'AttributeNode':
            o = self.mod.ev(node.obj, self)
            if isinstance(o, Ptr):
                st = self.ptrtype(node.obj).base
            elif isinstance(o, StructVar):
                st = o.ct
            else:
                st = None
            if st is not None:
                return dict(st.fields)[node.attribute]
        self.mod._stop('pointer type of %s' % k)


class StructVar:
    def __init__(self, ct, m=None, off=0):
        self.ct = ct
        self.lay, size = ct.layout()
        self.mem = m or mem.RawMem(size, 'struct ' + ct.name)
        self.off = off

    def get(self, f):
        off, t = self.lay[f]
        v = self.mem.load(self.off + off, t.size)
        if t.kind == 'ptr' and isinstance(v, Ptr):
            return TPtr(v, t)
        return v

    def set(self, f, v, w):
        off, t = self.lay[f]
        self.mem.store(self.off + off, coerce(v, t, w), t.size)


def StructRef(p, t):
    return StructVar(t.base, p.mem, p.off)


class TPtr(Ptr):
    """Pointer carrying its element type (struct fields)."""
    __slots__ = ('ct',)

    def __init__(self, p, ct):
        super().__init__(p.mem, p.off)
        self.ct = ct


class CArr:
    def __init__(self, m, ct):
        self.mem, self.ct = m, ct


def _c_array(w, t):
    a = w.np.empty(t.ndim, float if t.base.kind == 'float' else
                   complex if t.base.kind == 'complex' else _np.int64)
    return CArr(ArrMem(a, t.base.size), t)


def unbuf(v):
    if isinstance(v, Buf):
        return v.arr
    return v


def coerce(v, t, w, cast=False):
    if t is None or t.kind in ('obj', 'void', 'func'):
        return unbuf(v) if t is not None and t.kind == 'obj' and False else v
    if t.kind == 'int':
        if isinstance(v, (float, _np.floating)) and not cast:
            raise TypeError('cannot assign float to C int')
        if isinstance(v, float):
            v = int(v)
        if isinstance(v, R):
            if v.is_const:
                v = int(v.n)
            else:
                core.ctx().unsupported('real to C integer')
        v = _world._conv_int(t.bits, not t.signed, v)
        return int(v) if isinstance(v, (_np.integer,)) else v
    if t.kind == 'float':
        if isinstance(v, Cx) or isinstance(v, complex):
            raise TypeError('cannot convert complex to double')
        if w.symbolic:
            return core.as_r(v)
        return float(v)
    if t.kind == 'complex':
        return core.as_c(v) if w.symbolic else complex(v)
    if t.kind == 'buf':
        if v is None:
            return None
        a = unbuf(v)
        if not isinstance(a, _np.ndarray):
            raise TypeError("Cannot convert %s to numpy.ndarray" % type(a).__name__)
        if a.ndim != t.ndim:
            raise ValueError('Buffer has wrong number of dimensions (expected %d, got %d)'
                             % (t.ndim, a.ndim))
        if t.mode == 'c' and not a.flags.c_contiguous:
            raise ValueError('ndarray is not C-contiguous')
        kind = t.base.kind
        if a.dtype == object:
            cx = any(isinstance(x, (Cx, complex)) for x in a.flat)
            if kind == 'int' or (kind == 'float' and cx):
                if not (kind == 'int' and all(isinstance(x, (I, int, _np.integer)) for x in a.flat)):
                    raise ValueError('Buffer dtype mismatch')
            if kind == 'complex' and a.size and not cx:
                # a float64 buffer where complex128 is declared
                if not getattr(a, '_tag', None) == 'complex':
                    raise ValueError('Buffer dtype mismatch, expected complex')
        else:
            want = {('int', 4): 'i4', ('int', 8): 'i8', ('float', 8): 'f8',
                    ('complex', 16): 'c16'}.get((kind, t.base.size))
            if want is None or a.dtype != _np.dtype(want):
                raise ValueError('Buffer dtype mismatch, expected %s but got %s' % (want, a.dtype))
        return Buf(a, t)
    if t.kind == 'ptr':
        return v
    return v


def _ix1(ix):
    if isinstance(ix, tuple) and len(ix) == 1:
        return ix[0]
    return ix


def index_get(b, ix):
    ix = _ix1(ix)
    if isinstance(b, Buf) and b.mem is not None and not isinstance(ix, (slice, tuple)):
        if isinstance(ix, int) and ix < 0:
            ix += b.arr.shape[0]
        return b.mem.load_cell(ix)
    if isinstance(b, CArr):
        return b.mem.load_cell(ix)
    if isinstance(b, TPtr):
        return b.mem.load(b.off + _mul(ix, b.ct.base.size), b.ct.base.size)
    if isinstance(b, Ptr):
        sz = b.mem.itemsize
        return b.mem.load(b.off + _mul(ix, sz), sz)
    return unbuf(b)[ix]


def index_set(b, ix, v, w):
    ix = _ix1(ix)
    if isinstance(b, Buf):
        v = coerce(v, b.ct.base, w)
        if b.mem is not None and not isinstance(ix, (slice, tuple)):
            if isinstance(ix, int) and ix < 0:
                ix += b.arr.shape[0]
            return b.mem.store_cell(ix, v)
    if isinstance(b, CArr):
        return b.mem.store_cell(ix, coerce(v, b.ct.base, w))
    if isinstance(b, TPtr):
        return b.mem.store(b.off + _mul(ix, b.ct.base.size), coerce(v, b.ct.base, w),
                           b.ct.base.size)
    if isinstance(b, Ptr):
        sz = b.mem.itemsize
        return b.mem.store(b.off + _mul(ix, sz), v, sz)
    unbuf(b)[ix] = unbuf(v)


def truth(v):
    return bool(v)


def binop(op, a, b):
    a, b = unbuf(a), unbuf(b)
    if op == '+':
        if isinstance(a, TPtr):
            return TPtr(Ptr(a.mem, a.off + _mul(b, a.ct.base.size)), a.ct)
        if isinstance(a, Ptr):
            return Ptr(a.mem, a.off + _mul(b, a.mem.itemsize))
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op == '/':
        return a / b
    if op == '//':
        return a // b
    if op == '%':
        return a % b
    if op == '**':
        return a ** b
    if op == '&':
        return a & b
    if op == '|':
        return a | b
    if op == '^':
        return a ^ b
    if op == '<<':
        return a << b
    if op == '>>':
        return a >> b
    if op == '@':
        return a @ b
    raise NotImplementedError('operator ' + op)


def cmpop(op, a, b):
    a, b = unbuf(a), unbuf(b)
    if op == '==':
        return a == b
    if op in ('!=', '<>'):
        return a != b
    if op == '<':
        return a < b
    if op == '<=':
        return a <= b
    if op == '>':
        return a > b
    if op == '>=':
        return a >= b
    if op == 'is':
        return a is b
    if op == 'is_not':
        return a is not b
    if op == 'in':
        return a in b
    if op == 'not_in':
        return a not in b
    raise NotImplementedError(op)
