"""Mechanical translation of the real .pyx sources into verifiable functions.

Cython's own compiler (parser, declaration and expression analysis, pipeline up to and including
the expansion of in-place operators) produces a typed syntax tree; every statement and expression
of a function body is then rendered one to one as a Python AST in which each C operation is an
explicit call `_C__.op(..., ctypes)`.  The result goes through the same rewriter (loops as closures)
as the Python sources.  Dropped: the C code generator itself, reference counting, line tracing.
"""
import ast
import os
import sys
import types

from . import core
from .core import Unsupported

SITE = '/opt/venv/lib/python3.12/site-packages'
END = 'ExpandInplaceOperators'
_cache = {}


def cython():
    try:
        import Cython.Compiler.Main  # noqa
    except ImportError:
        sys.path.append(SITE)
        import Cython.Compiler.Main  # noqa
    from Cython.Compiler import Main, Pipeline
    return Main, Pipeline


def tree(path, modname):
    Main, Pipeline = cython()
    from Cython.Compiler.Main import Context, CompilationSource, CompilationOptions
    from Cython.Compiler.Scanning import FileSourceDescriptor
    opts = CompilationOptions(Main.default_options, include_path=[SITE], language_level=3)
    ctx = Context.from_options(opts)
    src = CompilationSource(FileSourceDescriptor(path, os.path.basename(path)), modname, os.path.dirname(path))
    result = Main.create_default_resultobj(src, opts)
    out = []
    for st in Pipeline.create_pyx_pipeline(ctx, opts, result):
        out.append(st)
        if type(st).__name__ == END:
            break
    ctx.setup_errors(opts, result)
    err, tr = Pipeline.run_pipeline(out, src)
    if err:
        raise err
    return tr


# ------------------------------------------------------------------ types
def desc(tp):
    """descriptor string of a Cython type"""
    if tp is None:
        return 'o'
    tp = getattr(tp, 'cv_base_type', tp) if getattr(tp, 'is_cv_qualified', False) else tp
    if getattr(tp, 'is_typedef', False) and not tp.is_pyobject:
        nm = tp.typedef_name
        fixed = {'uint8_t': 'u8', 'uint16_t': 'u16', 'uint32_t': 'u32', 'uint64_t': 'u64', 'int8_t': 'i8',
                 'int16_t': 'i16', 'int32_t': 'i32', 'int64_t': 'i64', 'npy_intp': 'i64', 'size_t': 'u64'}
        if nm in fixed:
            return fixed[nm]
        return desc(tp.typedef_base_type)
    if tp.is_ptr:
        return 'p:' + desc(tp.base_type)
    if tp.is_array:
        return 'ca:%s:%s' % (desc(tp.base_type), tp.size)
    if tp.is_memoryviewslice:
        return 'mv:%s:%d' % (desc(tp.dtype), tp.ndim)
    if getattr(tp, 'is_buffer', False):
        return 'nd:%s:%d' % (desc(tp.dtype), tp.ndim)
    if getattr(tp, 'is_ctuple', False):
        return 'ct:(%s)' % ','.join(desc(c) for c in tp.components)
    if tp.is_pyobject:
        return 'o'
    if tp.is_float:
        s = tp.sign_and_name()
        if s == 'float':
            return 'f32'
        if s == 'double':
            return 'f64'
        raise Unsupported('C type %s' % s)
    if type(tp).__name__ == 'CBIntType' or str(tp) in ('bint', 'bool'):
        return 'b'
    if tp.is_enum:
        return 'i32'
    if tp.is_int:
        s = str(tp)
        fixed = {'int': 'i32', 'unsigned int': 'u32', 'long': 'i64', 'unsigned long': 'u64', 'long long': 'i64',
                 'PY_LONG_LONG': 'i64', 'unsigned PY_LONG_LONG': 'u64',
                 'Py_ssize_t': 'i64', 'size_t': 'u64', 'short': 'i16', 'unsigned short': 'u16', 'unsigned char': 'u8',
                 'signed char': 'i8', 'Py_hash_t': 'i64', 'ptrdiff_t': 'i64', 'ssize_t': 'i64'}
        if s in fixed:
            return fixed[s]
        raise Unsupported('C type %s' % s)
    if tp.is_void:
        return 'void'
    if tp.is_unicode_char or str(tp) == 'char':
        raise Unsupported('C type %s' % tp)
    if tp.is_cfunction:
        return 'fn'
    raise Unsupported('C type %s' % tp)


def N(n):
    return ast.Name(id=str(n), ctx=ast.Load())


def S(n):
    return ast.Name(id=str(n), ctx=ast.Store())


def K(v):
    return ast.Constant(value=str(v) if isinstance(v, str) else v)


def C(fn, *args):
    return ast.Call(func=ast.Attribute(value=N('_C__'), attr=str(fn), ctx=ast.Load()), args=list(args), keywords=[])


class FnTr:
    """translation of one function body"""

    def __init__(self, mod, node, directives):
        self.mod = mod
        self.node = node
        self.dirs = dict(directives)
        self.refs = []           # stack of (ResultRefNode target expr, ast name)
        self.k = 0
        self.locals = set()

    def fail(self, n, what=''):
        raise Unsupported('Cython %s%s in %s' % (type(n).__name__, ' ' + what if what else '', self.mod.name))

    def tmp(self):
        self.k += 1
        return '_t%d__' % self.k

    # ------------------------------------------------------------ expressions
    def x(self, n):
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            self.fail(n)
        return m(n)

    def conv(self, n, dst):
        """expression n converted to descriptor dst (C assignment conversion)"""
        s = self.litdesc(n)
        e = self.x(n)
        return self.cast(e, s, dst)

    def cast(self, e, s, dst):
        if s == dst or dst in ('void', 'fn'):
            return e
        if s == 'o' and dst == 'o':
            return e
        if dst.startswith('ct:') and s.startswith('ct:'):
            return C('cast_tuple', e, K(s), K(dst))
        if dst[0] in 'uifb' and s[0] in 'uifb':
            return C('cast', e, K(s), K(dst))
        if dst.startswith('p:') and s.startswith('p:'):
            return C('cast_ptr', e, K(dst))
        if dst.startswith('p:') and s.startswith('ca:') and s.split(':')[1] == dst.split(':')[1]:
            return e
        if dst.startswith('nd:') and s in ('o',):
            return C('asbuffer', e, K(dst))
        if s.startswith('nd:') and dst == 'o' or s.startswith('mv:') and dst == 'o':
            return e
        if dst.startswith('mv:') and s.startswith('mv:'):
            return e
        if dst.startswith('mv:') and (s.startswith('nd:') or s == 'o'):
            return C('asview', e, K(dst))
        if dst.startswith('nd:') and s.startswith('nd:'):
            return e
        raise Unsupported('conversion %s -> %s' % (s, dst))

    def x_NameNode(self, n):
        if n.name in self.locals:
            return N(n.name)
        en = n.entry
        if en is None:
            return N(n.name)
        if en.is_const or (n.type is not None and getattr(n.type, 'is_enum', False)) or \
                isinstance(n.constant_result, (int, float)) and not isinstance(n.constant_result, bool):
            v = self.constval(n)
            if v is not None:
                return v
        if en.cname == 'NAN' or n.name == 'NAN':
            return C('nan')
        if en.is_cfunction and not en.in_cinclude and en.scope is self.mod.scope:
            return N('_F__' + n.name)
        if en.is_type and en.scope is self.mod.scope:
            return C('new', K(n.name))
        return N(n.name)

    def constval(self, n):
        nm = n.name
        if nm.startswith('NPY_'):
            return K(nm)
        v = n.constant_result
        if isinstance(v, int):
            return K(v)
        if nm in self.mod.consts:
            return K(self.mod.consts[nm])
        en = n.entry
        vn = getattr(en, 'value_node', None)
        if vn is not None:
            return self.x(vn)
        return None

    def x_IntNode(self, n):
        from Cython.Utils import str_to_number
        return K(str_to_number(n.value))

    def x_BoolNode(self, n):
        return K(bool(n.value))

    def x_FloatNode(self, n):
        return K(float(n.value))

    def x_NoneNode(self, n):
        return K(None)

    def x_UnicodeNode(self, n):
        return K(str(n.value))
    x_IdentifierStringNode = x_StringNode = x_UnicodeNode

    def x_BytesNode(self, n):
        return K(bytes(n.value.encode('latin-1')) if isinstance(n.value, str) else bytes(n.value))

    def x_JoinedStrNode(self, n):
        return C('joined', *[self.x(v) for v in n.values])

    def x_FormattedValueNode(self, n):
        return C('fmt', self.x(n.value))

    def x_NullNode(self, n):
        return K(None)

    # C integer literal type: int if it fits, else long
    def litdesc(self, n):
        """C type of the emitted expression"""
        if type(n).__name__ == 'IntNode':
            v = abs(self.x_IntNode(n).value)
            u = bool(n.unsigned)
            lg = len(n.longness)
            if not lg and v < (1 << 31):
                return 'u32' if u else 'i32'
            if not lg and u and v < (1 << 32):
                return 'u32'
            return 'u64' if u or v >= 1 << 63 else 'i64'
        nm = type(n).__name__
        if nm == 'NameNode' and getattr(n.type, 'is_enum', False):
            return 'i32'
        d = desc(n.type)
        if d == 'o':
            return d
        if nm in self.BIN:
            if n.operator in ('//', '%', '/'):
                return d
            from .cops import common, promote
            a, b = self.litdesc(n.operand1), self.litdesc(n.operand2)
            if n.operator in ('<<', '>>'):
                return promote(a)
            return common(a, b)
        if nm in ('UnaryMinusNode', 'TildeNode'):
            from .cops import promote
            return promote(self.litdesc(n.operand))
        if nm in ('ProxyNode', 'CloneNode'):
            return self.litdesc(n.arg)
        return d
    BIN = ('IntBinopNode', 'BitwiseOrNode', 'AddNode', 'SubNode', 'MulNode', 'DivNode', 'ModNode')

    # --- coercions
    def x_CoerceToPyTypeNode(self, n):
        return C('topy', self.conv(n.arg, desc(n.arg.type)), K(desc(n.arg.type)))

    def x_CoerceFromPyTypeNode(self, n):
        a = n.arg
        d = desc(n.type)
        if type(a).__name__ == 'CoerceToPyTypeNode' and d[0] in 'ui' and desc(a.arg.type)[0] in 'ui':
            # folded by the optimiser: C to C conversion
            return self.conv(a.arg, d)
        if d.startswith('mv:'):
            return C('asview', self.x(a), K(d))
        return C('frompy', self.x(a), K(d))

    def x_PyTypeTestNode(self, n):
        d = desc(n.type)
        e = self.x(n.arg)
        if d.startswith('nd:'):
            return C('asbuffer', e, K(d))
        return C('typetest', e, K(str(n.type)))

    def x_CoerceToTempNode(self, n):
        return self.conv(n.arg, desc(n.type))

    def x_ProxyNode(self, n):
        return self.x(n.arg)
    x_CloneNode = x_NoneCheckNode = x_CMethodSelfCloneNode = x_ProxyNode

    def x_CoerceToMemViewSliceNode(self, n):
        return C('asview', self.x(n.arg), K(desc(n.type)))

    def x_CoerceToBooleanNode(self, n):
        d = desc(n.arg.type)
        if d == 'o':
            return C('truth', self.x(n.arg))
        return C('nonzero', self.x(n.arg), K(d))

    def x_ResultRefNode(self, n):
        for ref, nm in reversed(self.refs):
            if ref is n:
                return N(nm)
        if n.expression is not None:
            return self.x(n.expression)
        self.fail(n)

    # --- operators
    OPS = {'+': 'add', '-': 'sub', '*': 'mul', '&': 'and', '|': 'or', '^': 'xor', '<<': 'shl', '>>': 'shr', '//': 'floordiv',
           '%': 'mod', '/': 'div', '**': 'pow'}
    PYOPS = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '&': ast.BitAnd, '|': ast.BitOr, '^': ast.BitXor, '<<': ast.LShift,
             '>>': ast.RShift, '//': ast.FloorDiv, '%': ast.Mod, '/': ast.Div, '**': ast.Pow}

    def binop(self, n):
        if desc(n.type) == 'o':
            return ast.BinOp(left=self.x(n.operand1), op=self.PYOPS[n.operator](), right=self.x(n.operand2))
        if n.operator == '**':
            self.fail(n)
        a, b = self.litdesc(n.operand1), self.litdesc(n.operand2)
        if not (a[0] in 'uifb' and b[0] in 'uifb'):
            self.fail(n, 'operand types %s %s' % (a, b))
        if n.operator in ('//', '%', '/'):
            cd = self.dirs.get('cdivision')
            return C('cdiv', K(n.operator), self.x(n.operand1), self.x(n.operand2), K(a), K(b), K(desc(n.type)), K(bool(cd)))
        return C('bin', K(self.OPS[n.operator]), self.x(n.operand1), self.x(n.operand2), K(a), K(b), K(desc(n.type)))
    x_IntBinopNode = x_BitwiseOrNode = x_AddNode = x_SubNode = x_MulNode = x_DivNode = x_ModNode = x_PowNode = binop

    def x_UnaryMinusNode(self, n):
        if desc(n.type) == 'o':
            return ast.UnaryOp(op=ast.USub(), operand=self.x(n.operand))
        return C('neg', self.x(n.operand), K(self.litdesc(n.operand)), K(desc(n.type)))

    def x_UnaryPlusNode(self, n):
        return self.x(n.operand)

    def x_TildeNode(self, n):
        if desc(n.type) == 'o':
            return ast.UnaryOp(op=ast.Invert(), operand=self.x(n.operand))
        return C('inv', self.x(n.operand), K(self.litdesc(n.operand)))

    def x_NotNode(self, n):
        d = desc(n.operand.type)
        return ast.UnaryOp(op=ast.Not(), operand=self.x(n.operand) if d in 'ob' else C('nonzero', self.x(n.operand), K(d)))

    def boolval(self, n):
        d = desc(n.type)
        e = self.x(n)
        return e if d in ('o', 'b') else C('nonzero', e, K(d))

    def x_BoolBinopNode(self, n):
        op = ast.And() if n.operator == 'and' else ast.Or()
        return ast.BoolOp(op=op, values=[self.x(n.operand1), self.x(n.operand2)])

    def x_BoolBinopResultNode(self, n):
        d = desc(n.type)
        # arg is the operand, value the coerced result
        if d in ('b',):
            return self.boolval(n.arg)
        return self.x(n.value) if n.value is not None and not type(n.value).__name__ == 'CloneNode' else self.x(n.arg)

    CMP = {'==': ast.Eq, '!=': ast.NotEq, '<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, 'is': ast.Is, 'is_not': ast.IsNot,
           'in': ast.In, 'not_in': ast.NotIn}

    def cmp1(self, op, a, b):
        da, db = self.litdesc(a), self.litdesc(b)
        if da[0] in 'uifb' and db[0] in 'uifb':
            if da != 'o' and db != 'o':
                return C('cmp', K(op), self.x(a), self.x(b), K(da), K(db))
        if op in ('in', 'not_in') and da[0] in 'ui' and type(b).__name__ == 'TupleNode':
            pass
        return ast.Compare(left=self.x(a), ops=[self.CMP[op]()], comparators=[self.x(b)])

    def x_PrimaryCmpNode(self, n):
        if n.cascade is None:
            return self.cmp1(n.operator, n.operand1, n.operand2)
        parts = [self.cmp1(n.operator, n.operand1, n.operand2)]
        prev, c = n.operand2, n.cascade
        while c is not None:
            parts.append(self.cmp1(c.operator, prev, c.operand2))
            prev, c = c.operand2, c.cascade
        return ast.BoolOp(op=ast.And(), values=parts)

    def x_CondExprNode(self, n):
        d = desc(n.type)
        return ast.IfExp(test=self.boolval(n.condition), body=self.conv(n.true_val, d), orelse=self.conv(n.false_val, d))

    # --- displays
    def x_TupleNode(self, n):
        d = desc(n.type)
        if d.startswith('ct:'):
            cs = [desc(c) for c in n.type.components]
            return ast.Tuple(elts=[self.conv(a, c) for a, c in zip(n.args, cs)], ctx=ast.Load())
        return ast.Tuple(elts=[self.x(a) for a in n.args], ctx=ast.Load())

    def x_ListNode(self, n):
        d = desc(n.type)
        if d != 'o':
            return C('carray', K(d), *[self.x(a) for a in n.args])
        return ast.List(elts=[self.x(a) for a in n.args], ctx=ast.Load())

    def x_CArrayNode(self, n):
        d = desc(n.type)
        el = d.split(':')[1]
        return C('carray', K(d), *[self.conv(a, el) for a in n.args])

    def x_DictNode(self, n):
        return ast.Dict(keys=[self.x(i.key) for i in n.key_value_pairs], values=[self.x(i.value) for i in n.key_value_pairs])

    # --- access
    def x_IndexNode(self, n):
        b = desc(n.base.type)
        if b.startswith('ct:'):
            return ast.Subscript(value=self.x(n.base), slice=self.x(n.index), ctx=ast.Load())
        if b.startswith('p:'):
            return C('deref', self.x(n.base), self.x(n.index), K(b.split(':', 1)[1]))
        if b.startswith('ca:'):
            return C('caget', self.x(n.base), self.x(n.index))
        if b == 'o':
            i = n.index
            e = self.x(i)
            di = desc(i.type)
            if di != 'o':
                e = C('topy', e, K(di))
            return ast.Subscript(value=self.x(n.base), slice=e, ctx=ast.Load())
        self.fail(n, b)

    def bc(self):
        return K(bool(self.dirs.get('boundscheck', True))), K(bool(self.dirs.get('wraparound', True)))

    def idx(self, n):
        return ast.Tuple(elts=[ast.Tuple(elts=[self.x(i), K(self.litdesc(i))], ctx=ast.Load()) for i in n.indices], ctx=ast.Load())

    def x_MemoryViewIndexNode(self, n):
        return C('mvget', self.x(n.base), self.idx(n), *self.bc(), K(desc(n.type)))

    def x_BufferIndexNode(self, n):
        return C('mvget', self.x(n.base), self.idx(n), *self.bc(), K(desc(n.type)))

    def x_MemoryViewSliceNode(self, n):
        out = []
        for i in n.original_indices if n.original_indices else n.indices:
            if type(i).__name__ == 'SliceNode':
                out.append(ast.Tuple(elts=[K('s'), self.sl(i.start), self.sl(i.stop), self.sl(i.step)], ctx=ast.Load()))
            elif type(i).__name__ in ('EllipsisNode', 'NoneNode'):
                self.fail(n)
            else:
                out.append(ast.Tuple(elts=[K('i'), self.x(i), K(self.litdesc(i))], ctx=ast.Load()))
        return C('mvslice', self.x(n.base), ast.Tuple(elts=out, ctx=ast.Load()), *self.bc(), K(desc(n.type)))

    def sl(self, n):
        if n is None or type(n).__name__ == 'NoneNode':
            return K(None)
        d = desc(n.type)
        if type(n).__name__ == 'CoerceToPyTypeNode':
            n = n.arg
            d = desc(n.type)
        if d == 'o':
            return C('frompy', self.x(n), K('i64'))
        return self.conv(n, 'i64')

    def x_SliceIndexNode(self, n):
        self.fail(n)

    def x_AmpersandNode(self, n):
        o = n.operand
        t = type(o).__name__
        if t in ('MemoryViewIndexNode', 'BufferIndexNode'):
            return C('addr', self.x(o.base), self.idx(o), *self.bc(), K(desc(o.type)))
        self.fail(n)

    def x_TypecastNode(self, n):
        return self.cast(self.x(n.operand), self.litdesc(n.operand), desc(n.type))

    def x_AttributeNode(self, n):
        d = desc(n.obj.type)
        if n.attribute == 'shape' and (d.startswith('mv:') or d.startswith('nd:')):
            return C('shape', self.x(n.obj))
        if n.entry is not None and getattr(n.obj.type, 'is_extension_type', False) and n.entry.is_variable:
            return ast.Attribute(value=self.x(n.obj), attr=str(n.attribute), ctx=ast.Load())
        if n.obj is not None and desc(n.obj.type) == 'o':
            return ast.Attribute(value=self.x(n.obj), attr=str(n.attribute), ctx=ast.Load())
        self.fail(n, n.attribute)

    # --- calls
    NP = ('PyArray_SimpleNew', 'PyArray_ZEROS', 'PyArray_FillWithScalar', 'PyArray_EMPTY')

    def x_SimpleCallNode(self, n):
        f = n.function
        at = getattr(n, 'arg_tuple', None)
        if desc(f.type if f.type is not None else None) == 'fn' or getattr(f.type, 'is_cfunction', False) or \
                (getattr(f.type, 'is_ptr', False) and f.type.base_type.is_cfunction):
            ft = f.type.base_type if f.type.is_ptr else f.type
            name = f.name if type(f).__name__ == 'NameNode' else None
            if name is None:
                a = f.attribute
                obj = f.obj
                if type(obj).__name__ == 'CloneNode':
                    obj = obj.arg
                return ast.Call(func=ast.Attribute(value=self.x(obj), attr=str(a), ctx=ast.Load()),
                                args=[self.topy(y) for y in n.args[1:]], keywords=[])
            args = []
            for p, a in zip(ft.args, n.args):
                args.append(self.conv(a, desc(p.type)) if name not in self.NP else self.x(a))
            if name == 'len':
                return C('len', self.x(n.args[0]))
            if f.entry.is_cfunction and f.entry.scope is self.mod.scope and name in self.mod.cfuncs:
                return ast.Call(func=N('_F__' + name), args=args, keywords=[])
            if name in self.NP:
                return C(name, *args)
            if name in ('min', 'max', 'abs'):
                self.fail(n, name)
            raise Unsupported('C function %s' % name)
        args = list(at.args) if at is not None else list(n.args)
        if type(f).__name__ == 'NameNode' and f.entry is not None and f.name == 'array' and \
                getattr(f.entry.scope, 'qualified_name', '') == 'cpython.array':
            return C('pyarray', *[self.x(a) for a in args])
        if type(f).__name__ == 'NameNode' and f.name in self.mod.classes and f.name not in self.locals:
            return C('new', K(f.name), *[self.topy(a) for a in args])
        if type(f).__name__ == 'NameNode' and f.entry is not None and f.entry.is_type and not f.entry.is_builtin:
            if f.entry.scope is self.mod.scope:
                return C('new', K(f.name), *[self.x(a) for a in args])
        return ast.Call(func=self.x(f), args=[self.topy(a) for a in args], keywords=[])

    def x_GeneralCallNode(self, n):
        kw = n.keyword_args
        args = [self.topy(a) for a in n.positional_args.args]
        kws = []
        if kw is not None:
            if type(kw).__name__ != 'DictNode':
                self.fail(n)
            kws = [ast.keyword(arg=str(i.key.value), value=self.topy(i.value)) for i in kw.key_value_pairs]
        return ast.Call(func=self.x(n.function), args=args, keywords=kws)

    def topy(self, n):
        d = desc(n.type)
        return self.x(n) if d == 'o' or d[0] in 'nm' else C('topy', self.conv(n, d), K(d))

    # ------------------------------------------------------------ statements
    def ss(self, n):
        if n is None:
            return []
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            self.fail(n)
        return m(n)

    def s_StatListNode(self, n):
        out = []
        for s in n.stats:
            out += self.ss(s)
        return out

    def s_CompilerDirectivesNode(self, n):
        sv = self.dirs
        self.dirs = dict(n.directives)
        out = self.ss(n.body)
        self.dirs = sv
        return out

    def s_PassStatNode(self, n):
        return [ast.Pass()]

    def assign(self, lhs, e, s, rnode=None):
        """e: ast expression of descriptor s"""
        t = type(lhs).__name__
        if t == 'NameNode':
            d = desc(lhs.type)
            if rnode is not None and d.startswith('ca:'):
                return [ast.Assign(targets=[S(lhs.name)], value=e)]
            if d.startswith('nd:') and s == 'o' and rnode is not None and type(rnode).__name__ == 'NoneNode':
                return [ast.Assign(targets=[S(lhs.name)], value=e)]
            return [ast.Assign(targets=[S(lhs.name)], value=self.cast(e, s, d))]
        if t in ('BufferIndexNode', 'MemoryViewIndexNode'):
            d = desc(lhs.type)
            return [ast.Expr(value=C('mvset', self.x(lhs.base), self.idx(lhs), *self.bc(), self.cast(e, s, d), K(d)))]
        if t == 'IndexNode':
            b = desc(lhs.base.type)
            if b.startswith('ca:'):
                return [ast.Expr(value=C('caset', self.x(lhs.base), self.x(lhs.index), self.cast(e, s, b.split(':')[1])))]
            if b == 'o':
                i = lhs.index
                ie = self.x(i)
                di = desc(i.type)
                if di != 'o':
                    ie = C('topy', ie, K(di))
                if s != 'o' and s[0] in 'uifb':
                    e = C('topy', e, K(s))
                return [ast.Assign(targets=[ast.Subscript(value=self.x(lhs.base), slice=ie, ctx=ast.Store())], value=e)]
        if t == 'AttributeNode':
            if getattr(lhs.obj.type, 'is_extension_type', False) and lhs.entry is not None and lhs.entry.is_variable:
                return [ast.Assign(targets=[ast.Attribute(value=self.x(lhs.obj), attr=str(lhs.attribute), ctx=ast.Store())],
                                   value=self.cast(e, s, desc(lhs.type)))]
        if t == 'TupleNode':
            self.k += 1
            tmp = self.tmp()
            out = [ast.Assign(targets=[S(tmp)], value=C('unpack', e, K(len(lhs.args))))]
            for k, a in enumerate(lhs.args):
                val = ast.Subscript(value=N(tmp), slice=K(k), ctx=ast.Load())
                d = desc(a.type)
                if d != 'o':
                    val = C('frompy', val, K(d)) if d[0] in 'uifb' else C('asbuffer', val, K(d))
                out += self.assign(a, val, d)
            return out
        if t == 'SliceIndexNode' and desc(lhs.base.type).startswith('ca:') and lhs.start is None and lhs.stop is None:
            return [ast.Expr(value=C('cafill', self.x(lhs.base), e))]
        self.fail(lhs, 'as assignment target')

    def s_SingleAssignmentNode(self, n):
        r = n.rhs
        t = type(r).__name__
        d = desc(r.type) if r.type is not None else 'o'
        if t in ('ImportNode', 'PyCFunctionNode'):
            self.fail(n)
        return self.assign(n.lhs, self.x(r), self.litdesc(r), r)

    def s_CascadedAssignmentNode(self, n):
        tmp = self.tmp()
        d = self.litdesc(n.rhs)
        out = [ast.Assign(targets=[S(tmp)], value=self.x(n.rhs))]
        for lhs in n.lhs_list:
            out += self.assign(lhs, N(tmp), d)
        return out

    def s_InPlaceAssignmentNode(self, n):
        lhs = n.lhs
        d = desc(lhs.type)
        rd = self.litdesc(n.rhs)
        if type(lhs).__name__ in ('NameNode',) and d[0] in 'uif' and rd[0] in 'uifb':
            if n.operator in ('//', '%', '/', '**'):
                self.fail(n)
            e = C('bin', K(self.OPS[n.operator]), N(lhs.name), self.x(n.rhs), K(d), K(rd), K('?'))
            return [ast.Assign(targets=[S(lhs.name)], value=C('cast', e, C('ctype', K(d), K(rd)), K(d)))]
        if type(lhs).__name__ == 'NameNode' and d == 'o':
            return [ast.AugAssign(target=S(lhs.name), op=self.PYOPS[n.operator](), value=self.topy(n.rhs))]
        if type(lhs).__name__ in ('BufferIndexNode', 'MemoryViewIndexNode') and d[0] in 'uif' and rd[0] in 'uifb':
            e = C('bin', K(self.OPS[n.operator]), self.x(lhs), self.x(n.rhs), K(d), K(rd), K('?'))
            return [ast.Expr(value=C('mvset', self.x(lhs.base), self.idx(lhs), *self.bc(),
                                     C('cast', e, C('ctype', K(d), K(rd)), K(d)), K(d)))]
        self.fail(n)

    def s_LetNode(self, n):
        tmp = self.tmp()
        out = [ast.Assign(targets=[S(tmp)], value=self.x(n.temp_expression))]
        self.refs.append((n.lazy_temp if hasattr(n, 'lazy_temp') else n.temp, tmp))
        out += self.ss(n.body)
        self.refs.pop()
        return out

    def s_ParallelAssignmentNode(self, n):
        out = []
        vals = []
        for s in n.stats:
            r = s.rhs
            tmp = self.tmp()
            out.append(ast.Assign(targets=[S(tmp)], value=self.x(r)))
            vals.append((s.lhs, tmp, self.litdesc(r)))
        for lhs, tmp, d in vals:
            out += self.assign(lhs, N(tmp), d)
        return out

    def s_IfStatNode(self, n):
        orelse = self.ss(n.else_clause) if n.else_clause is not None else []
        for c in reversed(n.if_clauses):
            orelse = [ast.If(test=self.boolval(c.condition), body=self.ss(c.body) or [ast.Pass()], orelse=orelse)]
        return orelse

    def s_ExprStatNode(self, n):
        return [ast.Expr(value=self.x(n.expr))]

    def s_ReturnStatNode(self, n):
        if n.value is None:
            return [ast.Return(value=K(None))]
        return [ast.Return(value=self.conv(n.value, self.ret))]

    def s_RaiseStatNode(self, n):
        return [ast.Raise(exc=self.x(n.exc_type) if n.exc_type is not None else None, cause=None)]

    def s_BreakStatNode(self, n):
        return [ast.Break()]

    def s_ContinueStatNode(self, n):
        return [ast.Continue()]

    def s_WhileStatNode(self, n):
        return [ast.While(test=self.boolval(n.condition), body=self.ss(n.body) or [ast.Pass()],
                          orelse=self.ss(n.else_clause) if n.else_clause is not None else [])]

    def s_ForInStatNode(self, n):
        it = n.iterator
        seq = it.sequence
        orelse = self.ss(n.else_clause) if n.else_clause is not None else []
        d = desc(n.target.type)
        if type(seq).__name__ == 'SimpleCallNode' and type(seq.function).__name__ == 'NameNode' and seq.function.name == 'range':
            args = []
            for a in (seq.arg_tuple.args if seq.arg_tuple is not None else seq.args):
                if type(a).__name__ == 'CoerceToPyTypeNode':
                    a = a.arg
                args.append(self.x(a))
            itx = C('range', K(d), *args)
            if type(n.target).__name__ != 'NameNode':
                self.fail(n)
            return [ast.For(target=S(n.target.name), iter=itx, body=self.ss(n.body) or [ast.Pass()], orelse=orelse)]
        if d == 'o' and type(n.target).__name__ == 'NameNode' and desc(seq.type) == 'o':
            return [ast.For(target=S(n.target.name), iter=self.x(seq), body=self.ss(n.body) or [ast.Pass()], orelse=orelse)]
        self.fail(n)

    def s_CVarDefNode(self, n):
        return []

    def s_CDefExternNode(self, n):
        return []

    def s_CriticalSectionStatNode(self, n):
        return self.ss(n.body)

    def s_AssertStatNode(self, n):
        return [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=self.boolval(n.condition)),
                       body=[ast.Raise(exc=ast.Call(func=N('AssertionError'), args=[], keywords=[]), cause=None)], orelse=[])]

    # ------------------------------------------------------------ function
    def function(self):
        node = self.node
        t = type(node).__name__
        sc = node.local_scope
        if t == 'CFuncDefNode':
            args = [(a.name or a.declarator.name if hasattr(a, 'name') else a.declarator.name, desc(a.type), a.default)
                    for a in node.cfunc_declarator.args]
            self.ret = desc(node.type.return_type)
            name = node.entry.name
        else:
            args = [(a.name, desc(a.type), a.default) for a in node.args]
            self.ret = 'o'
            name = node.name
            if node.star_arg or node.starstar_arg:
                self.fail(node)
        self.locals = set(k for k, e in sc.entries.items() if not e.is_type)
        pre = []
        argn = [a[0] for a in args]
        for k, e in sc.entries.items():
            if k in argn or e.is_type or k.startswith('.'):
                continue
            try:
                d = desc(e.type)
            except Unsupported:
                continue
            if d.startswith('ca:'):
                pre.append(ast.Assign(targets=[S(k)], value=C('newarray', K(d))))
        for (nm, d, df) in args:
            pass
        body = self.ss(node.body)
        if t == 'CFuncDefNode' and self.ret[0] in 'uib':
            body = body + [ast.Return(value=K(0))]
        defaults = [self.x(df) for _, _, df in args if df is not None]
        f = ast.FunctionDef(
            name=str('_F__' + name), args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=str(a)) for a in argn], vararg=None, kwonlyargs=[],
                                                   kw_defaults=[], kwarg=None, defaults=defaults),
            body=(pre + body) or [ast.Pass()], decorator_list=[], returns=None, type_params=[])
        return name, f, args


class ModTr:
    def __init__(self, path, modname):
        self.name = modname
        self.tree = tree(path, modname)
        self.scope = self.tree.scope
        self.consts = {}
        self.cfuncs = {}
        self.funcs = {}       # name -> (node, directives, kind)
        self.classes = {}
        self.errors = {}
        self.assigns = []
        self.walk(self.tree.body, {'boundscheck': True, 'wraparound': True})

    def walk(self, n, dirs):
        t = type(n).__name__
        if t == 'StatListNode':
            for s in n.stats:
                self.walk(s, dirs)
        elif t == 'CompilerDirectivesNode':
            d = dict(dirs)
            d.update(n.directives)
            self.walk(n.body, d)
        elif t == 'CFuncDefNode':
            nm = n.entry.name
            if n.entry.scope is not self.scope:
                return
            self.cfuncs[nm] = n
            self.funcs[nm] = (n, dirs, 'cpdef' if n.overridable else 'cdef')
        elif t == 'SingleAssignmentNode':
            if type(n.lhs).__name__ == 'NameNode' and not n.lhs.name.startswith('__') and n.lhs.name not in self.funcs:
                self.assigns.append((n.lhs.name, n, dirs))
        elif t == 'DefNode':
            if n.name in self.cfuncs or n.name.startswith('__'):
                return
            self.funcs[n.name] = (n, dirs, 'def')
        elif t == 'CEnumDefNode':
            for it in n.items:
                v = it.value
                if v is not None and isinstance(v.constant_result, int):
                    self.consts[it.name] = v.constant_result
        elif t == 'CClassDefNode':
            sc = n.scope
            self.classes[n.class_name] = {e.name: desc(e.type) for e in sc.var_entries}

    def build(self):
        """python module AST with all translatable functions, and the errors of the others"""
        from .instrument import Rewriter
        body = []
        sigs = {}
        for nm, (node, dirs, kind) in self.funcs.items():
            try:
                tr = FnTr(self, node, dirs)
                name, f, args = tr.function()
                f = Rewriter().visit(f)
                body.append(f)
                sigs[nm] = (kind, [(a, d) for a, d, _ in args], tr.ret)
            except Unsupported as x:
                self.errors[nm] = str(x)
            except (AttributeError, KeyError, TypeError, NotImplementedError) as x:
                self.errors[nm] = 'front end: %r' % (x,)
        pre = []
        for nm, n, dirs in self.assigns:
            try:
                tr = FnTr(self, None, dirs)
                d = desc(n.lhs.type)
                e = tr.conv(n.rhs, d) if d != 'o' else tr.topy(n.rhs)
                pre.append(ast.Assign(targets=[S(nm)], value=e))
            except (Unsupported, AttributeError, KeyError, TypeError, NotImplementedError) as x:
                self.errors[nm] = 'module variable: %s' % x
        m = ast.Module(body=body + pre, type_ignores=[])
        ast.fix_missing_locations(m)
        return m, sigs


def translate(path, modname):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _cache:
        m = ModTr(path, modname)
        # enum constants declared in an anonymous cdef enum
        for k, e in m.scope.entries.items():
            if getattr(e, 'is_const', False) and k not in m.consts:
                v = getattr(e, 'value_node', None)
                if v is not None and isinstance(v.constant_result, int):
                    m.consts[k] = v.constant_result
        tr, sigs = m.build()
        _cache[key] = (m, tr, sigs, compile(tr, path, 'exec'))
    return _cache[key]


def load(loader, path, modname, overrides=None):
    """dict with the Python-visible functions of the module and the C-level ones as `_F__name`.
    overrides: name -> function used at call sites instead of the body (contracts)"""
    from . import cops, instrument, shims
    m, tr, sigs, code = translate(path, modname)
    ops = cops.Ops(m)
    g = {'__name__': modname, '__builtins__': loader.builtins, '_C__': ops, instrument.L: shims.Op}
    g['np'] = g['numpy'] = loader.imp('numpy') if hasattr(loader, 'imp') else None
    exec(code, g)
    for nm in list(g):
        if nm.startswith('_F__'):
            for w in unresolved(g[nm].__code__):
                if w not in g and w not in g['__builtins__'] and w[4:] not in m.errors:
                    m.errors.setdefault(nm[4:], 'name %s' % w)
    for nm, msg in m.errors.items():
        g['_F__' + nm] = stub(nm, msg)
    raw = {k[4:]: v for k, v in g.items() if k.startswith('_F__')}
    if overrides:
        for k, v in overrides.items():
            g['_F__' + k] = v
    py = {}
    for nm, (kind, args, ret) in sigs.items():
        if kind != 'cdef':
            py[nm] = cops.pywrapper(nm, g['_F__' + nm], args, ret)
    for nm in m.errors:
        py[nm] = stub(nm, m.errors[nm])
    return py, raw, g, m


def unresolved(code):
    import dis
    for i in dis.get_instructions(code):
        if i.opname == 'LOAD_GLOBAL' or i.opname == 'LOAD_NAME':
            yield i.argval
    for c in code.co_consts:
        if isinstance(c, type(code)):
            yield from unresolved(c)


def stub(nm, msg):
    def f(*a, **k):
        raise Unsupported('compiled function %s: %s' % (nm, msg))
    return f


def pyxpath(name):
    repo = os.environ.get('VERIF_REPO', '/repo')
    return os.path.join(repo, 'src', *name.split('.')) + '.pyx'


def module(loader, name):
    from .shims import mkmodule
    from . import contracts
    m = mkmodule(name)
    try:
        py, raw, g, mt = load(loader, pyxpath(name), name, contracts.coverrides(name))
    except Exception as x:
        if isinstance(x, Unsupported):
            raise
        raise Unsupported('front end cannot translate %s: %r' % (name, x))
    m.__dict__.update(py)
    return m
