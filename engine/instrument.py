"""Mechanical rewriting of the real source text so that it can be executed on symbolic values.

The rewriting keeps every expression and statement of the source; it only reifies control
constructs whose native meaning needs concrete values:
  for/while loops  -> calls with the body as a closure over the function's own variables
  comprehensions   -> calls with the element expression as a lambda
  [..] {..} displays inside functions -> engine list / dict with the same items
  in / not in      -> helper (decided by the engine on symbolic operands)
  yield            -> append to the list of yielded values (generators run eagerly)
"""
import ast

L = '_L__'


def call(name, *args):
    return ast.Call(func=ast.Attribute(value=ast.Name(id=L, ctx=ast.Load()), attr=name, ctx=ast.Load()),
                    args=list(args), keywords=[])


def name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def args_of(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names], vararg=None,
                         kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])


class Stores(ast.NodeVisitor):
    """names bound in a block, not looking into nested scopes"""
    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    def visit_ClassDef(self, n):
        self.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        self.visit(n.generators[0].iter)
    visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

    def visit_ExceptHandler(self, n):
        if n.name:
            self.add(n.name)
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split('.')[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.add(a.asname or a.name)

    def visit_Global(self, n):
        raise NotImplementedError('global statement')


def stores(nodes):
    s = Stores()
    for n in nodes:
        s.visit(n)
    return s.names


class HasYield(ast.NodeVisitor):
    def __init__(self):
        self.y = False

    def visit_Yield(self, n):
        self.y = True

    def visit_YieldFrom(self, n):
        self.y = True

    def visit_FunctionDef(self, n):
        pass

    def visit_Lambda(self, n):
        pass


def has_yield(body):
    v = HasYield()
    for n in body:
        v.visit(n)
    return v.y


class Rewriter(ast.NodeTransformer):
    def __init__(self, transform_displays=True, lazy_generators=False):
        self.fn = []            # stack of dicts per function
        self.k = 0
        self.loop = []          # stack: are we directly inside a rewritten loop body

    def infn(self):
        return bool(self.fn)

    # ---------------------------------------------------------------- functions
    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args) if self.infn() else node.args
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs:
            a.annotation = None
        if node.args.vararg:
            node.args.vararg.annotation = None
        if node.args.kwarg:
            node.args.kwarg.annotation = None
        gen = has_yield(node.body)
        params = [a.arg for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs]
        if node.args.vararg:
            params.append(node.args.vararg.arg)
        if node.args.kwarg:
            params.append(node.args.kwarg.arg)
        self.fn.append(dict(gen=gen, cells=set(), nonlocals=set()))
        sv, self.loop = self.loop, []
        for s in node.body:
            if isinstance(s, ast.Nonlocal):
                self.fn[-1]['nonlocals'] |= set(s.names)
        doc = []
        body = list(node.body)
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str):
            doc = [body.pop(0)]
        body = self.block(body)
        info = self.fn.pop()
        self.loop = sv
        pre = []
        cells = sorted(c for c in info['cells'] if c not in params and c not in info['nonlocals'])
        if cells:
            pre.append(ast.If(test=ast.Constant(value=False),
                              body=[ast.Assign(targets=[name(c, ast.Store())], value=ast.Constant(value=None))
                                    for c in cells], orelse=[]))
        if gen:
            pre.insert(0, ast.Assign(targets=[name('_gen__', ast.Store())], value=call('genlist')))
            body = body + [ast.Return(value=name('_gen__'))]
        node.body = (doc + pre + body) or [ast.Pass()]
        return node

    def visit_AsyncFunctionDef(self, node):
        raise NotImplementedError('async')

    def visit_ClassDef(self, node):
        sv, self.fn = self.fn, []
        node.body = [self.visit(s) for s in node.body]
        self.fn = sv
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        return node

    def visit_AnnAssign(self, node):
        if not self.infn():
            if node.value is None:
                return ast.Pass()
            return ast.Assign(targets=[node.target], value=node.value)
        self.generic_visit(node)
        if node.value is None:
            return ast.Pass()
        return ast.Assign(targets=[node.target], value=node.value)

    def visit_Lambda(self, node):
        if not self.infn():
            self.fn.append(dict(gen=False, cells=set(), nonlocals=set()))
            node.body = self.visit(node.body)
            self.fn.pop()
            return node
        node.body = self.visit(node.body)
        return node

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out += r
            else:
                out.append(r)
        return out

    # ---------------------------------------------------------------- loops
    def _loop_fn(self, node, body, first):
        """nested function for a loop body"""
        self.k += 1
        fname = '_body%d__' % self.k
        names = stores(body + ([node.target] if isinstance(node, ast.For) else []))
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Nonlocal):
                    raise NotImplementedError('nonlocal in loop')
        self.fn[-1]['cells'] |= set(names)
        self.loop.append(True)
        inner = self.block(body)
        self.loop.pop()
        nb = []
        if names:
            nb.append(ast.Nonlocal(names=list(names)))
        nb += first + inner
        f = ast.FunctionDef(name=fname, args=args_of(['_it__']), body=nb or [ast.Pass()], decorator_list=[],
                            returns=None, type_params=[])
        return fname, f

    def _after(self, orelse):
        """statements that act on the loop result _r__"""
        rv = name('_r__')
        out = []
        ret = ast.If(test=call('is_ret', rv),
                     body=[self.mk_return(ast.Attribute(value=rv, attr='value', ctx=ast.Load()), raw=True)], orelse=[])
        out.append(ret)
        if orelse:
            out.append(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=call('is_brk', name('_r__'))),
                              body=self.block(orelse), orelse=[]))
        return out

    def mk_return(self, value, raw=False):
        if self.loop:
            return ast.Return(value=call('ret', value if value is not None else ast.Constant(value=None)))
        if self.fn[-1]['gen']:
            return ast.Return(value=name('_gen__'))
        return ast.Return(value=value)

    def visit_For(self, node):
        if not self.infn():
            return self.generic_visit(node)
        it = self.visit(node.iter)
        target = node.target
        first = [ast.Assign(targets=[target], value=name('_it__') if isinstance(target, ast.Name)
                            else call('unpack', name('_it__'), ast.Constant(value=self._arity(target))))]
        fname, f = self._loop_fn(node, node.body, first)
        asg = ast.Assign(targets=[name('_r__', ast.Store())], value=call('for_', it, name(fname)))
        return [f, asg] + self._after(node.orelse)

    def _arity(self, target):
        if isinstance(target, (ast.Tuple, ast.List)) and not any(isinstance(e, ast.Starred) for e in target.elts):
            return len(target.elts)
        return None

    def visit_While(self, node):
        if not self.infn():
            return self.generic_visit(node)
        fname, f = self._loop_fn(node, node.body, [])
        self.k += 1
        cname = '_cond%d__' % self.k
        names = stores([ast.Expr(value=node.test)])
        cb = []
        if names:
            self.fn[-1]['cells'] |= set(names)
            cb.append(ast.Nonlocal(names=names))
        cb.append(ast.Return(value=self.visit(node.test)))
        c = ast.FunctionDef(name=cname, args=args_of([]), body=cb, decorator_list=[], returns=None, type_params=[])
        asg = ast.Assign(targets=[name('_r__', ast.Store())], value=call('while_', name(cname), name(fname)))
        return [f, c, asg] + self._after(node.orelse)

    def visit_Continue(self, node):
        return ast.Return(value=ast.Constant(value=None)) if self.loop else node

    def visit_Break(self, node):
        return ast.Return(value=ast.Attribute(value=name(L), attr='BREAK', ctx=ast.Load())) if self.loop else node

    def visit_Return(self, node):
        v = self.visit(node.value) if node.value is not None else None
        return self.mk_return(v)

    def visit_Yield(self, node):
        v = self.visit(node.value) if node.value is not None else ast.Constant(value=None)
        return ast.Call(func=ast.Attribute(value=name('_gen__'), attr='append', ctx=ast.Load()), args=[v], keywords=[])

    def visit_YieldFrom(self, node):
        v = self.visit(node.value)
        return ast.Call(func=ast.Attribute(value=name('_gen__'), attr='extend', ctx=ast.Load()), args=[v], keywords=[])

    # ---------------------------------------------------------------- comprehensions
    def _comp(self, gens, leaf):
        g = gens[0]
        if g.is_async:
            raise NotImplementedError('async')
        it = self.visit(g.iter)
        if len(gens) > 1:
            elt = call('flat', self._comp(gens[1:], leaf))
        else:
            elt = leaf()
        for c in reversed(g.ifs):
            elt = ast.IfExp(test=self.visit(c), body=elt, orelse=ast.Attribute(value=name(L), attr='SKIP', ctx=ast.Load()))
        if isinstance(g.target, ast.Name):
            lam = ast.Lambda(args=args_of([g.target.id]), body=elt)
        else:
            lam = self._destruct(g.target, elt)
        return call('comp', it, lam)

    def _destruct(self, target, elt):
        self.k += 1
        p = '_d%d__' % self.k
        names = []
        inner = []
        for e in target.elts:
            if isinstance(e, ast.Name):
                names.append(e.id)
            elif isinstance(e, (ast.Tuple, ast.List)):
                self.k += 1
                q = '_d%d__' % self.k
                names.append(q)
                inner.append((q, e))
            else:
                raise NotImplementedError('comprehension target')
        for q, e in inner:
            elt = ast.Call(func=self._destruct(e, elt), args=[name(q)], keywords=[])
        f = ast.Lambda(args=args_of(names), body=elt)
        return ast.Lambda(args=args_of([p]), body=ast.Call(
            func=f, args=[ast.Starred(value=call('unpack', name(p), ast.Constant(value=len(names))), ctx=ast.Load())],
            keywords=[]))

    def visit_ListComp(self, node):
        if not self.infn():
            return node
        return self._comp(node.generators, lambda: self.visit(node.elt))

    visit_GeneratorExp = visit_ListComp

    def visit_SetComp(self, node):
        if not self.infn():
            return node
        return call('mkset', self._comp(node.generators, lambda: self.visit(node.elt)))

    def visit_DictComp(self, node):
        if not self.infn():
            return node
        return call('mkdict', self._comp(node.generators, lambda: ast.Tuple(
            elts=[self.visit(node.key), self.visit(node.value)], ctx=ast.Load())))

    # ---------------------------------------------------------------- displays
    def visit_List(self, node):
        self.generic_visit(node)
        if not self.infn() or not isinstance(node.ctx, ast.Load):
            return node
        return call('mklist', ast.Tuple(elts=node.elts, ctx=ast.Load()))

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not self.infn():
            return node
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(ast.Tuple(elts=[v], ctx=ast.Load()))
            else:
                items.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return call('mkdict_items', ast.Tuple(elts=items, ctx=ast.Load()))

    def visit_Set(self, node):
        self.generic_visit(node)
        if not self.infn():
            return node
        return call('mkset', ast.Tuple(elts=node.elts, ctx=ast.Load()))

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not self.infn():
            return node
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            return call('contains' if isinstance(node.ops[0], ast.In) else 'not_contains', node.comparators[0], node.left)
        return node

    def visit_Starred(self, node):
        self.generic_visit(node)
        if self.infn() and isinstance(node.ctx, ast.Load):
            node.value = call('star', node.value)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if self.infn():
            for k in node.keywords:
                if k.arg is None:
                    k.value = call('dstar', k.value)
        return node

    def visit_JoinedStr(self, node):
        return self.generic_visit(node)

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = ast.Name(id='Exception', ctx=ast.Load())
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.infn():
            if isinstance(node.op, ast.Mod):
                return call('mod', node.left, node.right)
            if isinstance(node.op, ast.LShift):
                return call('lshift', node.left, node.right)
            if isinstance(node.op, ast.Mult):
                return call('mult', node.left, node.right)
            if isinstance(node.op, ast.Pow):
                return call('power', node.left, node.right)
            if isinstance(node.op, ast.Add):
                return call('add', node.left, node.right)
        return node


def transform(src, filename):
    tree = ast.parse(src, filename)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')
