"""Source-to-source loader.

Every module of the package under test is read from its *current* source file, its AST is
rewritten so that each operation whose operands may be symbolic goes through ``__sx__`` (the runtime
in symx.rt), compiled and executed by CPython.  Control flow, classes, exceptions, generators,
comprehensions ... therefore keep CPython's own semantics; only the operations CPython would hand to
C code (calls, subscripts, `in`, %-formatting, f-strings, set operators, dict/set comprehensions)
are intercepted.  Harness modules are loaded the same way.
"""
import ast
import hashlib
import importlib.abc
import importlib.util
import os
import sys

SX = '__sx__'


def _attr(name):
    return ast.Attribute(value=ast.Name(id=SX, ctx=ast.Load()), attr=name, ctx=ast.Load())


def _call(name, *args):
    return ast.Call(func=_attr(name), args=list(args), keywords=[])


CMP = {ast.Eq: 'eq', ast.NotEq: 'ne', ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge'}
BIN = {ast.Mod: 'mod', ast.Sub: 'sub', ast.BitAnd: 'and_', ast.BitOr: 'or_', ast.BitXor: 'xor'}
RAW_CALLS = {'super', 'locals', 'globals', 'vars', 'exec', 'eval'}


class Rewrite(ast.NodeTransformer):
    def __init__(self):
        self.functions = {}
        self._stack = []

    # -- bookkeeping: which functions exist, and a hook at entry so coverage can be reported
    def _fn(self, node):
        self._stack.append(node.name)
        qn = '.'.join(self._stack)
        first = node.lineno
        # decorators, defaults, annotations are evaluated outside
        self.generic_visit(node)
        self._stack.pop()
        self.functions[qn] = (first, node.end_lineno)
        enter = ast.Expr(_call('enter', ast.Constant(qn), ast.Name(id='__name__', ctx=ast.Load())))
        i = 0
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(
                getattr(node.body[0], 'value', None), ast.Constant) and isinstance(
                node.body[0].value.value, str):
            i = 1
        node.body.insert(i, enter)
        return node

    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn

    def visit_ClassDef(self, node):
        self._stack.append(node.name)
        self.generic_visit(node)
        self._stack.pop()
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in RAW_CALLS:
            return node
        return ast.Call(func=_attr('call'), args=[node.func] + node.args, keywords=node.keywords)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op, a, b = node.ops[0], node.left, node.comparators[0]
            if isinstance(op, ast.In):
                return _call('contains', b, a)
            if isinstance(op, ast.NotIn):
                return ast.UnaryOp(op=ast.Not(), operand=_call('contains', b, a))
            n = CMP.get(type(op))
            if n:
                return _call(n, a, b)
            return node
        # a < b <= c : and-chain with temporaries
        parts, left = [], node.left
        n = len(node.ops)
        for i, (op, right) in enumerate(zip(node.ops, node.comparators)):
            if i < n - 1:
                self._tmp = getattr(self, '_tmp', 0) + 1
                name = '__sx_t%d' % self._tmp
                r = ast.NamedExpr(target=ast.Name(id=name, ctx=ast.Store()), value=right)
                nxt = ast.Name(id=name, ctx=ast.Load())
            else:
                r, nxt = right, None
            if isinstance(op, ast.In):
                # left must be evaluated before right: use eager helper
                e = _call('in_', left, r)
            elif isinstance(op, ast.NotIn):
                e = ast.UnaryOp(op=ast.Not(), operand=_call('in_', left, r))
            elif type(op) in CMP:
                e = _call(CMP[type(op)], left, r)
            else:
                e = ast.Compare(left=left, ops=[op], comparators=[r])
            parts.append(e)
            left = nxt
        return ast.BoolOp(op=ast.And(), values=parts)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        n = BIN.get(type(node.op))
        if n:
            return _call(n, node.left, node.right)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return _call('getitem', node.value, self._slice(node.slice))
        return node

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            c = lambda x: x if x is not None else ast.Constant(None)
            return ast.Call(func=_attr('slice'), args=[c(s.lower), c(s.upper), c(s.step)],
                            keywords=[])
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self._slice(e) for e in s.elts], ctx=ast.Load())
        return s

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            # python evaluates the value first
            return ast.Expr(_call('setitem_v', node.value, t.value, self._slice(t.slice)))
        if any(isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store)
               for t in node.targets for n in ast.walk(t)):
            # general targets: bind temporaries, then store one by one
            out, post = [], []
            new_targets = [self._untarget(t, post) for t in node.targets]
            node.targets = new_targets
            return [node] + post
        return node

    def _untarget(self, t, post):
        if isinstance(t, ast.Subscript):
            self._tmp = getattr(self, '_tmp', 0) + 1
            name = '__sx_t%d' % self._tmp
            post.append(ast.Expr(_call('setitem_v', ast.Name(id=name, ctx=ast.Load()), t.value,
                                       self._slice(t.slice))))
            return ast.Name(id=name, ctx=ast.Store())
        if isinstance(t, (ast.Tuple, ast.List)):
            t.elts = [self._untarget(e, post) for e in t.elts]
        elif isinstance(t, ast.Starred):
            t.value = self._untarget(t.value, post)
        return t

    def visit_AnnAssign(self, node):
        if node.value is not None and isinstance(node.target, ast.Subscript):
            return self.visit_Assign(ast.copy_location(
                ast.Assign(targets=[node.target], value=node.value), node))
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        opn = type(node.op).__name__
        if isinstance(node.target, ast.Subscript):
            t = node.target
            return ast.Expr(_call('augitem', ast.Constant(opn), t.value, self._slice(t.slice),
                                  node.value))
        if isinstance(node.target, ast.Name):
            load = ast.Name(id=node.target.id, ctx=ast.Load())
            return ast.Assign(targets=[node.target],
                              value=_call('aug', ast.Constant(opn), load, node.value))
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(_call('delitem', t.value, self._slice(t.slice))))
            else:
                out.append(ast.Delete(targets=[t]))
        return out

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                spec = self.visit(spec) if spec is not None else ast.Constant('')
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec],
                                       ctx=ast.Load()))
        return _call('fstr', *parts)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return _call('mkdict', ast.ListComp(
            elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return _call('mkset', ast.ListComp(elt=node.elt, generators=node.generators))

    def visit_Set(self, node):
        self.generic_visit(node)
        return _call('mkset', ast.List(elts=node.elts, ctx=ast.Load()))

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            parts = []
            for k, v in zip(node.keys, node.values):
                if k is None:
                    parts.append(ast.Tuple(elts=[ast.Constant(True), v], ctx=ast.Load()))
                else:
                    parts.append(ast.Tuple(elts=[ast.Constant(False), ast.Tuple(
                        elts=[k, v], ctx=ast.Load())], ctx=ast.Load()))
            return _call('mergedict', *parts)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        return _call('mkdict', ast.List(elts=[ast.Tuple(elts=[k, v], ctx=ast.Load())
                                              for k, v in zip(node.keys, node.values)],
                                        ctx=ast.Load()))

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:  # bare except must not swallow the engine's control exceptions
            node.type = ast.Name(id='Exception', ctx=ast.Load())
        elif isinstance(node.type, ast.Name) and node.type.id == 'BaseException':
            node.type = ast.Name(id='Exception', ctx=ast.Load())
        return node


FUNCTIONS = {}   # module -> {qualname: (first line, last line)}
SOURCES = {}     # module -> (path, sha256)


def rewrite(src, filename, modname):
    tree = ast.parse(src, filename)
    rw = Rewrite()
    tree = rw.visit(tree)
    ast.fix_missing_locations(tree)
    FUNCTIONS[modname] = rw.functions
    SOURCES[modname] = (filename, hashlib.sha256(src.encode()).hexdigest())
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return compile(tree, filename, 'exec')


class Loader(importlib.abc.Loader):
    def __init__(self, path, is_pkg):
        self.path, self.is_pkg = path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from symx import rt
        module.__dict__[SX] = rt
        with open(self.path, encoding='utf-8') as fp:
            src = fp.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            code = rewrite(src, self.path, module.__name__)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots   # {top-level package: directory that holds it}

    def find_spec(self, name, path=None, target=None):
        top = name.split('.')[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *name.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            p, pkg = os.path.join(base, '__init__.py'), True
        elif os.path.isfile(base + '.py'):
            p, pkg = base + '.py', False
        else:
            return None
        spec = importlib.util.spec_from_file_location(
            name, p, loader=Loader(p, pkg),
            submodule_search_locations=[base] if pkg else None)
        return spec


def install(roots):
    sys.meta_path.insert(0, Finder(roots))
