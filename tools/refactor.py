"""Development tool: behaviour-preserving rewrites of a scratch copy.

usage: refactor.py DIR MODE...

Modes (all files of DIR/wake_t are rewritten in place):
  plain    unparse only (comments and layout vanish)
  locals   rename the local variables of every function
  private  rename private methods, functions and attributes
  while    for i in range(n) -> while loops
  invert   if c: A else: B -> if not c: B else: A
  temps    return expr / assignments through temporaries
  augment  x += y -> x = x + y for scalar names
  assoc    (a*b)*c -> a*(b*c), a*b -> b*a   (rounding may change)
  vector   a/b -> a*(1/b) with b a number literal (rounding may change)
  helper   bodies of plain functions moved to a helper function
The checks have to stay quiet on every one of them.
"""
import ast
import os
import sys

HOOKS = {'_gather', '_initialize_properties', '_evolve_properties',
         '_calculate_field', '_calculate_wakefield', '_pre_gather',
         '_get_openpmd_diagnostics_data', '_dt_update_input',
         '_evolve_laser', '_envelope_function'}


def is_jit(f):
    return any('njit' in ast.unparse(d) or 'jit' in ast.unparse(d)
               for d in f.decorator_list)


class Locals(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        args = {a.arg for a in f.args.args + f.args.kwonlyargs
                + f.args.posonlyargs}
        for a in (f.args.vararg, f.args.kwarg):
            if a:
                args.add(a.arg)
        if any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.Global,
                              ast.Nonlocal, ast.ListComp, ast.GeneratorExp,
                              ast.DictComp, ast.ClassDef))
               for b in f.body for n in ast.walk(b)):
            return f
        names = {n.id for b in f.body for n in ast.walk(b)
                 if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        names -= args

        class R(ast.NodeTransformer):
            def visit_Name(self, n):
                if n.id in names:
                    n.id = n.id + '_v'
                return n
        for b in f.body:
            R().visit(b)
        return f


class While(ast.NodeTransformer):
    k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        if (isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name)
                and n.iter.func.id == 'range' and len(n.iter.args) == 1
                and isinstance(n.target, ast.Name) and not n.orelse
                and not any(isinstance(m, ast.Continue)
                            for m in ast.walk(n))):
            While.k += 1
            c = '_it%d' % While.k
            e = '_end%d' % While.k
            src = ast.parse(
                f'{c} = 0\n{e} = {ast.unparse(n.iter.args[0])}\n'
                f'while {c} < {e}:\n    {n.target.id} = {c}\n'
                f'    {c} += 1\n    pass').body
            src[2].body = src[2].body[:2] + n.body
            return src
        return n


class Invert(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1
                             and isinstance(n.orelse[0], ast.If)):
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
        return n


class Temps(ast.NodeTransformer):
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        return ast.parse('ret_ = %s\nreturn ret_' % ast.unparse(n.value)).body

    def visit_Assign(self, n):
        if isinstance(n.value, ast.BinOp) and len(n.targets) == 1 and \
                isinstance(n.targets[0], (ast.Name, ast.Subscript)) and \
                isinstance(n.value.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            v = n.value
            if isinstance(v.left, (ast.Name, ast.Constant)):
                return n
            t = 'tmp_%d' % n.lineno
            a = ast.parse('%s = %s' % (t, ast.unparse(v.left))).body[0]
            v.left = ast.Name(t, ast.Load())
            return [a, n]
        return n

    def visit_Lambda(self, n):
        return n

    def visit_ClassDef(self, n):
        for b in n.body:
            if isinstance(b, ast.FunctionDef):
                self.visit(b)
        return n

    def visit_Module(self, n):
        for b in n.body:
            if isinstance(b, (ast.FunctionDef, ast.ClassDef)):
                self.visit(b)
        return n


class Assoc(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)

        def ok(e):
            return not any(isinstance(m, (ast.Constant)) and isinstance(
                m.value, str) or isinstance(m, (ast.List, ast.Tuple))
                for m in ast.walk(e))
        if isinstance(n.op, ast.Mult) and ok(n):
            if isinstance(n.left, ast.BinOp) and isinstance(
                    n.left.op, ast.Mult):
                a, b, c = n.left.left, n.left.right, n.right
                return ast.BinOp(a, ast.Mult(), ast.BinOp(b, ast.Mult(), c))
            n.left, n.right = n.right, n.left
        return n


class Recip(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and isinstance(n.right, ast.Constant) \
                and isinstance(n.right.value, (int, float)):
            return ast.BinOp(n.left, ast.Mult(), ast.Constant(
                1./n.right.value))
        return n


class Augment(ast.NodeTransformer):
    """Only for loop counters and scalars of compiled functions."""

    def visit_FunctionDef(self, f):
        if not is_jit(f):
            return f
        scal = {n.targets[0].id for b in f.body for n in ast.walk(b)
                if isinstance(n, ast.Assign)
                and isinstance(n.targets[0], ast.Name)
                and isinstance(n.value, (ast.Constant,))}

        class R(ast.NodeTransformer):
            def visit_AugAssign(self, n):
                if (isinstance(n.target, ast.Name) and n.target.id in scal) \
                        or (isinstance(n.target, ast.Subscript)
                            and ':' not in ast.unparse(n.target)
                            and not in_par[0]):
                    t = ast.parse(ast.unparse(n.target), mode='eval').body
                    return ast.Assign([n.target], ast.BinOp(t, n.op, n.value))
                return n
        in_par = [any('prange' in ast.unparse(b) for b in f.body)]
        for b in f.body:
            R().visit(b)
        return f


def helper(tree):
    """def f(a): body -> def f(a): return _f_impl(a)."""
    out = []
    for n in tree.body:
        if isinstance(n, ast.FunctionDef) and not n.args.vararg and \
                not n.args.kwarg and not n.args.kwonlyargs and \
                n.args.args:
            import copy
            impl = copy.deepcopy(n)
            impl.name = n.name + '_impl'
            impl.args.defaults = []
            call = ast.Return(ast.Call(
                ast.Name(impl.name, ast.Load()),
                [ast.Name(a.arg, ast.Load()) for a in n.args.args], []))
            body = [call]
            if isinstance(n.body[0], ast.Expr) and isinstance(
                    n.body[0].value, ast.Constant):
                body = [n.body[0], call]
            if any('parallel' in ast.unparse(d) for d in n.decorator_list):
                n.decorator_list = []
            n.body = body
            out += [impl, n]
        else:
            out.append(n)
    tree.body = out
    return tree


def private_names(root):
    names = set()
    for f in files(root):
        for n in ast.walk(ast.parse(open(f).read())):
            if isinstance(n, ast.FunctionDef):
                names.add(n.name)
            if isinstance(n, ast.Attribute):
                names.add(n.attr)
            if isinstance(n, ast.Name):
                names.add(n.id)
    return {n for n in names if n.startswith('_') and not n.endswith('__')
            and n not in HOOKS and n != '_'}


def files(root):
    for d, _, fs in os.walk(os.path.join(root, 'wake_t')):
        for f in fs:
            if f.endswith('.py'):
                yield os.path.join(d, f)


def main():
    root, modes = sys.argv[1], sys.argv[2:]
    assert os.path.realpath(root) not in ('/repo', '/')
    priv = private_names(root) if 'private' in modes else ()

    class Private(ast.NodeTransformer):
        def f(self, s):
            return s + '_x' if s in priv else s

        def visit_Name(self, n):
            n.id = self.f(n.id)
            return n

        def visit_Attribute(self, n):
            self.generic_visit(n)
            n.attr = self.f(n.attr)
            return n

        def visit_FunctionDef(self, n):
            n.name = self.f(n.name)
            self.generic_visit(n)
            return n

        def visit_ImportFrom(self, n):
            for a in n.names:
                a.name = self.f(a.name)
            return n

    T = dict(locals=Locals, invert=Invert, temps=Temps, augment=Augment,
             assoc=Assoc, vector=Recip, private=Private)
    T['while'] = While
    for p in files(root):
        t = ast.parse(open(p).read())
        for m in modes:
            if m == 'helper':
                t = helper(t)
            elif m != 'plain':
                t = T[m]().visit(t)
        ast.fix_missing_locations(t)
        open(p, 'w').write(ast.unparse(t) + '\n')


if __name__ == '__main__':
    main()
