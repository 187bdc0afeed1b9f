"""Reference meaning of expressions: an independent evaluator of the written text, cell by cell over full tables.

Values are (kind, array) pairs, kind being 'i', 'f', 'b' or 's' (text). `Skip` marks what the expression engine documents as
unsupported or defines differently from Python (see DESIGN.md), which is left out of the alphabet.
"""
import ast

import numpy as np


class Skip(Exception):
    pass


FUNCS1 = {'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'arcsin': np.arcsin, 'arccos': np.arccos, 'arctan': np.arctan,
          'sinh': np.sinh, 'cosh': np.cosh, 'tanh': np.tanh, 'arcsinh': np.arcsinh, 'arccosh': np.arccosh,
          'arctanh': np.arctanh, 'log': np.log, 'log1p': np.log1p, 'log10': np.log10, 'exp': np.exp, 'expm1': np.expm1,
          'abs': np.abs, 'sqrt': np.sqrt, 'ceil': np.ceil, 'floor': np.floor}
FUNCS2 = {'arctan2': np.arctan2, 'fmod': np.fmod}
INEXACT = set(FUNCS1) - {'abs', 'ceil', 'floor'} | {'arctan2'}


def kind_of(arr):
    k = np.asarray(arr).dtype.kind
    return {'i': 'i', 'u': 'i', 'f': 'f', 'b': 'b'}.get(k, 's')


class Evaluator(ast.NodeVisitor):
    """`leaf(node)` gives the (kind, array) of names, attributes, aggregations and dict literals"""

    def __init__(self, leaf, utilities=True):
        self.leaf, self.utilities = leaf, utilities
        self.may_reject = False  # A literal next to and/or is either rejected or honoured, depending on its position

    def run(self, text):
        with np.errstate(all='ignore'):
            return self.visit(ast.parse(text, mode='eval').body)

    def generic_visit(self, node):
        raise Skip(type(node).__name__)

    def visit_Constant(self, node):
        v = node.value
        if v is None:
            return 'f', np.float64(np.nan)
        if isinstance(v, str):
            return 's', np.array(v, dtype=object)
        return kind_of(v), np.asarray(v)

    def visit_Name(self, node):
        if node.id in ('NAN', 'nan', 'NaN', 'None', 'none'):
            return 'f', np.float64(np.nan)
        if node.id == 'NEG_INF':
            return 'f', np.float64(-np.inf)
        return self.leaf(node)

    def visit_Attribute(self, node):
        return self.leaf(node)

    def visit_Dict(self, node):
        return self.leaf(node)

    def visit_UnaryOp(self, node):
        k, v = self.visit(node.operand)
        if isinstance(node.op, ast.Not):
            if k != 'b':
                raise Skip('not on a non-boolean')
            return 'b', ~v
        if isinstance(node.op, ast.USub):
            if k not in 'if':
                raise Skip('minus on a non-number')
            return k, -v
        raise Skip('unary')

    def visit_BoolOp(self, node):
        parts = [self.visit(v) for v in node.values]
        if any(k != 'b' for k, _ in parts):
            raise Skip('and/or on a non-boolean')
        if not all(any(isinstance(x, (ast.Name, ast.Attribute)) for x in ast.walk(v)) for v in node.values):
            self.may_reject = True
        out = parts[0][1]
        for _, v in parts[1:]:
            out = (out & v) if isinstance(node.op, ast.And) else (out | v)
        return 'b', out

    def visit_BinOp(self, node):
        (k1, a), (k2, b) = self.visit(node.left), self.visit(node.right)
        ks = k1 + k2
        if 's' in ks or ks == 'bb':
            raise Skip('arithmetic of booleans or text')
        op = node.op
        if 'b' in ks:
            if isinstance(op, ast.Pow):
                raise Skip('power of a boolean')
            a, b = (np.where(v, 1, 0) if k == 'b' else v for k, v in ((k1, a), (k2, b)))
            ks = ks.replace('b', 'i')
        kind = 'f' if 'f' in ks else 'i'
        if isinstance(op, ast.Add):
            return kind, a + b
        if isinstance(op, ast.Sub):
            return kind, a - b
        if isinstance(op, ast.Mult):
            return kind, a * b
        if isinstance(op, ast.Div):
            return 'f', np.true_divide(a, b)
        if isinstance(op, ast.Pow):
            if kind == 'i' and np.any(b < 0):
                raise Skip('integer to a negative power')
            if np.any(np.abs(b) > 64):
                raise Skip('power')
            return kind, np.power(a, b) if kind == 'i' else np.power(np.asarray(a, 'f8'), b)
        raise Skip(type(op).__name__)

    def visit_Compare(self, node):
        parts = [self.visit(n) for n in [node.left] + node.comparators]
        out = None
        for (k1, a), (k2, b), op in zip(parts, parts[1:], node.ops):
            if ('s' in (k1, k2)) and (k1, k2) != ('s', 's'):
                raise Skip('text with a number')
            if (k1, k2) == ('s', 's'):
                if not isinstance(op, (ast.Eq, ast.NotEq)):
                    raise Skip('order of text')
                a, b = np.broadcast_arrays(a, b)
                v = np.array([x == y for x, y in zip(a.ravel(), b.ravel())], dtype=bool).reshape(a.shape)
                v = v if isinstance(op, ast.Eq) else ~v
            else:
                if 'b' in (k1, k2):
                    # The engine orders booleans only with == and !=, and does not mix them with numbers
                    if (k1, k2) != ('b', 'b') or not isinstance(op, (ast.Eq, ast.NotEq)):
                        raise Skip('order of booleans')
                v = {ast.Lt: np.less, ast.LtE: np.less_equal, ast.Gt: np.greater, ast.GtE: np.greater_equal,
                     ast.Eq: np.equal, ast.NotEq: np.not_equal}.get(type(op))
                if v is None:
                    raise Skip('operator')
                v = v(a, b)
            out = v if out is None else out & v
        return 'b', out

    def visit_Call(self, node):
        if isinstance(node.func, ast.Attribute):
            return self.leaf(node)
        name = node.func.id
        args = [self.visit(a) for a in node.args]
        if name == 'where' and len(args) == 3:
            (kc, c), (k1, a), (k2, b) = args
            if kc != 'b':
                raise Skip('condition')
            if k1 == 's' or k2 == 's' or (k1 == 'b') != (k2 == 'b'):
                raise Skip('where')
            return ('b' if k1 == 'b' else 'f' if 'f' in (k1, k2) else 'i'), np.where(c, a, b)
        if name in FUNCS1 and len(args) == 1:
            k, v = args[0]
            if k not in 'if':
                raise Skip('function of a non-number')
            if name == 'abs':
                return k, np.abs(v)
            return 'f', FUNCS1[name](np.asarray(v, 'f8'))
        if name in FUNCS2 and len(args) == 2:
            (k1, a), (k2, b) = args
            if k1 not in 'if' or k2 not in 'if':
                raise Skip('function of a non-number')
            return 'f', FUNCS2[name](np.asarray(a, 'f8'), np.asarray(b, 'f8'))
        raise Skip(name)
