"""Symbolic derivative of a real term by a constant (sums, products, quotients, exp, ln, sqrt, tanh, If by branch)."""
import z3
from .prove import f1, RealS
from .mir import Unsupported


def D(t, x):
    memo = {}

    def d(t):
        k = t.get_id()
        if k not in memo:
            memo[k] = d1(t)
        return memo[k]

    def has(t):
        return t.get_id() == x.get_id() or any(has(c) for c in t.children())

    def d1(t):
        if t.get_id() == x.get_id():
            return z3.RealVal(1)
        if not has(t):
            return z3.RealVal(0)
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            return z3.Sum([d(c) for c in ch])
        if k == z3.Z3_OP_SUB:
            r = d(ch[0])
            for c in ch[1:]:
                r = r - d(c)
            return r
        if k == z3.Z3_OP_UMINUS:
            return -d(ch[0])
        if k == z3.Z3_OP_MUL:
            out = []
            for i, c in enumerate(ch):
                if has(c):
                    p = d(c)
                    for j, o in enumerate(ch):
                        if j != i:
                            p = p * o
                    out.append(p)
            return z3.Sum(out)
        if k == z3.Z3_OP_DIV:
            a, b = ch
            if not has(b):
                return d(a) / b
            return (d(a) * b - a * d(b)) / (b * b)
        if k == z3.Z3_OP_ITE:
            return z3.If(ch[0], d(ch[1]), d(ch[2]))
        if k == z3.Z3_OP_UNINTERPRETED and len(ch) == 1:
            n, a = t.decl().name(), ch[0]
            if n == 'exp':
                return d(a) * t
            if n == 'ln':
                return d(a) / a
            if n == 'sqrt':
                return d(a) / (2 * t)
            if n == 'tanh':
                return d(a) * (1 - t * t)
        raise Unsupported('derivative of %s' % t.decl().name())
    return d(t)
