"""Solver terms: linear integer terms and boolean formulas over finite-domain
integer variables, with range sets for unary constraints, and their z3 form."""
from __future__ import annotations

import z3

NEG = -(1 << 120)
POS = 1 << 120

# ---------------------------------------------------------------- range sets
# a range set is a sorted tuple of disjoint, non-adjacent (lo, hi) pairs


def rs_norm(pairs):
    out = []
    for lo, hi in sorted(p for p in pairs if p[0] <= p[1]):
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def rs_vals(vals):
    return rs_norm([(v, v) for v in vals])


def rs_and(a, b):
    if len(a) == 1 and len(b) == 1:
        lo = a[0][0] if a[0][0] > b[0][0] else b[0][0]
        hi = a[0][1] if a[0][1] < b[0][1] else b[0][1]
        return ((lo, hi),) if lo <= hi else ()
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def rs_not(a):
    out = []
    cur = NEG
    for lo, hi in a:
        if cur <= lo - 1:
            out.append((cur, lo - 1))
        cur = hi + 1
    if cur <= POS:
        out.append((cur, POS))
    return tuple(out)


def rs_or(a, b):
    return rs_norm(a + b)


def rs_has(a, v):
    for lo, hi in a:
        if v <= hi:
            return v >= lo
    return False


def rs_size(a):
    return sum(hi - lo + 1 for lo, hi in a)


# ---------------------------------------------------------------- nodes


class Node:
    __slots__ = ("op", "a", "b", "c", "_vars", "_z", "_neg", "_h")

    def __init__(self, op, a=None, b=None, c=None):
        self.op = op
        self.a = a
        self.b = b
        self.c = c
        self._vars = None
        self._z = None
        self._neg = None

    def __repr__(self):
        return show(self)


_INTERN = {}


def mk(op, a=None, b=None, c=None):
    # variables are interned by name, so nested nodes compare by identity
    k = (op, a, b, c)
    n = _INTERN.get(k)
    if n is None:
        n = _INTERN[k] = Node(op, a, b, c)
    return n


def reset_intern():
    _INTERN.clear()


def intern_size():
    return len(_INTERN)


def var(name, ranges):
    """Integer variable with a finite domain."""
    return mk("var", name, ranges)


# int terms: python int | Node('var') | Node('lin', ((atom,coef),...), const)
#            | Node('ite', cond, t, e) | Node('div', t, k) | Node('mod', t, k)
#            | Node('mul', t, t)


def lin_parts(t):
    if type(t) is int:
        return (), t
    if t.op == "lin":
        return t.a, t.b
    return ((t, 1),), 0


def mk_lin(parts, const):
    if not parts:
        return const
    if len(parts) == 1 and parts[0][1] == 1 and const == 0:
        return parts[0][0]
    return mk("lin", tuple(parts), const)


def t_add(x, y, ky=1):
    """x + ky*y"""
    if type(x) is int and type(y) is int:
        return x + ky * y
    px, cx = lin_parts(x)
    py, cy = lin_parts(y)
    const = cx + ky * cy
    if not py:
        return mk_lin(px, const)
    d = dict(px)
    for a, k in py:
        d[a] = d.get(a, 0) + ky * k
    parts = [(a, k) for a, k in d.items() if k]
    parts.sort(key=_atom_key)
    return mk_lin(tuple(parts), const)


def _atom_key(p):
    a = p[0]
    return (0, a.a) if a.op == "var" else (1, show(a))


def t_scale(x, k):
    if type(x) is int:
        return x * k
    if k == 0:
        return 0
    p, c = lin_parts(x)
    return mk_lin(tuple((a, q * k) for a, q in p), c * k)


def t_mul(x, y):
    if type(x) is int:
        return t_scale(y, x)
    if type(y) is int:
        return t_scale(x, y)
    return mk("mul", x, y)


def t_div(x, k):
    if type(x) is int:
        return x // k
    if k == 1:
        return x
    if k < 0:
        return t_div(t_scale(x, -1), -k)
    return mk("div", x, k)


def t_mod(x, k):
    if type(x) is int:
        return x % k
    if k < 0:
        return t_scale(t_mod(t_scale(x, -1), -k), -1)
    return mk("mod", x, k)


def t_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (type(a) is int and type(b) is int and a == b):
        return a
    return mk("ite", c, a, b)


# bool terms: python bool | 'in'(intterm, ranges) | 'le'(lin) lin<=0
#             | 'eq'(lin) lin==0 | 'not' | 'and'(tuple) | 'or'(tuple)


def b_in(t, ranges):
    if type(t) is int:
        return rs_has(ranges, t)
    if not ranges:
        return False
    if t.op == "var":
        r = rs_and(ranges, t.b)
        if not r:
            return False
        if r == t.b:
            return True
        return mk("in", t, r)
    if t.op == "lin" and len(t.a) == 1:
        (atom, k), c = t.a[0], t.b
        out = []
        for lo, hi in ranges:
            # lo <= k*x + c <= hi
            if k > 0:
                l2 = -((-(lo - c)) // k)
                h2 = (hi - c) // k
            else:
                l2 = -((-(hi - c)) // k)
                h2 = (lo - c) // k
            if l2 <= h2:
                out.append((l2, h2))
        return b_in(atom, rs_norm(out))
    if t.op == "ite":
        x = b_in(t.b, ranges)
        y = b_in(t.c, ranges)
        if x is y:
            return x
        return b_or(b_and(t.a, x), b_and(b_not(t.a), y))
    return mk("in", t, ranges)


def b_le0(t):
    if type(t) is int:
        return t <= 0
    p, c = lin_parts(t)
    if len(p) == 1:
        return b_in(t, ((NEG, 0),))
    return mk("le", t)


def b_le(x, y):
    return b_le0(t_add(x, y, -1))


def b_lt(x, y):
    return b_le0(t_add(t_add(x, y, -1), 1))


def b_eq(x, y):
    t = t_add(x, y, -1)
    if type(t) is int:
        return t == 0
    p, c = lin_parts(t)
    if len(p) == 1:
        return b_in(t, ((0, 0),))
    # canonical sign
    if p[0][1] < 0:
        t = t_scale(t, -1)
    # domain disjointness for x == y over two variables
    if len(p) == 2 and c == 0 and p[0][0].op == "var" and p[1][0].op == "var":
        if p[0][1] == -p[1][1] and not rs_and(p[0][0].b, p[1][0].b):
            return False
    return mk("eq", t)


def b_not(x):
    if x is True:
        return False
    if x is False:
        return True
    n = x._neg
    if n is None:
        if x.op == "not":
            n = x.a
        elif x.op == "in" and x.a.op == "var":
            n = b_in(x.a, rs_not(x.b))
        elif x.op == "and":
            n = b_or(*[b_not(y) for y in x.a])
        elif x.op == "or":
            n = b_and(*[b_not(y) for y in x.a])
        elif x.op == "le":
            n = b_le0(t_add(1, x.a, -1))
        else:
            n = mk("not", x)
        x._neg = n
    return n


def b_and(*xs):
    out = []
    seen = set()
    doms = {}
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        for y in x.a if x.op == "and" else (x,):
            if y in seen:
                continue
            seen.add(y)
            if y.op == "in" and y.a.op == "var":
                d = doms.get(y.a)
                if d is not None:
                    r = rs_and(out[d].b, y.b)
                    if not r:
                        return False
                    out[d] = b_in(y.a, r)
                    continue
                doms[y.a] = len(out)
            out.append(y)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(out))


def b_or(*xs):
    out = []
    seen = set()
    doms = {}
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        for y in x.a if x.op == "or" else (x,):
            if y in seen:
                continue
            seen.add(y)
            if y.op == "in" and y.a.op == "var":
                d = doms.get(y.a)
                if d is not None:
                    r = b_in(y.a, rs_or(out[d].b, y.b))
                    if r is True:
                        return True
                    out[d] = r
                    continue
                doms[y.a] = len(out)
            out.append(y)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(out))


def b_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    return b_or(b_and(c, a), b_and(b_not(c), b))


def b_xor(a, b):
    return b_or(b_and(a, b_not(b)), b_and(b_not(a), b))


# ---------------------------------------------------------------- variables


def vars_of(n):
    if type(n) in (int, bool):
        return frozenset()
    v = n._vars
    if v is None:
        op = n.op
        if op == "var":
            v = frozenset((n,))
        elif op == "lin":
            v = frozenset().union(*[vars_of(a) for a, _ in n.a])
        elif op == "ite":
            v = vars_of(n.a) | vars_of(n.b) | vars_of(n.c)
        elif op in ("and", "or"):
            v = frozenset().union(*[vars_of(a) for a in n.a])
        elif op == "mul":
            v = vars_of(n.a) | vars_of(n.b)
        else:
            v = vars_of(n.a)
        n._vars = v
    return v


# ---------------------------------------------------------------- evaluation


def ev(n, m):
    if type(n) is int or type(n) is bool:
        return n
    op = n.op
    if op == "var":
        v = m.get(n.a)
        return n.b[0][0] if v is None else v
    if op == "lin":
        s = n.b
        for a, k in n.a:
            s += k * ev(a, m)
        return s
    if op == "in":
        return rs_has(n.b, ev(n.a, m))
    if op == "not":
        return not ev(n.a, m)
    if op == "and":
        for x in n.a:
            if not ev(x, m):
                return False
        return True
    if op == "or":
        for x in n.a:
            if ev(x, m):
                return True
        return False
    if op == "le":
        return ev(n.a, m) <= 0
    if op == "eq":
        return ev(n.a, m) == 0
    if op == "ite":
        return ev(n.b, m) if ev(n.a, m) else ev(n.c, m)
    if op == "div":
        return ev(n.a, m) // n.b
    if op == "mod":
        return ev(n.a, m) % n.b
    if op == "mul":
        return ev(n.a, m) * ev(n.b, m)
    raise AssertionError(op)


# ---------------------------------------------------------------- z3


def z(n):
    if type(n) is int:
        return z3.IntVal(n)
    if type(n) is bool:
        return z3.BoolVal(n)
    r = n._z
    if r is not None:
        return r
    op = n.op
    if op == "var":
        r = z3.Int(n.a)
    elif op == "lin":
        terms = [z(a) if k == 1 else z(a) * k for a, k in n.a]
        if n.b:
            terms.append(z3.IntVal(n.b))
        r = terms[0] if len(terms) == 1 else z3.Sum(terms)
    elif op == "in":
        t = z(n.a)
        alts = []
        for lo, hi in n.b:
            if lo == hi:
                alts.append(t == lo)
            elif lo <= NEG:
                alts.append(t <= hi)
            elif hi >= POS:
                alts.append(t >= lo)
            else:
                alts.append(z3.And(t >= lo, t <= hi))
        r = alts[0] if len(alts) == 1 else z3.Or(alts)
    elif op == "not":
        r = z3.Not(z(n.a))
    elif op == "and":
        r = z3.And([z(x) for x in n.a])
    elif op == "or":
        r = z3.Or([z(x) for x in n.a])
    elif op == "le":
        r = z(n.a) <= 0
    elif op == "eq":
        r = z(n.a) == 0
    elif op == "ite":
        r = z3.If(z(n.a), z(n.b), z(n.c))
    elif op == "div":
        r = z(n.a) / n.b
    elif op == "mod":
        r = z(n.a) % n.b
    elif op == "mul":
        r = z(n.a) * z(n.b)
    else:
        raise AssertionError(op)
    n._z = r
    return r


def show(n):
    if type(n) in (int, bool):
        return repr(n)
    op = n.op
    if op == "var":
        return n.a
    if op == "lin":
        s = "+".join(f"{k}*{show(a)}" if k != 1 else show(a) for a, k in n.a)
        return f"({s}{n.b:+d})" if n.b else f"({s})"
    if op == "in":
        return f"{show(n.a)}∈{n.b[:4]}{'…' if len(n.b) > 4 else ''}"
    if op == "not":
        return f"¬{show(n.a)}"
    if op in ("and", "or"):
        return "(" + (" ∧ " if op == "and" else " ∨ ").join(map(show, n.a)) + ")"
    if op == "le":
        return f"{show(n.a)}≤0"
    if op == "eq":
        return f"{show(n.a)}=0"
    if op == "ite":
        return f"ite({show(n.a)},{show(n.b)},{show(n.c)})"
    return f"{op}({show(n.a)},{n.b if type(n.b) is int else show(n.b)})"
