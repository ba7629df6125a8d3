"""Real-valued mathematical functions (uninterpreted, with the identities the proofs use)."""
import z3
R = z3.RealSort()
F1 = {n: z3.Function('m_' + n, R, R) for n in ('sin', 'cos', 'exp', 'log', 'round', 'floor', 'ceil', 'log2', 'tanh')}
F2 = {'pow': z3.Function('m_pow', R, R, R)}
sqrt_ = z3.Function('m_sqrt', R, R)


def fn(name, *a):
    if name == 'sqrt':
        return sqrt_(a[0])
    if name in ('abs', 'fabs'):
        return z3.If(a[0] >= 0, a[0], -a[0])
    if name == 'tan':
        return F1['sin'](a[0]) / F1['cos'](a[0])
    if name == 'pow':
        c = a[1]
        if z3.is_rational_value(c) and c.denominator_as_long() == 1 and 0 <= c.numerator_as_long() <= 4:
            r = z3.RealVal(1)
            for _ in range(c.numerator_as_long()):
                r = r * a[0]
            return r
        return F2['pow'](*a)
    return F1[name](a[0])


def facts(name, a, r):
    out = []
    if name == 'sqrt':
        out.append(z3.Implies(a[0] >= 0, z3.And(r >= 0, r * r == a[0])))
    if name == 'exp':
        out.append(r > 0)
    if name in ('sin', 'cos', 'tan'):
        s, c = F1['sin'](a[0]), F1['cos'](a[0])
        out.append(s * s + c * c == 1)
    return out


def apply(ex, name, a):
    r = fn(name, *a)
    for f in facts(name, a, r):
        ex.assume(f)
    return r
