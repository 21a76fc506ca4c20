"""C05: built-in value types - arithmetic, comparison, bit operations, conversion and printing."""
import itertools, os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

BITS = {'int16': 16, 'int': 32, 'int64': 64}
INTS = ('int16', 'int', 'int64')
FLOATS = ('float', 'double')
NUMS = INTS + FLOATS

VALUES = {
    'int16': [0, 1, -1, 2, 3, -7, 10, 100, 127, -128, 255, 256, 1000, -1000, 32766, 32767, -32767, -32768],
    'int': [0, 1, -1, 2, 3, -7, 10, 100, 255, -256, 32767, 32768, -32768, -32769, 65535, 65536, 1000000, 2147483646, 2147483647, -2147483647, -2147483648],
    'int64': [0, 1, -1, 2, 3, -7, 10, 100, 32768, -32769, 65536, 2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296,
              1000000000000, 9223372036854775806, 9223372036854775807, -9223372036854775807, -9223372036854775808],
    'float': [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 2.5, -2.75, 3.0, 10.0, 100.0, 0.125, 1024.0, 65536.0, 1000000.0],
    'double': [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 2.5, -2.75, 3.0, 10.0, 100.0, 0.125, 1024.0, 65536.0, 1000000.0, 123456789.25, 4294967296.0],
    'bool': [False, True],
    'string': ["", "0", "1", "-1", "7", "-7", "12345", "32767", "-32768", "2147483647", "-2147483648", "9223372036854775807", "-9223372036854775808",
               "2.5", "-0.5", "100.125", "abc", "Abc", "abd", "ab", "b", "true", "false", "a b", " x "],
}
# further values of the thorough tier
MORE = {
    'int16': [4, 5, 8, 15, 16, 17, 31, 63, 64, 65, -2, -3, -16, -17, -255, -256, 181, 182, -181, -182, 16383, 16384, -16384, -16385],
    'int': [4, 5, 7, 8, 15, 16, 17, -2, -3, -16, 46340, 46341, -46340, -46341, 1073741823, 1073741824, -1073741824, 16777216, 16777217, -65536],
    'int64': [4, 5, 7, 8, 15, 16, -2, -3, -16, 3037000499, 3037000500, 4611686018427387904, -4611686018427387904, 9007199254740993, -4294967296],
    'float': [4.0, 8.0, -3.0, 7.5, 0.25, -0.125, 16777216.0, 32767.0, -32768.0],
    'double': [4.0, 8.0, -3.0, 7.5, 0.25, -0.125, 2147483648.0, -2147483649.0, 1e15, 0.1],
    'string': ["007", "+5", "0.1", "TRUE", "False", "z", "A", "~", "ab ", "10"],
}


def wrap(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


def f32(x):
    return struct.unpack('f', struct.pack('f', x))[0]


def fits(t, v):
    """Whether value v can be represented exactly in type t."""
    if t in BITS:
        return v == int(v) and -(1 << (BITS[t] - 1)) <= v < (1 << (BITS[t] - 1))
    if t == 'float':
        try:
            return f32(float(v)) == v and float(v) == v
        except OverflowError:
            return False
    if t == 'double':
        return float(v) == v and int(float(v)) == int(v)
    return True


def show(t, v):
    if t == 'bool':
        return '1' if v else '0'
    if t in BITS:
        return str(int(v))
    if t in FLOATS:
        s = '%f' % v
        s = s.rstrip('0')
        return s[:-1] if s.endswith('.') else s
    return v


def conv(t, v):
    if t in BITS:
        return int(v)
    if t == 'float':
        return f32(float(v))
    if t == 'double':
        return float(v)
    return v


class Skip(Exception):
    pass


class DivZero(Exception):
    pass


def arith(op, t, a, b):
    """a op b computed in type t; both operands already of type t."""
    if t in BITS:
        n = BITS[t]
        if op in '/%':
            if b == 0:
                raise DivZero
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            r = q if op == '/' else a - b * q
        else:
            r = {'+': a + b, '-': a - b, '*': a * b, '&': a & b, '|': a | b}[op]
        return wrap(r, n)
    if op == '/' and b == 0:
        raise Skip
    r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[op]()
    return f32(r) if t == 'float' else r


def compare(op, a, b):
    return {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]


def lit(t, v):
    """Source text of a value of type t."""
    if t == 'bool':
        return 'true' if v else 'false'
    if t == 'string':
        return '"%s"' % v
    if t in BITS:
        if v == -(1 << 63):
            return '-9223372036854775807 - 1'
        if v == -(1 << 31):
            return '-2147483647 - 1'
        return str(v)
    s = repr(float(v))
    if 'e' in s:
        s = '%.1f' % v
    return s + ('f' if t == 'float' else 'd')


VALS = {}


def name(t, i):
    return '%s_%d' % (t, i)


def prelude():
    out = []
    for t in VALS:
        for i, v in enumerate(VALS[t]):
            out.append('public %s %s() { %s r = %s; return r; }' % (t, name(t, i), t, lit(t, v)))
    return '\n'.join(out) + '\n'


# (left, right) -> operators the language defines, and static result type
def arith_pairs():
    for l in NUMS:
        for r in NUMS:
            for op in '+-*/%':
                if op == '%' and (l in FLOATS or r in FLOATS):
                    continue
                yield l, r, op
    for t in INTS:
        for op in '&|':
            yield t, t, op


def static_type(l, r):
    if l in FLOATS:
        return l
    if r in FLOATS:
        return r
    if l == 'int16':
        return r
    return l


def compare_pairs():
    for l in NUMS:
        for r in NUMS:
            if l == 'int16' and r != 'int16':
                continue
            yield l, r
    yield 'bool', 'bool'
    yield 'string', 'string'


def batch(nm, decl, calls):
    # states: the operand pairs and the distinct results they lead to
    return H.Case(nm, decl, calls, states=len(calls) + len({tuple(l) for _, l in calls}), trans=len(calls))


def chunks(nm, decl, calls, n=200):
    for k in range(0, len(calls), n):
        yield batch('%s#%d' % (nm, k // n), decl, calls[k:k + n])


def fail(nm, l, i, r, j, body):
    return H.Case(nm, 'public void case$$(%s a, %s b) { %s }' % (l, r, body),
                  [('case$$(%s(), %s());' % (name(l, i), name(r, j)), [])], kind='fail')


def families():
    # binary arithmetic and compound assignment
    for l, r, op in arith_pairs():
        calls, ccalls = [], []
        nf = 0
        st = static_type(l, r)
        for (i, a), (j, b) in itertools.product(enumerate(VALS[l]), enumerate(VALS[r])):
            if not fits(l, b):
                continue
            try:
                v = arith(op, l, a, conv(l, b))
            except Skip:
                continue
            except DivZero:
                if nf < (4 if TH else 2):
                    nf += 1
                    yield [fail('div0:%s%s%s:%s' % (l, op, r, a), l, i, r, j, 'print("" + (a %s b)); print("after");' % op)]
                    if l == 'int16' and r in FLOATS:
                        continue
                    yield [fail('div0c:%s%s=%s:%s' % (l, op, r, a), l, i, r, j, '%s x = a; x %s= b; print("after" + x);' % (l, op))]
                continue
            if abs(v) > 1e15 and l in FLOATS:
                continue
            if st != l and not (l in BITS and fits(l, {'+': a + b, '-': a - b, '*': a * b}.get(op, 0))):
                continue
            arg = '%s(), %s()' % (name(l, i), name(r, j))
            calls.append(('case$$(%s);' % arg, [show(l, v)]))
            ccalls.append(('case$$(%s);' % arg, [show(l, v)]))
        yield chunks('bin:%s%s%s' % (l, op, r), 'public void case$$(%s a, %s b) { print("" + (a %s b)); }' % (l, r, op), calls)
        yield chunks('var:%s%s%s' % (l, op, r), 'public void case$$(%s a, %s b) { %s x = a %s b; print("" + x); }' % (l, r, l, op),
                     calls if l == st or l != 'int16' else [])
        # an int16 cannot hold a floating point result, everything else can be assigned back
        if not (l == 'int16' and r in FLOATS):
            yield chunks('cmp:%s%s=%s' % (l, op, r), 'public void case$$(%s a, %s b) modify { %s x = a; x %s= b; print("" + x); }' % (l, r, l, op), ccalls)
    # comparisons
    for l, r in compare_pairs():
        for op in ('==', '!=', '<', '>', '<=', '>='):
            if l == 'bool' and op not in ('==', '!='):
                continue
            calls = []
            for (i, a), (j, b) in itertools.product(enumerate(VALS[l]), enumerate(VALS[r])):
                if not fits(l, b) and l != 'string':
                    continue
                v = compare(op, a, conv(l, b))
                calls.append(('case$$(%s(), %s());' % (name(l, i), name(r, j)), [show('bool', v)]))
            yield chunks('rel:%s%s%s' % (l, op, r), 'public void case$$(%s a, %s b) { print("" + (a %s b)); }' % (l, r, op), calls)
            yield chunks('if:%s%s%s' % (l, op, r), 'public void case$$(%s a, %s b) { if ( a %s b ) { print("1"); } else { print("0"); } }' % (l, r, op), calls)
    # unary operators, increment and decrement
    for t in NUMS:
        n, p, inc, dec = [], [], [], []
        for i, a in enumerate(VALS[t]):
            c = 'case$$(%s());' % name(t, i)
            n.append((c, [show(t, wrap(-a, BITS[t]) if t in BITS else -a)]))
            p.append((c, [show(t, a)]))
            inc.append((c, [show(t, arith('+', t, a, 1))]))
            dec.append((c, [show(t, arith('-', t, a, 1))]))
        yield chunks('neg:' + t, 'public void case$$(%s a) { %s x = -a; print("" + x); }' % (t, t), n)
        yield chunks('pos:' + t, 'public void case$$(%s a) { %s x = +a; print("" + x); }' % (t, t), p)
        yield chunks('inc:' + t, 'public void case$$(%s a) modify { %s x = a; x++; print("" + x); }' % (t, t), inc)
        yield chunks('dec:' + t, 'public void case$$(%s a) modify { %s x = a; x--; print("" + x); }' % (t, t), dec)
    # logical not / truth of a value
    for t in VALS:
        tr = []
        for i, a in enumerate(VALS[t]):
            if t == 'string':
                b = a.strip() != '' and a.strip().lower() != 'false'
                if a == "0" or a.strip() == "":
                    continue
            else:
                b = bool(a)
            tr.append(('case$$(%s());' % name(t, i), ['1' if b else '0', '0' if b else '1']))
        yield chunks('truth:' + t, 'public void case$$(%s a) { if ( a ) { print("1"); } else { print("0"); } print("" + (!a)); }' % t, tr)
    # casts
    for s in VALS:
        for t in VALS:
            calls = []
            for i, a in enumerate(VALS[s]):
                v = cast(s, t, a)
                if v is not None:
                    calls.append(('case$$(%s());' % name(s, i), [v]))
            if not calls:
                continue
            nm = '%s>%s' % (s, t)
            yield chunks('cast:' + nm, 'public void case$$(%s a) { print("" + (%s a)); }' % (s, t), calls)
            yield chunks('castv:' + nm, 'public void case$$(%s a) { %s x = %s a; print("" + x); }' % (s, t, t), calls)
            if (s, t) in IMPLICIT:
                yield chunks('impl:' + nm, 'public void case$$(%s a) { %s x = a; print("" + x); }' % (s, t), calls)
                yield chunks('asg:' + nm, 'public void case$$(%s a) modify { %s x; x = a; print("" + x); }' % (s, t), calls)
                yield chunks('ret:' + nm, 'public %s conv$$(%s a) { return %s a; }\npublic void case$$(%s a) { print("" + conv$$(a)); }' % (t, s, t, s), calls)
    # concatenation of every type with a string
    for t in VALS:
        calls = [('case$$(%s());' % name(t, i), ['<' + show(t, a) + '>', 'x' + show(t, a)]) for i, a in enumerate(VALS[t])]
        yield chunks('cat:' + t, 'public void case$$(%s a) modify { print("<" + a + ">"); string s = "x"; s += a; print(s); }' % t, calls)
    # strings concatenate exactly
    calls = [('case$$(%s(), %s());' % (name('string', i), name('string', j)), [a + b])
             for (i, a), (j, b) in itertools.product(enumerate(VALS['string']), repeat=2)]
    yield chunks('scat', 'public void case$$(string a, string b) { print(a + b); }', calls)
    yield chunks('scatc', 'public void case$$(string a, string b) modify { string c = a; c += b; print(c); }', calls)
    # expressions of three operands stay in range after every step
    for t in INTS + (FLOATS if TH else ()):
        vs = [(i, a) for i, a in enumerate(VALS[t])][:12 if TH else 7] + [(i, a) for i, a in enumerate(VALS[t])][-3:]
        for o1, o2 in itertools.product('+-*', '+-*'):
            calls = []
            for (i, a), (j, b), (k, c) in itertools.product(vs, repeat=3):
                v = arith(o2, t, arith(o1, t, a, b), c)
                calls.append(('case$$(%s(), %s(), %s());' % (name(t, i), name(t, j), name(t, k)), [show(t, v)]))
            if t in FLOATS:
                calls = [x for x in calls if len(x[1][0]) < 15]
            yield chunks('tri:%s%s%s' % (t, o1, o2), 'public void case$$(%s a, %s b, %s c) { print("" + ((a %s b) %s c)); }' % (t, t, t, o1, o2), calls)
    # literals: integers of any size
    calls = []
    for v in [0, 1, 9, 10, 255, 32767, 32768, 65535, 2147483646, 2147483647, 2147483648, 4294967295, 4294967296, 9223372036854775807]:
        calls.append(('print("" + %d);' % v, [str(v)]))
    yield [batch('lits', '', calls)]


IMPLICIT = set()
for _t in NUMS:
    for _s in NUMS:
        if _t == 'int16' and _s in FLOATS:
            continue
        IMPLICIT.add((_s, _t))
    if _t != 'int16':
        IMPLICIT.add(('bool', _t))
for _s in VALUES:
    IMPLICIT.add((_s, 'string'))
    IMPLICIT.add((_s, 'bool'))


def cast(s, t, a):
    """Printed value of a converted from s to t, None if t cannot represent it."""
    if t == 'string':
        return show(s, a)
    if t == 'bool':
        if s == 'string':
            if a in ("0",) or a.strip() == "":
                return None
            return show('bool', a.strip().lower() != 'false')
        return show('bool', bool(a))
    if s == 'bool':
        return show(t, int(a))
    if s == 'string':
        if a == "":
            return show(t, 0)
        try:
            v = int(a)
        except ValueError:
            try:
                v = float(a)
            except ValueError:
                return None
        if t in BITS and v != int(v):
            return None
        if a.strip() != a:
            return None
        return show(t, conv(t, v)) if fits(t, v) or (t == 'double' and not a.lstrip('-').isdigit()) else None
    if t in BITS and s in FLOATS:
        # the fraction is cut off
        return show(t, int(a)) if fits(t, int(a)) else None
    return show(t, conv(t, a)) if fits(t, a) else None


TH = False


def expand(shard, ns):
    i = 0
    for fam in families():
        for c in fam:
            i += 1
            if i % ns == shard and c.calls:
                yield c


def main():
    global TH
    H.build()
    c = H.Check("C05", assumptions=["operations whose right operand is not representable in the left operand's type, and floating point division by zero, are outside the property"])
    TH = c.thorough
    for t in VALUES:
        VALS[t] = VALUES[t] + (MORE.get(t, []) if TH else [])
    c.bounds = {"types": sorted(VALS), "values_per_type": {t: len(v) for t, v in VALS.items()}, "operands_per_expression": 3}
    c.run_cases(expand, nshards=64 if TH else 24, prelude=prelude(), batch=600)
    c.finish()


if __name__ == "__main__":
    H.main(main)
