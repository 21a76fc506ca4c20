"""C29: mathematical functions - every function of the C math interface, the System.Math library and the floating point
environment.

Model: the C library's own functions (called directly, without the interpreter) on the same arguments, plain integer
arithmetic for the library's powers, and a state machine (rounding mode, set of raised exceptions) for the environment.
Every function is replayed on all arguments (pairs, triples) of a grid of values in every form of argument; all operation
sequences of the environment up to a length are replayed with a full observation after each step."""
import sys, os, itertools, ctypes, math, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

M = ctypes.CDLL("libm.so.6")
UN = ("acos acosh asin asinh atan atanh cbrt ceil cos cosh erf erfc exp exp2 expm1 fabs floor lgamma log log10 log1p log2 logb "
      "nearbyint rint sin sinh sqrt tan tanh tgamma trunc ilogb").split()
BIN = "atan2 copysign fdim fmax fmin fmod hypot nextafter nexttoward pow remainder".split()
SCALE = ("ldexp", "scalbn")
GRID = [0.0, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 2.5, 3.0, 3.5, 4.0, 8.0, 10.0, 100.0, 0.125, 0.0009765625, 1000.5, 4096.0]
GRID += [-v for v in GRID[1:]]
SMALL = [0.0, 0.25, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 10.0, -0.25, -0.5, -1.0, -1.5, -2.0, -2.5, -3.0, -10.0]
TINY = [0.0, 0.5, 1.0, -1.5, 2.0, 3.0, -10.0]
FORMS = {"literal": "%s", "parenthesised": "(%s)", "result of a call": "id(%s)", "expression": "%s + 0%s"}

PRE = '''import System.Math.Functions;
import System.Math.Consts;
public double id(double v) { return v; }
public float id(float v) { return v; }
public int id(int v) { return v; }
public int64 id(int64 v) { return v; }
public void show(double r) { print(r); print(r * 1048576d); print(r * 1099511627776d); }
public void show(float r) { print(r); print(r * 1048576f); }
public void show(int r) { print(r); }
public void show(int64 r) { print(r); }
public int64 l(int v) { return cast<int64>(v); }
public void env() {
 print(fegetround()); print(fetestexcept(FE_DIVBYZERO)); print(fetestexcept(FE_INVALID)); print(fetestexcept(FE_OVERFLOW)); print(fetestexcept(FE_DIVBYZERO | FE_INVALID));
 print(rint(0.5d)); print(rint(1.5d)); print(rint(2.5d)); if ( fegetround() == FE_TONEAREST ) { print(rint(-0.5d)); print(rint(-1.5d)); } print(rint(3.25d)); print(nearbyint(2.5d)); print(nearbyint(-2.5d)); print(rintf(1.75f)); print(nearbyintf(-1.25f)); print(round(2.5d)); print(trunc(-2.75d)); print(floor(-0.25d)); print(ceil(0.25d));
}
public void same(int seed, int n) {
 srand(seed); string a = ""; for ( int i = 0; i < n; i++ ) { int r = rand(); assert( r >= 0 ); a = a + cast<string>(r) + ","; }
 srand(seed); string b = ""; for ( int i = 0; i < n; i++ ) { b = b + cast<string>(rand()) + ","; }
 print(a == b);
}
'''


def f32(v):
    try:
        return struct.unpack("f", struct.pack("f", v))[0]
    except OverflowError:
        return math.copysign(math.inf, v)


def num(v):
    if v != v:
        return "nan"
    s = "%f" % v
    if "." in s:
        s = s.rstrip("0").rstrip(".")
    return "0" if s == "-0" else s


def norm(out):
    return "\n".join({"-nan": "nan", "-0": "0"}.get(x, x) for x in out.split("\n"))


def lines(kind, v):
    if kind == "d":
        return [num(v), num(v * 1048576.0), num(v * 1099511627776.0)]
    return [num(f32(v)), num(f32(f32(v) * 1048576.0))]


def ref(name, kind, args, scale=False):
    f = getattr(M, name + ("f" if kind == "f" else ""))
    t = ctypes.c_float if kind == "f" else ctypes.c_double
    f.restype = ctypes.c_int if name == "ilogb" else t
    f.argtypes = [t] * len(args)
    if scale:
        f.argtypes = [t, ctypes.c_int]
        return f(args[0], int(args[1]))
    if name == "nexttoward":
        return ref("nextafter", kind, args)
    return float(f(*args))


def lit(kind, v, form="literal"):
    s = repr(v)
    s = s[:-2] if s.endswith(".0") else s
    s = s + kind
    if form == "expression":
        return "%s + 0%s" % (s, kind)
    return FORMS[form] % s


def functions(th):
    """-> (shown call, reference lines)"""
    for kind in "df":
        suf = "f" if kind == "f" else ""
        for form in FORMS:
            for v in GRID:
                for n in UN:
                    yield "%s(%s)" % (n + suf, lit(kind, v, form)), lines(kind, ref(n, kind, (v,)))
                yield "round(%s)" % lit(kind, v, form), lines(kind, ref("round", kind, (v,)))
                yield "abs(%s)" % lit(kind, v, form), lines(kind, abs(v))
                if kind == "f":
                    yield "sqrt(%s)" % lit(kind, v, form), lines(kind, ref("sqrt", kind, (v,)))
        for form in (FORMS if th else ("literal", "result of a call")):
            for v, w in itertools.product(GRID if th else SMALL, SMALL):
                for n in BIN:
                    yield "%s(%s, %s)" % (n + suf, lit(kind, v, form), lit(kind, w, form)), lines(kind, ref(n, kind, (v, w)))
            for v, w in itertools.product(SMALL, (0.0, 1.0, 2.0, 5.0, 20.0, -1.0, -3.0, -10.0)):
                for n in SCALE:
                    yield "%s(%s, %s)" % (n + suf, lit(kind, v, form), lit(kind, w, form)), lines(kind, ref(n, kind, (v, w), True))
            for v, w, x in itertools.product(TINY, repeat=3):
                yield "%s(%s, %s, %s)" % ("fma" + suf, lit(kind, v, form), lit(kind, w, form), lit(kind, x, form)), lines(kind, ref("fma", kind, (v, w, x)))
    ints = [0, 1, 2, 3, 7, 100, 46340, 2147483647]
    for v in ints + [-x for x in ints[1:]]:
        for form in ("%d", "(%d)", "id(%d)"):
            yield "abs(%s)" % (form % v), [str(abs(v))]
        yield "labs(l(%d))" % v, [str(abs(v))]
    for v in (-5, -2, -1, 0, 1, 2, 3, 10):
        for e in range(0, 9):
            yield "powl(l(%d), l(%d))" % (v, e), [str(v ** e)]
    # the library's powers
    for v in (-7, -2, -1, 0, 1, 2, 3, 10):
        yield "Math.power(%d)" % v, [str(v * v)]
        yield "Math.sqr(%d)" % v, [str(v * v)]
        for e in range(0, 8):
            yield "Math.power(%d, %d)" % (v, e), [str(v ** e)]
    for kind in "df":
        for v in (-2.5, -1.0, -0.5, 0.0, 0.25, 0.5, 1.0, 1.5, 3.0):
            yield "Math.power(%s)" % lit(kind, v), lines(kind, v * v)
            yield "Math.sqr(%s)" % lit(kind, v), lines(kind, v * v)
            for e in range(0, 7):
                yield "Math.power(%s, %d)" % (lit(kind, v), e), lines(kind, v ** e)
    yield "Math.Consts.PI", lines("d", math.pi)
    yield "Math.Consts.E", lines("d", math.e)
    yield "INFINITY", lines("d", math.inf)
    yield "-INFINITY", lines("d", -math.inf)
    yield "HUGE_VAL", lines("d", math.inf)
    yield "NAN", lines("d", math.nan)
    for n in ("nan", ):
        yield '%s("")' % n, lines("d", math.nan)


MODES = {"FE_TONEAREST": 0, "FE_DOWNWARD": 0x400, "FE_UPWARD": 0x800, "FE_TOWARDZERO": 0xc00}
FLAGS = {"FE_INVALID": 1, "FE_DIVBYZERO": 4, "FE_OVERFLOW": 8}


def rounded(mode, v):
    """(the compiler may evaluate rint on negative values by symmetry, so these are only compared when rounding to nearest)"""
    if mode == "FE_TONEAREST":
        return float(round(v))
    return float({"FE_DOWNWARD": math.floor, "FE_UPWARD": math.ceil, "FE_TOWARDZERO": math.trunc}[mode](v))


def observe(state):
    mode, flags = state
    f = sum(FLAGS[x] for x in flags)
    o = [str(MODES[mode]), str(f & 4), str(f & 1), str(f & 8), str(f & 5)]
    o += [num(rounded(mode, v)) for v in (0.5, 1.5, 2.5) + ((-0.5, -1.5) if mode == "FE_TONEAREST" else ()) + (3.25, 2.5, -2.5, 1.75, -1.25)]
    return o + ["3", "-2", "-1", "1"]


def envops():
    ops = [("fesetround(%s)" % m, lambda s, m=m: (m, s[1]), 0) for m in MODES]
    sets = [("FE_INVALID",), ("FE_DIVBYZERO",), ("FE_INVALID", "FE_DIVBYZERO"), ("FE_OVERFLOW",)]
    for x in sets:
        ops.append(("feraiseexcept(%s)" % " | ".join(x), lambda s, x=x: (s[0], s[1] | frozenset(x)), 0))
        ops.append(("feclearexcept(%s)" % " | ".join(x), lambda s, x=x: (s[0], s[1] - frozenset(x)), 0))
    ops.append(("feclearexcept(FE_ALL_EXCEPT)", lambda s: (s[0], frozenset()), 0))
    return ops


def main():
    H.build(("slang",))
    c = H.Check("C29", assumptions=["the reference functions are those of the installed C library", "a result that is no number and zeros are compared without their sign",
                                    "numbers are compared with at least twelve decimals, of type float with six"])
    th = c.thorough
    depth = 4 if th else 3
    OPS = envops()
    c.bounds = {"functions of one argument": len(UN) + 2, "of two": len(BIN) + len(SCALE), "of three": 1, "values": len(GRID), "forms of arguments": len(FORMS), "operations of the floating point environment": len(OPS), "in a row": depth}

    def calls(shard, n):
        for i, (call, exp) in enumerate(functions(th)):
            if i % n == shard:
                yield H.Case(call, "", [("show(%s);" % call, exp)], states=1, trans=1)
        for seed in (0, 1, 2, 42, 2147483647):
            if seed % n == shard:
                yield H.Case("seed %d" % seed, "", [("same(%d, 20);" % seed, ["1"])], states=40, trans=40)

    c.run_cases(calls, nshards=64, prelude=PRE, norm=norm)

    def environment(shard, n):
        for i, seq in enumerate(x for k in range(1, depth + 1) for x in itertools.product(OPS, repeat=k)):
            if i % n != shard:
                continue
            st = ("FE_TONEAREST", frozenset())
            todo = [("fesetround(FE_TONEAREST);", []), ("feclearexcept(FE_ALL_EXCEPT);", [])]
            for text, step, r in seq:
                st = step(st)
                todo += [("print(%s);" % text, [str(r)]), ("env();", observe(st))]
            todo += [("fesetround(FE_TONEAREST);", []), ("feclearexcept(FE_ALL_EXCEPT);", [])]
            yield H.Case("; ".join(x[0] for x in seq), "", todo, states=len(seq) + 1, trans=len(seq))

    c.run_cases(environment, nshards=64, batch=60, prelude=PRE, norm=norm)
    c.finish()


if __name__ == "__main__":
    H.main(main)
