"""C24: user defined operators are called as written, once, with the right operands."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

ARITH = ["+", "-", "*", "/", "%", "&", "|", "<<", ">>"]
CMP = ["==", "<", "<=", ">", ">="]
COMPOUND = {"+=": "+", "-=": "-", "*=": "*", "/=": "/", "%=": "%", "&=": "&", "|=": "|"}
PREC = {"*": 2, "/": 2, "%": 2}
CODE = {o: i + 1 for i, o in enumerate(ARITH)}

# every operator logs its left operand, itself and its right operand; the result of an arithmetic operator has a new, distinct value
def mix(op, l, r):
    return (l * 31 + CODE[op] * 7 + r * 3) % 9973


def klass(name="V", base=None):
    t = "public object %s { public int v; public void Constructor(int i) { v = i; }\n" % name
    for o in ARITH:
        t += ' public %s operator%s(%s o) const { print((string v) + "%s" + o.v); return new %s((v * 31 + %d + o.v * 3) %% 9973); }\n' % (name, o, name, o, name, CODE[o] * 7)
        t += ' public %s operator%s(int o) const { print((string v) + "%si" + o); return new %s((v * 31 + %d + o * 3) %% 9973); }\n' % (name, o, o, name, CODE[o] * 7)
        t += ' public string operator%s(string o) const { print((string v) + "%ss" + o); return o + v; }\n' % (o, o)
    for o in CMP:
        t += ' public bool operator%s(%s o) const { print((string v) + "%s" + o.v); return v %s o.v; }\n' % (o, name, o, o)
        t += ' public bool operator%s(int o) const { print((string v) + "%si" + o); return v %s o; }\n' % (o, o, o)
    t += ' public void operator=(int o) modify { print((string v) + "=" + o); v = o; }\n'
    t += ' public void operator=(string o) modify { print((string v) + "=s" + o); v = 500; }\n'
    t += ' public void operator++() modify { print((string v) + "++"); v = v + 1; }\n public void operator--() modify { print((string v) + "--"); v = v - 1; }\n'
    t += ' public int operator[](int i) const { print((string v) + "[" + i); return v * 2 + i; }\n'
    t += ' public string operator[](string i) const { print((string v) + "[s" + i); return i + v; }\n'
    t += ' public int operator[](int i, int j) const { print((string v) + "[" + i + "," + j); return v * 2 + i + 5 * j; }\n'
    t += ' public int operator[](int i, int j, int k) modify { print((string v) + "[m" + i + "," + j + "," + k); v = v + i; return v * 3 + j + 7 * k; }\n'
    t += ' public string =operator(string none) const { print((string v) + "->s"); return "S" + v; }\n'
    t += ' public int =operator(int none) const { print((string v) + "->i"); return v * 2; }\n'
    t += ' public float =operator(float none) const { print((string v) + "->f"); return 2.5f; }\n'
    for i, o in enumerate(ARITH):
        t += ' public %s self%d(%s o) const { return this %s o; } public %s fresh%d(%s o) const { return new %s(v) %s o; } public %s rself%d(%s o) const { return o %s this; }\n' % (name, i, name, o, name, i, name, name, o, name, i, name, o)
    for i, o in enumerate(CMP):
        t += ' public bool cself%d(%s o) const { return this %s o; }\n' % (i, name, o)
    return t + "}\n"


PRE = klass() + '''public object X extends V { public void Constructor(int i) { v = i; } }
public object W { public V n; public W w; public V gn; public void Constructor(int i) { n = new V(i); } public V get() const { return n; } public V same(V p) const { return p; } }
public V mk(int i) { return new V(i); }
public V gv;
'''

# left/right operand sources: setup, expression, value
SRC = {
    "var": ("V %(n)s = new V(%(v)d); ", "%(n)s"),
    "member": ("W %(n)sw = new W(%(v)d); ", "%(n)sw.n"),
    "deep": ("W %(n)sw = new W(1); %(n)sw.w = new W(%(v)d); ", "%(n)sw.w.n"),
    "call": ("", "mk(%(v)d)"),
    "method": ("W %(n)sw = new W(%(v)d); ", "%(n)sw.get()"),
    "new": ("", "(new V(%(v)d))"),
    "paren": ("V %(n)s = new V(%(v)d); ", "(%(n)s)"),
    "global": ("gv = new V(%(v)d); ", "gv"),
    "passed": ("V %(n)s = new V(%(v)d); W %(n)sw = new W(9); ", "%(n)sw.same(%(n)s)"),
}


def src(kind, n, v):
    a, b = SRC[kind]
    return a % {"n": n, "v": v}, b % {"n": n, "v": v}


def expand_binary(shard, ns):
    """every operator x every source of the left operand x every source or type of the right one"""
    k = 0
    for ls in SRC:
        for rs in list(SRC) + ["same", "int", "intvar", "string"]:
            if ls == rs == "global":
                continue
            k += 1
            if k % ns != shard:
                continue
            decl, calls = [], []
            for op in ARITH + CMP + ["!="]:
                L, R = 12, 5
                p1, e1 = src(ls, "l", L)
                p2, mark = "", ""
                if rs == "same":
                    if ls in ("call", "new"):
                        continue
                    e2, R = e1, L
                elif rs == "int":
                    e2, mark = "5", "i"
                elif rs == "intvar":
                    p2, e2, mark = "int r = 5; ", "r", "i"
                elif rs == "string":
                    if op not in ARITH:
                        continue
                    p2, e2, mark = "", '"q"', "s"
                else:
                    p2, e2 = src(rs, "r", R)
                o = "==" if op == "!=" else op
                out = ["%d%s%s%s" % (L, o, mark, "q" if rs == "string" else R)]
                if op in ARITH:
                    if rs == "string":
                        body = "string c = %s %s %s; print(c);" % (e1, op, e2)
                        out.append("q%d" % L)
                    else:
                        body = "V c = %s %s %s; print(c.v);" % (e1, op, e2)
                        out.append(str(mix(op, L, R)))
                else:
                    val = {"==": L == R, "!=": L != R, "<": L < R, "<=": L <= R, ">": L > R, ">=": L >= R}[op]
                    body = 'if ( %s %s %s ) { print("T"); } else { print("F"); } print(%s %s %s);' % (e1, op, e2, e1, op, e2)
                    out += ["T" if val else "F"] + out + ["1" if val else "0"]
                decl.append("public void f$$_%d() modify throws { %s%s%s }" % (len(calls), p1, p2, body))
                calls.append(("f$$_%d();" % len(calls), out))
                if op in ARITH and rs != "string":
                    # as argument and as returned value
                    decl.append("public void t$$_%d(V p) { print(p.v); }\npublic V r$$_%d() modify throws { %s%sreturn %s %s %s; }" % (len(calls), len(calls), p1, p2, e1, op, e2))
                    decl.append("public void f$$_%d() modify throws { %s%st$$_%d(%s %s %s); V c = r$$_%d(); print(c.v); }" % (len(calls), p1, p2, len(calls), e1, op, e2, len(calls)))
                    calls.append(("f$$_%d();" % len(calls), out + out))
            yield H.Case("binary:%s:%s" % (ls, rs), "\n".join(decl), calls, states=len(calls), trans=2 * len(calls))


def trees(n):
    """all operator/operand sequences of length n with every full bracketing replaced by the language's precedence"""
    return itertools.product(ARITH, repeat=n)


def evaluate(ops, vals, paren=None):
    """left to right with the precedence of the language; the right operand of each operator is evaluated before the call"""
    out = []

    def apply(op, l, r, rint):
        out.append("%d%s%s%d" % (l, op, "i" if rint else "", r))
        return mix(op, l, r)
    # additive level over multiplicative level
    terms, adds = [], []
    i = 0

    def factor(i):
        v, isint = vals[i]
        while i < len(ops) and ops[i] in PREC:
            v = apply(ops[i], v, vals[i + 1][0], vals[i + 1][1])
            isint = False
            i += 1
        return v, isint, i
    v, isint, i = factor(0)
    while i < len(ops):
        op = ops[i]
        r, rint, i2 = factor(i + 1)
        v = apply(op, v, r, rint)
        i = i2
    return v, out


def expand_chain(shard, ns):
    """chains of operators: every operator sequence, objects and integers as right operands, with and without brackets"""
    k = 0
    for n in ((2, 3) if QUICK else (2, 3, 4)):
        for ops in itertools.product(ARITH, repeat=n):
            k += 1
            if k % ns != shard:
                continue
            decl, calls = [], []
            for ints in itertools.product((0, 1), repeat=n) if n == 2 else ([(0,) * n, (1, 0, 1), (0, 1, 0)] if n == 3 else [(0,) * n, (0, 0, 1, 0)]):
                # an integer may only be a right operand of an object
                ok = True
                for i, b in enumerate(ints):
                    if b and i + 1 < n and ops[i + 1] in PREC and ops[i] not in PREC:
                        ok = False          # int * object is not defined
                if not ok:
                    continue
                vals = [(3, False)] + [(5 + i, bool(b)) for i, b in enumerate(ints)]
                v, out = evaluate(ops, vals)
                for form in ("var", "call"):
                    pre, toks = "", []
                    for i, (val, b) in enumerate(vals):
                        if b:
                            toks.append(str(val))
                        elif form == "var":
                            pre += "V x%d = new V(%d); " % (i, val)
                            toks.append("x%d" % i)
                        else:
                            toks.append("mk(%d)" % val)
                    e = toks[0] + "".join(" %s %s" % (o, t) for o, t in zip(ops, toks[1:]))
                    decl.append("public void f$$_%d() modify throws { %sV c = %s; print(c.v); }" % (len(calls), pre, e))
                    calls.append(("f$$_%d();" % len(calls), out + [str(v)]))
                    if n == 2 and not any(ints):
                        # explicit brackets on the right
                        o2 = []
                        r = mix(ops[1], vals[1][0], vals[2][0])
                        o2.append("%d%s%d" % (vals[1][0], ops[1], vals[2][0]))
                        o2.append("%d%s%d" % (vals[0][0], ops[0], r))
                        decl.append("public void f$$_%d() modify throws { %sV c = %s %s (%s %s %s); print(c.v); }" % (len(calls), pre, toks[0], ops[0], toks[1], ops[1], toks[2]))
                        calls.append(("f$$_%d();" % len(calls), o2 + [str(mix(ops[0], vals[0][0], r))]))
                        # comparison of an operator result
                        for cmpop in CMP:
                            l = mix(ops[0], vals[0][0], vals[1][0])
                            val = {"==": l == vals[2][0], "<": l < vals[2][0], "<=": l <= vals[2][0], ">": l > vals[2][0], ">=": l >= vals[2][0]}[cmpop]
                            decl.append("public void f$$_%d() modify throws { %sprint(%s %s %s %s %s); }" % (len(calls), pre, toks[0], ops[0], toks[1], cmpop, toks[2]))
                            calls.append(("f$$_%d();" % len(calls), ["%d%s%d" % (vals[0][0], ops[0], vals[1][0]), "%d%s%d" % (l, cmpop, vals[2][0]), str(int(val))]))
            yield H.Case("chain:%s" % " ".join(ops), "\n".join(decl), calls, states=len(calls), trans=n * len(calls))


LV = {"var": ("V %(n)s = new V(12); ", "%(n)s"), "member": ("W q = new W(12); ", "q.n"), "deep": ("W q = new W(1); q.w = new W(12); ", "q.w.n"), "global": ("gv = new V(12); ", "gv"),
      "alias": ("V %(n)s = new V(12); V al = %(n)s; ", "%(n)s")}


def expand_compound(shard, ns):
    """assignment, compound assignment, increment, subscript, conversion on every kind of left value; sequences of two"""
    k = 0
    unit = []
    for o in COMPOUND:
        unit.append((o, "V"))
        unit.append((o, "i"))
    unit += [("=", "i"), ("=", "s"), ("++", ""), ("--", ""), ("[]", "i"), ("[]", "s"), ("[]", "ii"), ("[]", "iii"), ("conv", "string"), ("conv", "int"), ("conv", "float"), ("asg", "string"), ("asg", "int"), ("asg", "float"),
             ("decl", "string"), ("decl", "int")]
    for lv in LV:
        for seq in [(u,) for u in unit] + list(itertools.product(unit, repeat=2)):
            k += 1
            if (k // 8) % ns != shard:
                continue
            pre, e = LV[lv]
            pre, e = pre % {"n": "l"}, e % {"n": "l"}
            v, al = 12, 12
            shared = True           # alias still refers to the same object
            out, code = [], []
            for j, (o, a) in enumerate(seq):
                if o in COMPOUND:
                    op = COMPOUND[o]
                    if a == "V":
                        code.append("%s %s mk(5);" % (e, o))
                        out.append("%d%s5" % (v, op))
                    else:
                        code.append("%s %s 5;" % (e, o))
                        out.append("%d%si5" % (v, op))
                    v = mix(op, v, 5)
                    shared = False
                elif o == "=":
                    code.append("%s = %s;" % (e, '"q"' if a == "s" else "7"))
                    out.append("%d=sq" % v if a == "s" else "%d=7" % v)
                    v = 500 if a == "s" else 7
                    if shared:
                        al = v
                elif o in ("++", "--"):
                    code.append("%s%s;" % (e, o))
                    out.append("%d%s" % (v, o))
                    v += 1 if o == "++" else -1
                    if shared:
                        al = v
                elif o == "[]":
                    if a == "i":
                        code.append("print(%s[4]);" % e)
                        out += ["%d[4" % v, str(v * 2 + 4)]
                    elif a == "s":
                        code.append('print(%s["k"]);' % e)
                        out += ["%d[sk" % v, "k%d" % v]
                    else:
                        code.append("print(%s[4, 3%s]);" % (e, ", 2" if a == "iii" else ""))
                        if a == "iii":
                            out += ["%d[m4,3,2" % v, str((v + 4) * 3 + 3 + 14)]
                            v += 4
                            if shared:
                                al = v
                            continue
                        out += ["%d[4,3" % v, str(v * 2 + 4 + 15)]
                else:
                    t = {"string": "S%d" % v, "int": str(v * 2), "float": "2.5"}[a]
                    c = {"string": "s", "int": "i", "float": "f"}[a]
                    if o == "conv":
                        code.append("print(%s %s);" % (a, e))
                    elif o == "asg":
                        code.append("%s t%d; t%d = %s; print(t%d);" % (a, j, j, e, j))
                    else:
                        code.append("%s d%d = %s; print(d%d);" % (a, j, e, j))
                    out += ["%d->%s" % (v, c), t]
            out.append(str(v))
            tail = "print(%s.v);" % e
            if lv == "alias":
                tail += " print(al.v);"
                out.append(str(al))
            yield H.Case("lvalue:%s:%s" % (lv, seq), "public void f$$() modify throws { %s%s %s }" % (pre, " ".join(code), tail), [("f$$();", out)], states=len(seq), trans=len(seq))


def expand_inherit(shard, ns):
    """operators inherited from a base class act on the derived object's values"""
    k = 0
    for op in ARITH + CMP + ["++", "--", "[]", "conv"]:
        for ls in ("base",):
            k += 1
            if k % ns != shard:
                continue
            e = "l"
            pre = "X l = new X(12); " if ls == "var" else "V l = new X(12); "
            if op in ARITH:
                body, out = "V c = l %s 5; print(c.v);" % op, ["12%si5" % op, str(mix(op, 12, 5))]
            elif op in CMP:
                body, out = "print(l %s 5);" % op, ["12%si5" % op, str(int({"==": False, "<": False, "<=": False, ">": True, ">=": True}[op]))]
            elif op in ("++", "--"):
                body, out = "l%s; print(l.v);" % op, ["12%s" % op, "13" if op == "++" else "11"]
            elif op == "[]":
                body, out = "print(l[4]);", ["12[4", "28"]
            else:
                body, out = "print(string l);", ["12->s", "S12"]
            yield H.Case("inherit:%s:%s" % (op, ls), "public void f$$() modify throws { %s%s }" % (pre, body), [("f$$();", out)], states=1, trans=1)


def expand_self(shard, ns):
    """operators applied to the own object inside methods of the class"""
    k = 0
    for sl in SRC:
        for sr in SRC:
            if sl == sr == "global":
                continue
            k += 1
            if k % ns != shard:
                continue
            decl, calls = [], []
            p1, e1 = src(sl, "l", 12)
            p2, e2 = src(sr, "r", 5)
            pre = p1 + p2
            if e1[0] == "(":
                pre, e1 = pre + "V cc = %s; " % e1, "cc"
            for i, o in enumerate(ARITH):
                for m, out in (("self", "12%s5" % o), ("fresh", "12%s5" % o), ("rself", "5%s12" % o)):
                    decl.append("public void f$$_%d() modify throws { %sV c = %s.%s%d(%s); print(c.v); }" % (len(calls), pre, e1, m, i, e2))
                    calls.append(("f$$_%d();" % len(calls), [out, str(mix(o, 5, 12) if m == "rself" else mix(o, 12, 5))]))
            for i, o in enumerate(CMP):
                decl.append("public void f$$_%d() modify throws { %sprint(%s.cself%d(%s)); }" % (len(calls), pre, e1, i, e2))
                calls.append(("f$$_%d();" % len(calls), ["12%s5" % o, str(int(o[0] == ">"))]))
            yield H.Case("self:%s:%s" % (sl, sr), "\n".join(decl), calls, states=len(calls), trans=len(calls))


def expand_reject(shard, ns):
    """operators the class does not define (for that operand type)"""
    k = 0
    forms = [(o, "V c = a %s b;" % o) for o in ARITH] + [(o, "V c = a %s 5;" % o) for o in ARITH] + [(o, "V c = mk() %s b;" % o) for o in ARITH] + [(o, "V c = w.n %s b;" % o) for o in ARITH] + \
            [(o, "print(a %s b);" % o) for o in CMP[1:]] + [(o, "print(a %s 5);" % o) for o in CMP] + [(o, "print(mk() %s b);" % o) for o in CMP[1:]] + [(o, "a %s b;" % o) for o in COMPOUND] + [(o, "a %s 5;" % o) for o in COMPOUND] + \
            [("=", "a = 5;"), ("++", "a++;"), ("--", "a--;"), ("[]", "print(a[1]);"), ("conv", "int i = a;"), ("conv", "string s = a;"), ("neg", "V c = -a;"), ("left", "V c = 5 + a;"), ("left", "print(5 < a);")]
    for o, code in forms:
        for have in ("none", "others"):
            k += 1
            if k % ns != shard:
                continue
            ops = ""
            if have == "others":    # every operator but this one
                for q in ARITH:
                    if q != o.rstrip("=") and q != o:
                        ops += "public V operator%s(V o) const { return o; } public V operator%s(int o) const { return new V(); } " % (q, q)
                for q in CMP:
                    if q != o and not (o == "left"):
                        ops += "public bool operator%s(V o) const { return true; } public bool operator%s(int o) const { return true; } " % (q, q)
            s = "public object V { public int v; %s }\npublic object W { public V n; }\npublic V mk() { return new V(); }\npublic void run() modify throws { print(\"ran\"); V a = new V(); V b = new V(); W w = new W(); w.n = a; %s }\n" % (ops, code)
            yield H.Case("undefined:%s:%s:%s" % (have, o, code), s, [("run();", [])], kind="reject")


def expand_throw(shard, ns):
    """an exception raised in an operator leaves the expression"""
    k = 0
    P = "public object T$$ { public int v; public void Constructor(int i) { v = i; } %s public void operator++() modify throws { throw v; } public int operator[](int i) const throws { throw v + i; } public string =operator(string none) const throws { throw v; } }\npublic T$$ mt$$(int i) { return new T$$(i); }\n" % (
        " ".join("public T$$ operator%s(T$$ o) const throws { throw v * 10 + o.v; }" % o for o in ARITH) + " " + " ".join("public bool operator%s(T$$ o) const throws { throw v * 10 + o.v; }" % o for o in CMP))
    uses = [("a %s b" % o, "41") for o in ARITH + CMP + ["!="]] + [("mt$$(4) %s b" % o, "41") for o in ARITH + CMP + ["!="]] + [("a[3]", "7"), ("string a", "4")]
    for e, val in uses:
        for ctx in ("print", "if", "arg", "ret"):
            k += 1
            if k % ns != shard:
                continue
            isobj = any(" %s " % o in e for o in ARITH)
            if ctx == "print":
                code = "print((%s)%s);" % (e, ".v" if isobj else "")
                if isobj or e.startswith("string"):
                    code = "%s c = %s; print(\"no\");" % ("T$$" if isobj else "string", e)
            elif ctx == "if":
                if isobj or e[0] == "s" or "[" in e:
                    continue
                code = "if ( %s ) { print(\"no\"); } print(\"no\");" % e
            elif ctx == "arg":
                code = ("take$$(%s);" % e) if isobj else "takeb$$(%s);" % e
                if not isobj and (e[0] == "s" or "[" in e):
                    continue
            else:
                if not isobj:
                    continue
                code = "T$$ c = ret$$(a, b); print(\"no\");"
            decl = P + "public void take$$(T$$ t) { print(\"no\"); }\npublic void takeb$$(bool t) { print(\"no\"); }\n"
            if ctx == "ret":
                decl += "public T$$ ret$$(T$$ a, T$$ b) throws { return %s; }\n" % e
            decl += "public void f$$() modify throws { T$$ a = new T$$(4); T$$ b = new T$$(1); try { %s print(\"no\"); } catch ( int e ) { print(e); } print(a.v); print(b.v); }" % code
            yield H.Case("throw:%s:%s" % (ctx, e), decl, [("f$$();", [val, "4", "1"])], states=1, trans=1)


def main():
    global QUICK
    c = H.Check("C24", assumptions=["conversion of an object to bool tests for null and is not overloadable", "prefix increment and the binary ~ operator cannot be written in the language"])
    H.build(("slang",))
    QUICK = not c.thorough
    c.bounds = {"operators": ARITH + CMP + ["!=", "=", "++", "--", "[]", "conversion"] + list(COMPOUND), "left operand sources": list(SRC), "chain length": 3 if QUICK else 4, "operations on one left value": 2}
    for f, b, p in ((expand_binary, 100, PRE), (expand_chain, 100, PRE), (expand_compound, 200, PRE), (expand_inherit, 50, PRE), (expand_self, 20, PRE), (expand_throw, 30, ""), (expand_reject, 1, "")):
        if not c.violations:
            c.run_cases(f, prelude=p, batch=b)
    c.finish()


if __name__ == "__main__":
    H.main(main)
