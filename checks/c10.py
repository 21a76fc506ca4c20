"""C10: overload resolution, default values, argument binding and passing."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

# type -> (slang type, argument expressions per position, printed text per position, default literal, its text, expression changing a parameter)
T = {
    "i": ("int", ["11", "12", "13", "14", "15"], ["11", "12", "13", "14", "15"], "7", "7", "99"),
    "s": ("string", ['"a"', '"b"', '"c"', '"d"', '"e"'], ["a", "b", "c", "d", "e"], '"D"', "D", '"zz"'),
    "b": ("bool", ["true", "false", "true", "false", "false"], ["1", "0", "1", "0", "0"], "true", "1", None),
    "f": ("float", ["1.5f", "2.5f", "3.5f", "4.5f", "5.5f"], ["1.5", "2.5", "3.5", "4.5", "5.5"], "0.5f", "0.5", "9.5f"),
    "d": ("double", ["1.25d", "2.25d", "3.25d", "4.25d", "5.25d"], ["1.25", "2.25", "3.25", "4.25", "5.25"], "0.25d", "0.25", "9.5d"),
    "l": ("int64", ["int64 21", "int64 22", "int64 23", "int64 24", "int64 25"], ["21", "22", "23", "24", "25"], None, None, "int64 99"),
    "N": ("N", ["new N(31)", "new N(32)", "new N(33)", "new N(34)", "new N(35)"], ["31", "32", "33", "34", "35"], None, None, "new N(77)"),
    "M": ("M", ["new M(41)", "new M(42)", "new M(43)", "new M(44)", "new M(45)"], ["m41", "m42", "m43", "m44", "m45"], None, None, "new M(78)"),
    "e": ("E", ["E.x", "E.y", "E.x", "E.y", "E.y"], ["1", "5", "1", "5", "5"], None, None, None),
}
PRE = '''public object N { public int v; public void Constructor(int i) { v = i; } public string t() const { return string v; } }
public object M { public int v; public void Constructor(int i) { v = i; } public string t() const { return "m" + v; } }
public enum E { x = 1, y = 5; }
'''


def text(t, name):
    return "%s.t()" % name if t in "NM" else "(string %s)" % name


# a signature is a tuple of (type, has default)
def sigs(types, maxlen, defaults=True):
    for n in range(maxlen + 1):
        for ts in itertools.product(types, repeat=n):
            yield tuple((t, False) for t in ts)
            if not defaults:
                continue
            for k in range(n):              # parameters from k on have a default
                if all(T[t][3] for t in ts[k:]):
                    yield tuple((t, i >= k) for i, t in enumerate(ts))


def matches(sig, args):
    if len(args) > len(sig):
        return False
    for i, (t, d) in enumerate(sig):
        if i < len(args):
            if args[i] != t:
                return False
        elif not d:
            return False
    return True


def accepted(sig):
    """the argument vectors a signature accepts"""
    return [tuple(t for t, d in sig[:k]) for k in range(len(sig) + 1) if all(d for t, d in sig[k:])]


def unambiguous(ss):
    seen = set()
    for s in ss:
        for a in accepted(s):
            if a in seen:
                return False
            seen.add(a)
    return True


def fn_text(name, idx, sig, mods="public", body=True, ret="string"):
    ps = ", ".join("%s p%d%s" % (T[t][0], i, " = " + T[t][3] if d else "") for i, (t, d) in enumerate(sig))
    out = '"%d(" ' % idx + "".join('+ %s + ","' % text(t, "p%d" % i) for i, (t, d) in enumerate(sig)) + ' + ")"'
    return "%s %s %s(%s) { return %s; }" % (mods, ret, name, ps, out)


def expect(idx, sig, args):
    return "%d(%s)" % (idx, "".join((T[t][2][i] if i < len(args) else T[t][4]) + "," for i, (t, d) in enumerate(sig)))


def call_args(args, form):
    """form 0: literals, 1: variables, 2: function results -> (declarations, argument text)"""
    if form == 0:
        return "", ", ".join(T[a][1][i] for i, a in enumerate(args))
    if form == 1:
        return "".join("%s v%d = %s; " % (T[a][0], i, T[a][1][i]) for i, a in enumerate(args)), ", ".join("v%d" % i for i in range(len(args)))
    return "", ", ".join("id%s%d()" % (a, i) for i, a in enumerate(args))


CTX = ("free", "method", "static", "ctor", "split")


def name_of(sig):
    return "".join(t + ("=" if d else "") for t, d in sig) or "0"


def overload_case(ss, ctx, form):
    decl, calls, body = [], [], []
    if ctx == "free":
        decl = [fn_text("g$$", i, s) for i, s in enumerate(ss)]
        call = "g$$(%s)"
        pre = ""
    elif ctx == "method":
        decl = ["public object K$$ { %s }" % " ".join(fn_text("g", i, s, "public") for i, s in enumerate(ss))]
        call = "k.g(%s)"
        pre = "K$$ k = new K$$(); "
    elif ctx == "static":
        decl = ["public object K$$ { %s }" % " ".join(fn_text("g", i, s, "public static") for i, s in enumerate(ss))]
        call = "K$$.g(%s)"
        pre = ""
    elif ctx == "split":    # overloads spread over a class and its base
        h = len(ss) // 2
        decl = ["public object B$$ { %s }" % " ".join(fn_text("g", i, s) for i, s in list(enumerate(ss))[:h]),
                "public object K$$ extends B$$ { %s }" % " ".join(fn_text("g", i, s) for i, s in list(enumerate(ss))[h:])]
        call = "k.g(%s)"
        pre = "K$$ k = new K$$(); "
    else:
        decl = ["public object K$$ { public string r; %s }" % " ".join(
            fn_text("Constructor", i, s, "public", ret="void").replace("return ", "r = ") for i, s in enumerate(ss))]
        call = "(new K$$(%s))"
        pre = ""
    n = 0
    for i, s in enumerate(ss):
        for a in accepted(s):
            d, txt = call_args(a, form)
            if ctx == "ctor":
                code = "%sK$$ k = new K$$(%s); print(k.r);" % (d, txt)
            else:
                code = pre + d + "print(%s);" % (call % txt)
            body.append("public void f$$_%d() modify throws { %s }" % (n, code))
            calls.append(("f$$_%d();" % n, [expect(i, s, a)]))
            n += 1
    return H.Case("overload:%s:%s:%d" % (ctx, "/".join(map(name_of, ss)), form), "\n".join(decl + body), calls, states=len(calls), trans=len(calls))


def id_fns():
    return "\n".join("public %s id%s%d() { return %s; }" % (T[t][0], t, i, T[t][1][i]) for t in T for i in range(5)) + "\n"


def sets(quick):
    """unambiguous overload sets: singles over all types, long singles, pairs over three types, triples of short signatures"""
    allt = "isbfdlNMe"
    for s in sigs(allt, 2):
        yield (s,)
    for ts, k in ((allt, 3), ("isbN", 4), ("is", 5)) if quick else ((allt, 3), ("isbN", 5), ("isdf", 5)):
        for s in sigs(ts, k):
            if len(s) > 2:
                yield (s,)
    for ts, k, m in (("isNb", 2, 2), (allt, 1, 2), (allt, 1, 3), (allt, 1, 4), ("iN", 3, 2), ("is", 2, 3)) + \
            (() if quick else (("isNbe", 2, 2), ("is", 3, 2), ("iN", 2, 4), ("is", 2, 4), ("i", 4, 2), ("i", 4, 3))):
        for c in itertools.combinations(list(sigs(ts, k)), m):
            if unambiguous(c):
                yield c


def expand_over(shard, ns):
    n = 0
    for ss in sets(QUICK):
        for j, ctx in enumerate(CTX):
            if ctx == "split" and len(ss) < 2:
                continue
            for form in range(3):
                n += 1
                if (n // 30) % ns != shard:
                    continue
                yield overload_case(ss, ctx, form)


def expand_reject(shard, ns):
    """calls no overload matches, and overloads with one parameter list"""
    n = 0
    types = "isNe" if QUICK else "isNMefdlb"
    small = list(sigs("isN", 2, False)) + [(("i", True),), (("i", False), ("s", True)), (("s", True), ("s", True))]
    vecs = [v for k in range(3) for v in itertools.product(types if k < 2 else "isN", repeat=k)] + [("i", "i", "i")]
    pool = [(s,) for s in small] + [c for c in itertools.combinations([s for s in small if len(s) < 2], 2) if unambiguous(c)]
    for ss in pool:
        for a in vecs:
            if any(matches(s, a) for s in ss):
                continue
            for ctx in ("free", "method", "static", "ctor"):
                n += 1
                if n % ns != shard:
                    continue
                c = overload_case(ss, ctx, 0)
                d, txt = call_args(a, 1 if n % 2 else 0)
                decl = "\n".join(x for x in c.decls.split("\n") if not x.startswith("public void f$$_")).replace("$$", "")
                if ctx == "ctor":
                    code = "print(\"ran\"); %sK k = new K(%s); print(k.r);" % (d, txt)
                else:
                    code = "print(\"ran\"); " + {"free": "", "method": "K k = new K(); ", "static": ""}[ctx] + d + "print(%s(%s));" % ({"free": "g", "method": "k.g", "static": "K.g"}[ctx], txt)
                # a class without a constructor for no arguments but with others is given none; C06 covers the default constructor
                if ctx == "ctor" and not a:
                    continue
                yield H.Case("nomatch:%s:%s:%s" % (ctx, "/".join(map(name_of, ss)), "".join(a)), PRE + decl + "\npublic void run() modify throws { %s }\n" % code, [("run();", [])], kind="reject")
    for s in sigs("isN", 2, False):
        for ctx in ("free", "method", "static"):
            n += 1
            if n % ns != shard:
                continue
            c = overload_case((s, s), ctx, 0)
            decl = "\n".join(x for x in c.decls.split("\n") if not x.startswith("public void f$$_")).replace("$$", "")
            yield H.Case("duplicate:%s:%s" % (ctx, name_of(s)), PRE + decl + "\npublic void run() modify throws { print(\"ran\"); }\n", [("run();", [])], kind="reject")


# --- passing: what the callee does with its parameter is or is not seen by the caller ------------------------------

def expand_pass(shard, ns):
    """argument sources x operations on the parameter x call depth: built-in values are copied, objects are shared"""
    n = 0
    at = {"i": ["p = 99;", "p++;", "p += 5;", "p--;", "p -= 3;"], "s": ['p = "zz";', 'p += "q";'], "b": ["p = !p;", "p = false;"], "f": ["p = 9.5f;", "p *= 2.0f;"],
          "d": ["p = 9.5d;", "p /= 2.0d;"], "l": ["p = int64 99;"], "e": ["p = E.y;"]}
    srcs = {"var": ("%(t)s v = %(a)s; ", "v"), "member": ("H$$ h = new H$$(); h.m = %(a)s; ", "h.m"), "global": ("gv$$ = %(a)s; ", "gv$$"),
            "chain": ("G$$ o = new G$$(); o.h = new H$$(); o.h.m = %(a)s; ", "o.h.m"), "param": None}
    for t in at:
        ty = T[t][0]
        for op in at[t]:
            for kind in ("free", "method", "static", "nested", "ctor"):
                for src in srcs:
                    n += 1
                    if n % ns != shard:
                        continue
                    decl = ["public object H$$ { public %s m; }" % ty, "public object G$$ { public H$$ h; }", "public %s gv$$;" % ty]
                    decl.append("public object C$$ { public void Constructor(%s p) { %s } public static void sc(%s p) { %s } }" % (ty, op, ty, op))
                    decl.append("public object D$$ { public void mc(%s p) modify { %s } }" % (ty, op))
                    decl.append("public void fc$$(%s p) { %s }" % (ty, op))
                    decl.append("public void nc$$(%s p) { fc$$(p); print(%s); %s }" % (ty, text(t, "p"), op))
                    call = {"free": "fc$$(%s);", "method": "D$$ d = new D$$(); d.mc(%s);", "static": "C$$.sc(%s);", "nested": "nc$$(%s);", "ctor": "C$$ c = new C$$(%s);"}[kind]
                    out = [T[t][2][0]] * (2 if kind == "nested" else 1)
                    if src == "param":
                        decl.append("public void outer$$(%s q) modify throws { %s print(%s); }" % (ty, call % "q", text(t, "q")))
                        code = "%s v = %s; outer$$(v); print(%s);" % (ty, T[t][1][0], text(t, "v"))
                        out = out + [T[t][2][0]]
                    else:
                        pre, e = srcs[src]
                        code = pre % {"t": ty, "a": T[t][1][0]} + call % e + " print(%s);" % text(t, e)
                    yield H.Case("value:%s:%s:%s:%s" % (t, op, kind, src), "\n".join(decl) + "\npublic void f$$() modify throws { %s }" % code, [("f$$();", out)], states=2, trans=1)
    # objects: changes of the object are seen, a new object assigned to the parameter is not
    ops = {"w": ("p.v = 50;", 50), "n": ("p = new N(77);", None), "wn": ("p.v = 50; p = new N(77);", 50), "nw": ("p = new N(77); p.v = 50;", None), "-": ("", None)}
    srcs = {"var": ("N v = new N(31); ", "v"), "member": ("H$$ h = new H$$(); h.m = new N(31); ", "h.m"), "global": ("gv$$ = new N(31); ", "gv$$"),
            "chain": ("G$$ o = new G$$(); o.h = new H$$(); o.h.m = new N(31); ", "o.h.m"), "alias": ("N w = new N(31); N v = w; ", "v")}
    for o1 in ops:
        for o2 in ops:
            for kind in ("free", "method", "static", "nested", "ctor", "twice"):
                for src in srcs:
                    n += 1
                    if n % ns != shard:
                        continue
                    code1, e1 = ops[o1]
                    code2, e2 = ops[o2]
                    decl = ["public object H$$ { public N m; }", "public object G$$ { public H$$ h; }", "public N gv$$;"]
                    decl.append("public object C$$ { public void Constructor(N p) { %s } public static void sc(N p) { %s } }" % (code1, code1))
                    decl.append("public object D$$ { public void mc(N p) modify { %s } }" % code1)
                    decl.append("public void fc$$(N p) { %s }" % code1)
                    decl.append("public void nc$$(N p) { fc$$(p); print(p.t()); %s }" % code2)
                    decl.append("public void two$$(N p, N q) { %s %s }" % (code1, code2.replace("p", "q")))
                    if kind not in ("nested", "twice") and o2 != "-":
                        continue
                    call = {"free": "fc$$(%s);", "method": "D$$ d = new D$$(); d.mc(%s);", "static": "C$$.sc(%s);", "nested": "nc$$(%s);", "ctor": "C$$ c = new C$$(%s);", "twice": "two$$(%s, %s);"}[kind]
                    v = e1 if e1 is not None else 31
                    out = []
                    if kind == "nested":
                        out.append(str(v))
                    if kind in ("nested", "twice") and e2 is not None:
                        v = e2
                    pre, e = srcs[src]
                    code = pre + (call % ((e, e) if kind == "twice" else e)) + " print(%s.t());" % e + (" print(w.t());" if src == "alias" else "")
                    out += [str(v)] * (2 if src == "alias" else 1)
                    yield H.Case("object:%s:%s:%s:%s" % (o1, o2, kind, src), "\n".join(decl) + "\npublic void f$$() modify throws { %s }" % code, [("f$$();", out)], states=2, trans=2)


def main():
    global QUICK
    c = H.Check("C10", assumptions=["overload sets in which a call could match two parameter lists are not covered (the language does not order them)",
                                    "built-in values living on the heap (new int) are not covered"])
    H.build(("slang",))
    QUICK = not c.thorough
    c.bounds = {"parameter types": list(T), "parameters": 5, "overloads": 4, "contexts": CTX}
    for f, b in ((expand_over, 150), (expand_pass, 150), (expand_reject, 1)):
        if not c.violations:
            c.run_cases(f, prelude=(PRE + id_fns()) if b > 1 else "", batch=b)
    c.finish()


if __name__ == "__main__":
    H.main(main)
