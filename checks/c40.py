"""C40: the marks of a declaration restrict exactly what they say, replicas are types of their own, type queries name the real type.

Model: a chain of classes, each with one mark (none, virtual, abstract, final) and one state of maturity.  A chain is refused iff a class
below a final one exists; creating an object fails iff its class is abstract; everything else behaves as without marks.  A replica has
all members, marks and ancestors of its original, but is neither the original nor derived from it.  A constant class is accepted iff all
of its members and methods are constant and it extends nothing.  A call of a routine without an implementation is refused, others are
not.  All combinations up to the bounds are replayed."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

QUICK = os.environ.get("VERIF_TIER", "quick") != "thorough"
MARKS = ("", "virtual", "abstract", "final")
STATES = ("", "deprecated", "unstable", "stable")
PLACES = ("file", "namespace", "generic", "reversed")


def chain(marks, states, place):
    """(declarations, name of class i in a type)"""
    arg = "<int>" if place == "generic" else ""
    name = lambda i: ("N$$." if place == "namespace" else "") + "K$$_%d" % i + arg
    decl = []
    for i, (m, s) in enumerate(zip(marks, states)):
        up = "K$$_%d" % (i - 1) + arg
        head = " ".join(x for x in ("public", s, m, "object") if x)
        t = "T" if place == "generic" else "int"
        decl.append("%s K$$_%d%s%s { public %s m%d; public int get%d() const { return %d; } public void set%d(%s v) modify { m%d = v; } public static int s%d() { return %d; } }"
                    % (head, i, "<T>" if place == "generic" else "", " extends " + up if i else "", t, i, i, 10 + i, i, t, i, i, 20 + i))
    if place == "reversed":
        decl.reverse()
    text = "\n".join(decl)
    if place == "namespace":
        text = "public namespace N$$ {\n%s\n}" % text
    return text, name


def uses(i, tn, own, others, sub=""):
    """code that uses an object of class i (named tn) and the expected lines; own: name for the type query; others: [(type, expected)]"""
    code, exp = "%s x%s = new %s(); " % (tn, sub, tn), []
    x = "x" + sub
    code += 'print(typeid(%s) == "%s"); ' % (x, own)
    exp.append("1")
    for k in range(i + 1):
        code += "%s.set%d(%d); print(%s.m%d); print(%s.get%d()); " % (x, k, 5 + k, x, k, x, k)
        exp += [str(5 + k), str(10 + k)]
    for t, e in others:
        code += "print(%s is %s); " % (x, t)
        exp.append(e)
    return code, exp


def refused(marks):
    return any(m == "final" for m in marks[:-1])


def combos():
    """all (marks, states, place)"""
    for d in (1, 2, 3):
        for marks in itertools.product(MARKS, repeat=d):
            for place in PLACES:
                if place == "file" and (d < 3 or not QUICK):
                    sts = itertools.product(STATES, repeat=d)
                elif place == "file":
                    sts = [(s,) * d for s in STATES] + [tuple(s if k == j else "" for k in range(d)) for s in STATES[1:] for j in range(d)]
                else:
                    sts = [("",) * d, ("unstable",) * d]
                for st in sts:
                    yield marks, st, place


def mark_cases(marks, states, place):
    d = len(marks)
    text, name = chain(marks, states, place)
    tag = "%s:%s:%s" % (place, ",".join(m or "-" for m in marks), ",".join(s or "-" for s in states))
    if refused(marks):
        # a generic class exists once it is used
        use = "%s x;" % name(d - 1) if place == "generic" else ""
        yield H.Case("extend final " + tag, text, [('%s print("no");' % use, [])], kind="reject", states=d, trans=1)
        return
    body, calls = [], []
    for i in range(d):
        if marks[i] == "abstract":
            yield H.Case("create abstract %d %s" % (i, tag), text, [('%s x = new %s(); print("no");' % (name(i), name(i)), [])], kind="fail", states=d, trans=1)
            if place != "generic":
                calls.append(("print(%s.s%d());" % (name(i), i), [str(20 + i)]))
            continue
        code, exp = uses(i, name(i), name(i), [(name(k), "1" if k <= i else "0") for k in range(d)])
        for k in range(i):
            code += 'if ( true ) { %s y = %s x; print(typeid(y) == "%s"); print(y.get%d()); print(y is %s); }' % (name(k), name(k), name(i), k, name(i))
            exp += ["1", str(10 + k), "1"]
        if place != "generic":
            code += "print(%s.s%d()); " % (name(i), i)
            exp.append(str(20 + i))
        body.append("public void f$$_%d() modify throws { %s }" % (i, code))
        calls.append(("f$$_%d();" % i, exp))
    for i in range(d):
        body.append('public string n$$_%d() { %s x; if ( x ) { return "object"; } return "null"; }' % (i, name(i)))
        calls.append(("print(n$$_%d());" % i, ["null"]))
    yield H.Case("chain " + tag, text + "\n" + "\n".join(body), calls, states=len(calls), trans=sum(len(c[1]) for c in calls))


def replica_cases(marks, place, before):
    """a replica of every class of the chain and a class below the replica"""
    d = len(marks)
    if refused(marks) or place == "generic" and before:
        return
    text, name = chain(marks, ("",) * d, place)
    tag = "%s:%s:%s" % (place, ",".join(m or "-" for m in marks), "before" if before else "after")
    for i in range(d):
        rep = "public object R$$ replicates %s;" % name(i)
        decl = rep + "\n" + text if before else text + "\n" + rep
        below = decl + "\npublic object S$$ extends R$$ { public int own; }"
        if marks[i] == "final":
            yield H.Case("extend replica of final %d %s" % (i, tag), below, [('print("no");', [])], kind="reject", states=d + 1, trans=1)
        if marks[i] == "abstract":
            yield H.Case("create replica of abstract %d %s" % (i, tag), decl, [('R$$ x = new R$$(); print("no");', [])], kind="fail", states=d + 1, trans=1)
        body, calls = [], []
        rel = [("R$$", "1")] + [(name(k), "1" if k < i else "0") for k in range(d)]
        body.append('public string o$$(R$$ x) { return "replica"; } public string o$$(%s x) { return "original"; }' % name(i))
        if marks[i] != "abstract":
            code, exp = uses(i, "R$$", "R$$", rel)
            orig, oexp = uses(i, name(i), name(i), [("R$$", "0"), (name(i), "1")], "o")
            code += orig + "print(o$$(x)); print(o$$(xo)); "
            exp += oexp + ["replica", "original"]
            for k in range(i + 1):
                code += "x.set%d(77); print(x.m%d); print(xo.m%d); " % (k, k, k)
                exp += ["77", str(5 + k)]
            for k in range(i):
                code += "if ( true ) { %s y = %s x; print(y.get%d()); print(y is R$$); }" % (name(k), name(k), k)
                exp += [str(10 + k), "1"]
            body.append("public void r$$() modify throws { %s }" % code)
            calls.append(("r$$();", exp))
        if marks[i] != "final":
            code, exp = uses(i, "S$$", "S$$", [("S$$", "1")] + rel)
            code += "x.own = 3; print(x.own); R$$ z = R$$ x; print(z is S$$); print(z.get%d()); " % i
            exp += ["3", "1", str(10 + i)]
            body.append("public void s$$() modify throws { %s }" % code)
            calls.append(("s$$();", exp))
        yield H.Case("replica %d %s" % (i, tag), (below if marks[i] != "final" else decl) + "\n" + "\n".join(body), calls, states=len(calls), trans=sum(len(c[1]) for c in calls))


# (text, is it constant)
MEMBERS = (("private int a const = 1;", True), ("private int b;", False), ("private int c modify;", False), ("public int f() const { return 4; }", True),
           ("public int g() modify { return 5; }", False), ("public static int h() const { return 6; }", True), ("protected string t const = \"t\";", True))


def const_cases():
    for n in range(0, 4 if QUICK else len(MEMBERS) + 1):
        for sel in itertools.combinations(range(len(MEMBERS)), n):
            for ext in (False, True):
                for mut in ("const", "modify", ""):
                    text = "public object P$$ { public int p() const { return 9; } }\npublic object A$$ %s %s { public int z() const { return 8; } %s }" % (mut, "extends P$$" if ext else "", " ".join(MEMBERS[k][0] for k in sel))
                    name = "class %s %s %s" % (mut or "plain", "extends" if ext else "-", ",".join(map(str, sel)))
                    if mut == "const" and (ext or not all(MEMBERS[k][1] for k in sel)):
                        yield H.Case(name, text, [('print("no");', [])], kind="reject", states=n + 1, trans=1)
                        continue
                    code, exp = "A$$ x = new A$$(); print(x.z()); ", ["8"]
                    if 3 in sel:
                        code, exp = code + "print(x.f()); ", exp + ["4"]
                    if 4 in sel:
                        code, exp = code + "print(x.g()); ", exp + ["5"]
                    if 5 in sel:
                        code, exp = code + "print(A$$.h()); ", exp + ["6"]
                    if ext:
                        code, exp = code + "print(x.p()); ", exp + ["9"]
                    yield H.Case(name, text + "\npublic void k$$() modify throws { %s }" % code, [("k$$();", exp)], states=n + 1, trans=len(exp))


KINDS = ("function", "method", "static", "inherited", "overload", "namespace", "caller")


def state_cases():
    """routines in every state of maturity; two of them, all combinations of calls"""
    for kind in KINDS:
        for states in itertools.product(STATES + ("notimplemented",), repeat=2):
            decl = []
            for k, s in enumerate(states):
                mid = "static" if kind == "static" else ""
                sig = " ".join(x for x in ("public", mid, s, "int r%s(%s)" % ("$$" if kind == "overload" else "$$_%d" % k, "string a" if k and kind == "overload" else "int a"), "const") if x)
                if kind in ("function", "namespace", "caller", "overload"):
                    sig = sig.replace(" const", "")
                decl.append(sig + (";" if s == "notimplemented" else " { return %d; }" % (30 + k)))
            text = "\n".join(decl)
            if kind in ("method", "static"):
                text = "public object C$$ {\n%s\n}" % text
            elif kind == "inherited":
                text = "public object B$$ {\n%s\n}\npublic object C$$ extends B$$ { }" % text
            elif kind == "namespace":
                text = "public namespace N$$ {\n%s\n}" % text
            call = {"function": "r$$_%d(1)", "caller": "r$$_%d(1)", "overload": "r$$(%s)", "method": "x.r$$_%d(1)", "inherited": "x.r$$_%d(1)", "static": "C$$.r$$_%d(1)", "namespace": "N$$.r$$_%d(1)"}[kind]
            pre = "C$$ x = new C$$(); " if kind in ("method", "inherited") else ""
            for n in (0, 1, 2):
                for seq in itertools.product((0, 1), repeat=n):
                    name = "states %s %s calls %s" % (kind, ",".join(s or "-" for s in states), ",".join(map(str, seq)))
                    bad = any(states[k] == "notimplemented" for k in seq)
                    exps = [call % (("1", '"a"')[k] if kind == "overload" else k) for k in seq]
                    code = pre + " ".join("print(%s);" % e for e in exps)
                    if kind == "caller":
                        code = "if ( false ) { %s }" % code if bad else code
                    full = text + "\npublic void k$$() modify throws { %s }" % code
                    if bad:
                        yield H.Case(name, full, [('print("no"); k$$();', [])], kind="reject", states=2, trans=n)
                    else:
                        yield H.Case(name, full, [("k$$();", [str(30 + k) for k in seq])], states=2, trans=n + 1)


def nested_cases():
    """classes with nested types, used directly, as prototype, as replica and through a derived class"""
    for n in range(0, 4):
        for kinds in itertools.product("eos", repeat=n):
            for form in ("plain", "generic", "two", "replica", "derived", "derived generic", "derived replica"):
                text, code, exp = "", "", []
                for k, t in enumerate(kinds):
                    if t == "e":
                        text += " public enum E%d { X, Y = %d; } public E%d v%d; public int f%d() const { return int E%d.Y; }" % (k, 40 + k, k, k, k, k)
                    elif t == "o":
                        text += " public object O%d { public int a; public int b() const { return %d; } } public O%d v%d; public int f%d() modify { v%d = new O%d(); return v%d.b() + v%d.a; }" % (k, 40 + k, k, k, k, k, k, k, k)
                    else:
                        text += " public static int v%d; public static void u%d(int x) modify { v%d = x; } public int f%d() const { return v%d; }" % (k, k, k, k, k)
                gen = "generic" in form or form == "two"
                decl = "public object A$$%s {%s public int z() const { return 1; } }" % ("<T>" if gen else "", text)
                tn = "A$$<int>" if gen else "A$$"
                if "replica" in form:
                    decl += " public object R$$ replicates %s;" % tn
                    tn = "R$$"
                if "derived" in form:
                    decl += " public object D$$ extends %s { }" % tn
                    tn = "D$$"
                if gen and "s" in kinds:
                    continue                # static members of prototypes are not constrained
                for t in (tn, "A$$<string>") if form == "two" else (tn,):
                    code += "if ( true ) { %s x = new %s(); print(x.z()); " % (t, t)
                    exp.append("1")
                    for k, t in enumerate(kinds):
                        if t == "s":
                            code += "x.u%d(%d); " % (k, 40 + k)
                        code += "print(x.f%d()); " % k
                        exp.append(str(40 + k))
                    code += "}"
                yield H.Case("nested %s %s" % (form, "".join(kinds)), decl + "\npublic void k$$() modify throws { %s }" % code, [("k$$();", exp)], states=n + 1, trans=len(exp))


def cases():
    for m, s, p in combos():
        yield from mark_cases(m, s, p)
    for d in (1, 2, 3):
        for marks in itertools.product(MARKS, repeat=d):
            for place in PLACES:
                for before in (False, True):
                    yield from replica_cases(marks, place, before)
    yield from const_cases()
    yield from state_cases()
    yield from nested_cases()


def expand(shard, ns):
    for n, c in enumerate(cases()):
        if n % ns == shard:
            yield c


def main():
    c = H.Check("C40", assumptions=["replicas of replicas, static members of replicas and classes marked as not implemented are not constrained",
                                    "an object reaches a variable of a class more than one step above its own by a cast"])
    H.build(("slang",))
    c.bounds = {"chain": 3, "marks": len(MARKS), "maturity": len(STATES) + 1, "places": len(PLACES), "members of a constant class": 3 if QUICK else len(MEMBERS), "calls": 2, "nested types": 3}
    c.run_cases(expand)
    c.finish()


H.main(main)
