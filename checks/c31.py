"""C31: command line parameters - how the parameter library splits and serves them.

Model: a parameter is written as prefix, name and optionally '=' and a value, with quotes and escapes; the library holds the list
of (name, value) behind the program name.  All lists of bounded length over all forms and separators, and all sequences of queries
and removals on lists with repeated names, are replayed on the library; lists that a shell can pass are also given to the
interpreter as real arguments."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

PRE = '''import libParam;
public void list(ParameterHandler p) modify throws {
 print("n" + p.size() + (p.empty() ? "e" : "f"));
 foreach ( Parameter q : p ) { print(q.Key + "|" + q.Value + "|" + (string q)); }
 for ( int i = 0; i < p.size(); i++ ) { Parameter q = p[i]; print(q.Key + "|" + q.Value); }
}
public void split(int argc, string args) modify throws { ParameterHandler p = new ParameterHandler(argc, args, false); print(p.programName()); print(p.directoryName()); list(p); }
public void has(ParameterHandler p, string k) modify { print(p.contains(k)); }
public void get(ParameterHandler p, string k) modify { try { Parameter q = p[k]; print(q.Key + "=" + q.Value); } catch ( IException e ) { print("none"); } }
public void at(ParameterHandler p, int i) modify { try { Parameter q = p[i]; print(q.Key + "=" + q.Value); } catch ( IException e ) { print("none"); } }
public void rat(ParameterHandler p, int i) modify { try { Parameter q = p[i]; print(q.toString()); print(p.remove(q)); print(p.remove(q)); print(p.remove(new Parameter(q.Key, q.Value))); print(q == "a"); } catch ( IException e ) { print("none"); } }
public void rem(ParameterHandler p, string k) modify { try { print(p.remove(k)); } catch ( IException e ) { print("error"); } }
'''
# (written tail, has value, value)
TAILS = [("", ""), ("=", ""), ("=v", "v"), ('="x y"', "x y"), ("=q=r", "q=r"), ('=\\"z', '"z'), ("=a\\\\b", "a\\b"), ("=-1", "-1"), ("=false", "false"), ('="="', "=")]
NAMES = [("a", "a"), ("false", "false"), ("b2", "b2"), ("c-d", "c-d"), ('"e f"', "e f"), ("g\\\"h", 'g"h')]
PROGS = [("p.os", ""), ("./d/p.os", "./d/"), ("/x/y/z", "/x/y/"), ("d/", "d/")]


def forms(tails=TAILS, names=NAMES, prefixes=("", "-", "--")):
    for pre in prefixes:
        for w, key in names:
            for t, v in tails:
                yield pre + w + t, key, v


def lit(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def listed(ps):
    return ["n%d%s" % (len(ps), "f" if ps else "e")] + ["%s|%s|%s" % (k, v, v) for k, v in ps] + ["%s|%s" % x for x in ps]


def lists(th):
    """(program, separators, written forms)"""
    every = list(forms())
    for pr in PROGS:
        yield pr, (), ()
        for f in every:
            for sep in (" ", "\n", "  ", " \n"):
                yield pr, (sep,), (f,)
    for f, g in itertools.product(every, repeat=2):
        for seps in ((" ", " "), ("\n", "\n"), ("  ", "\n")) if th else ((" ", "\n"),):
            yield PROGS[0], seps, (f, g)
    few = list(forms(TAILS[:5], NAMES[:2] + NAMES[4:5], ("", "--")))
    for fs in itertools.product(few, repeat=3):
        yield PROGS[1], (" ", "\n", " "), fs
    if th:
        tiny = list(forms(TAILS[:4], NAMES[:1], ("", "--")))
        for fs in itertools.product(tiny, repeat=4):
            yield PROGS[0], (" ", " ", "\n", " "), fs


def splits(th):
    def f(shard, n):
        for i, (pr, seps, fs) in enumerate(lists(th)):
            if i % n != shard:
                continue
            text = pr[0] + "".join(s + f[0] for s, f in zip(seps, fs))
            exp = [pr[0], pr[1]] + listed([(k, v) for _, k, v in fs])
            # line ends inside a string are given by their code
            arg = " + LINEBREAK + ".join(lit(x) for x in text.split("\n"))
            yield H.Case("split %r" % text, "", [("split(%d, %s);" % (len(fs) + 1, arg), exp)], states=len(fs) + 1, trans=len(text))
    return f


def queries(th):
    depth = 4 if th else 3
    ops = [("has", "a"), ("has", "b"), ("has", "x"), ("get", "a"), ("get", "b"), ("get", "x"), ("at", 0), ("at", 1), ("at", 9), ("rat", 0), ("rat", 1), ("rem", "a"), ("rem", "b"), ("rem", "x")]

    def run(o, k, ps):
        if o == "has":
            return "1" if any(x[0] == k for x in ps) else "0"
        if o == "get":
            return next(("%s=%s" % x for x in ps if x[0] == k), "none")
        if o == "at":
            return "%s=%s" % ps[k] if k < len(ps) else "none"
        if o == "rat":
            if k >= len(ps):
                return "none"
            x = ps.pop(k)
            return "Parameter { Key: '%s', Value: '%s' }\n1\n0\n0\n%d" % (x + (x[0] == "a",))
        for i, x in enumerate(ps):
            if x[0] == k:
                del ps[i]
                return "1"
        return "0"

    def f(shard, n):
        i = 0
        for m in range(0, 4):
            for names in itertools.product("ab", repeat=m):
                start = [(x, str(j)) for j, x in enumerate(names)]
                text = "p" + "".join(" --%s=%s" % x for x in start)
                for d in range(1, depth + 1):
                    for seq in itertools.product(ops, repeat=d):
                        i += 1
                        if i % n != shard or d == depth and not any(o[0][0] == "r" for o in seq[:-1]):
                            continue
                        ps, out, code = list(start), [], ""
                        for o, k in seq:
                            out += run(o, k, ps).split("\n")
                            code += "%s(p, %s); " % (o, k if o in ("at", "rat") else '"%s"' % k)
                        yield H.Case("%s: %s" % (text, seq), "public void case$$() modify throws { ParameterHandler p = new ParameterHandler(%d, \"%s\"); %slist(p); }\n" % (m + 1, text, code),
                                     [("case$$();", out + listed(ps))], states=d + 1, trans=d)
    return f


def real(shard, n):
    """arguments of the process itself"""
    words = [f for f in forms(TAILS[:3] + TAILS[4:5], NAMES[:3])]
    few = [f for f in forms(TAILS[:3] + TAILS[4:5], NAMES[:1], ("", "--"))]
    i = 0
    for fs in itertools.chain([()], ((w,) for w in words), itertools.product(few, repeat=2)):
        i += 1
        if i % n != shard:
            continue
        exp = listed([(k, v) for _, k, v in fs])
        yield H.Case("arguments %s" % " ".join(f[0] for f in fs), PRE, [("", exp)], kind="accept", states=len(fs) + 1, trans=len(fs), args=[f[0] for f in fs],
                     main="public int Main(int argc, string args) modify throws { ParameterHandler p = new ParameterHandler(argc, args); list(p); return 0; }\n")


def main():
    c = H.Check("C31", assumptions=["empty parameters, separators at the end and escapes other than those of quotes and backslashes are not constrained", "parameters of the process contain neither blanks nor quotes"])
    H.build(("slang",))
    th = c.thorough
    c.bounds = {"forms of a parameter": sum(1 for _ in forms()), "parameters in a list": 4 if th else 3, "queries and removals in a row": 4 if th else 3}
    c.run_cases(splits(th), nshards=48, prelude=PRE, batch=100)
    if not c.violations:
        c.run_cases(queries(th), nshards=48, prelude=PRE, batch=100)
    if not c.violations:
        c.run_cases(real, nshards=16)
    c.finish()


if __name__ == "__main__":
    H.main(main)
