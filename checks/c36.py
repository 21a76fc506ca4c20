"""C36: log messages reach exactly their target, one line each, in order.

Model: a log file is a list of lines; opening a logger empties it unless it appends, each message adds one line that is made of the
level, the key of the logger (joined along its parents, cut or padded to the length) and the text.  All histories of sessions,
child loggers and messages up to a bound are replayed and the file is read back."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

H.RUN_USER = 65534
PRE = '''import libLog;
public void show(string name) modify throws { int h = fopen(name, "r"); if ( h != 0 ) { string t = freads(h, -1); fclose(h); print("<" + t + ">"); remove(name); } else { print("none"); } }
'''
LEVEL = {"debug": "DEBUG", "info": "INFO ", "warning": "WARN ", "error": "ERROR", "fatal": "FATAL"}
KEYS = ("M", "Main", "ab cd")
FILES = ("one.log", "two.log")


def fit(key, n):
    return (key[-n:] if len(key) > n else key.ljust(n)) if n else key


class World:
    """files, stdout and the loggers of one session"""
    def __init__(self):
        self.files, self.out = {}, []

    def line(self, target, text):
        if target is None:
            self.out.append(text)
        else:
            self.files[target].append(text)


def session(w, no, kind, target, key, n, steps):
    """one block: a root logger, then children and messages; returns the code"""
    if kind == "S":
        code, target = 'StdOutLogger l0 = new StdOutLogger("%s"%s); ' % (key, ", %d" % n if n is not None else ""), None
    else:
        if kind == "F" or target not in w.files:
            w.files[target] = []
        cls = {"F": "FileLogger", "A": "AppendingFileLogger"}[kind]
        code = '%s l0 = new %s("%s", "%s"%s); ' % (cls, cls, target, key, ", %d" % n if n is not None else "")
    n = n or 0
    keys = [fit(key, n)]
    for i, s in enumerate(steps):
        if s[0] == "child":
            par = s[1] % len(keys)
            cls = {"L": "Logger", "T": "StdOutLogger" if kind == "S" else "FileLogger"}[s[2]]
            code += '%s l%d = new %s(ILogger l%d, "%s"); ' % (cls, len(keys), cls, par, s[3])
            keys.append(fit(keys[par].rstrip() + "::" + s[3], n))
        else:
            at = s[1] % len(keys)
            text = "m%d-%d" % (no, i)
            w.line(target, "[%s] [%s]   %s" % (LEVEL[s[2]], keys[at], text))
            if s[2] == "fatal":
                code += 'try { l%d.fatal("%s"); print("no"); } catch ( FatalError e%d ) { print(e%d.what()); } ' % (at, text, i, i)
                w.out.append("fatal error: " + text)
            else:
                code += 'l%d.%s("%s"); ' % (at, s[2], text)
    for k, key in enumerate(keys):
        code += 'print("k" + l%d.getKey() + "k" + l%d.getKeyLength()); ' % (k, k)
        w.out.append("k%sk%d" % (key, n))
    return "{ %s}" % code


def case(name, sessions):
    w, code = World(), []
    for no, s in enumerate(sessions):
        code.append(session(w, no, *s))
    for f in FILES:
        code.append('show("%s");' % f)
        if f in w.files:
            w.out += ("<" + "".join(l + "\n" for l in w.files[f]) + ">").split("\n")
        else:
            w.out.append("none")
    st = sum(len(s[4]) + 1 for s in sessions)
    return H.Case(name, "public void run$$() modify throws { %s }" % " ".join(code), [("run$$();", w.out)], states=st + 1, trans=st)


STEPS = [("log", 0, "info"), ("log", 1, "error"), ("log", 2, "warning"), ("log", 0, "fatal"), ("child", 0, "L", "sub"), ("child", 1, "T", "x"), ("child", 0, "T", "longer key")]


def expand(th):
    def f(shard, ns):
        i = 0
        for kind in "FAS":
            # levels, keys and key lengths
            for key, n, lv, ch in itertools.product(KEYS + ("",), (None, 0, 1, 3, 4, 6, 9), LEVEL, (None, "L", "T")):
                i += 1
                if i % ns == shard:
                    steps = ([("child", 0, ch, "sub")] if ch else []) + [("log", 1, lv), ("log", 0, "info")]
                    yield case("%s key %r length %s %s child %s" % (kind, key, n, lv, ch), [(kind, FILES[0], key, n, steps)])
            # sequences of children and messages
            for d in range(0, 6 if th else 5):
                for steps in itertools.product(STEPS, repeat=d):
                    i += 1
                    if i % ns == shard:
                        yield case("%s %s" % (kind, steps), [(kind, FILES[0], "M", 5, steps)])
        # sequences of sessions
        short = [(), (("log", 0, "info"),), (("child", 0, "L", "s"), ("log", 1, "error"), ("log", 0, "info"))]
        ses = [(k, t, key, n, s) for k, t in (("F", FILES[0]), ("A", FILES[0]), ("A", FILES[1]), ("S", None)) for key, n in (("M", None), ("Main", 3)) for s in short]
        for d in (2, 3) if th else (2,):
            for seq in itertools.product(ses, repeat=d):
                i += 1
                if i % ns == shard:
                    yield case("sessions %s" % (seq,), seq)
        if not th:
            some = [s for s in ses if s[2] == "M"]
            for seq in itertools.product(some, repeat=3):
                i += 1
                if i % ns == shard:
                    yield case("sessions %s" % (seq,), seq)
    return f


def main():
    c = H.Check("C36", assumptions=["two root loggers on one file at the same time are not constrained"])
    H.build(("slang",))
    th = c.thorough
    c.bounds = {"steps in a session": 5 if th else 4, "sessions": 3, "levels": len(LEVEL)}
    c.run_cases(expand(th), nshards=48, prelude=PRE, batch=100)
    c.finish()


if __name__ == "__main__":
    H.main(main)
