"""C38: times convert to text and back, child processes run, end and are waited for as described.

Model of time: local time fields and instants under a set of time zone rules; all combinations of instants, zones and format parts are
replayed both ways.  Model of processes: a tree of processes, each with its own copy of the variables; all programs over say / fork /
wait / waitpid up to a bound are replayed, the lines of each process and the order implied by waiting are compared."""
import sys, os, re, itertools, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

ZONES = ("UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "IST-5:30", "AEST-10AEDT,M10.1.0,M4.1.0/3")
PARTS = ("%Y", "%m", "%d", "%H", "%M", "%S", "%j", "%a", "%A", "%b", "%B", "%y", "%p", "%I", "%e", "%u", "%w", "%F", "%T", "%D", "%R", "%%", "x y", "%C", "%U", "%s")
FORMATS = ("%Y-%m-%d %H:%M:%S", "%d.%m.%Y %H:%M:%S", "%Y%m%d%H%M%S", "%j %Y %S %M %H %m %d", "%b %d %Y %T", "%D %T", "%F %R:%S")


def instants(th):
    days = [0, 1, 58, 59, 364, 365, 789, 790, 10956, 10957, 11016, 11017, 12000, 19723, 19782, 19783, 20500, 20521, 20540, 20546, 20547, 20730, 20757, 20758, 24000, 24855]
    secs = [1, 59, 3599, 3600, 3661, 7199, 7200, 10799, 10800, 43199, 43200, 86399]
    for d in days:
        for s in secs if th or d in (0, 11016, 20521, 20540, 20758) else secs[::3]:
            t = d * 86400 + s
            if 86400 < t < 2 ** 31 - 86400 or t == 1:
                yield t


def local(t, zone):
    os.environ["TZ"] = zone
    time.tzset()
    return time.localtime(t)


def unique(t, zone):
    """the local time of the instant denotes only this instant"""
    f = local(t, zone)[:6]
    return not any(local(t + d, zone)[:6] == f for d in (-7200, -3600, -1800, 1800, 3600, 7200))


def expand_time(th):
    def f(shard, ns):
        i = 0
        for zone in ZONES:
            for t in instants(th):
                i += 1
                if i % ns != shard:
                    continue
                calls, want = [], []
                fields = local(t, zone)
                pairs = [p for p in PARTS] + ["%s|%s" % p for p in itertools.product(PARTS, repeat=2)] if th or t % 7 == 0 else PARTS
                for p in pairs:
                    calls.append('print("<" + strftime("%s", %d) + ">");' % (p, t))
                    want.append("<%s>" % time.strftime(p, fields))
                if unique(t, zone):
                    for fm in FORMATS:
                        calls.append('print(strptime("%s", "%s"));' % (fm, time.strftime(fm, fields)))
                        want.append(str(t))
                        calls.append('print(strftime("%s", strptime("%s", "%s")));' % (fm, fm, time.strftime(fm, fields)))
                        want.append(time.strftime(fm, fields))
                yield judge("%s at %d" % (zone, t), "public void Main(int argc, string args) modify { %s }" % "\n".join(calls), want, len(calls), env={"TZ": zone})
        if shard == 0:
            calls, want = [], []
            for fm, txt in (("%Y-%m-%d", "x"), ("%Y-%m-%d", ""), ("%Y-%m-%d", "2000-13-01"), ("%Y-%m-%d", "2000-01-32"), ("%H:%M", "25:00"), ("%d", "abc")):
                calls.append('print(strptime("%s", "%s"));' % (fm, txt))
                want.append("0")
            yield judge("texts that are no times", "public void Main(int argc, string args) modify { %s }" % "\n".join(calls), want, len(calls), env={"TZ": "UTC0"})
            for ms in (0, 30, 120):
                a = time.time()
                r = H.run_source("public void Main(int argc, string args) modify { int a = time(); sleep(%d); int b = time(); print(a); print(b); }" % ms)
                b = time.time()
                v = [int(x) for x in r.out.split()] if r.rc == 0 else []
                ok = len(v) == 2 and int(a) <= v[0] <= v[1] <= int(b) and b - a >= ms / 1000.0
                yield "clock, sleep %d" % ms, 2, 1, None if ok else ("times %s outside of %d..%d, took %.3f s" % (v, a, b, b - a), {"actual.txt": r.out + r.err}), None
    return f


def judge(name, src, want, n, env=None):
    r = H.run_source(src, env=env)
    got = r.out.split("\n")
    bad = None
    if r.rc != 0 or got != want + [""]:
        at = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), len(want))
        bad = ("status %s, line %d: %r instead of %r" % (r.rc, at, got[at] if at < len(got) else None, want[at] if at < len(want) else None), {"case.os": src, "expected.txt": "\n".join(want), "actual.txt": r.out + r.err})
    return name, n + 1, n, bad, None


# --- processes ---------------------------------------------------------------------------------------------------------
ENDS = {"exit 3": ("exit(3);", 3 * 256), "exit 0": ("exit(0);", 0), "failure": ("assert(x < 0);", 255 * 256), "thrown": ('throw "t";', 255 * 256)}

LINE = re.compile(r"0[.\d]*:")


def bodies(n, depth, ends):
    """all operation lists with at most n operations (those of children included)"""
    yield ()
    if n == 0:
        return
    for op in ("say", "wait", "waitpid", "waitpid oldest"):
        for rest in bodies(n - 1, depth, ends):
            yield (op,) + rest
    if depth:
        for inner in bodies(n - 1, depth - 1, ends):
            k = size(inner)
            for e in ends:
                for rest in bodies(n - 1 - k, depth, ends):
                    yield ((inner, e),) + rest


def size(b):
    return sum(1 if isinstance(o, str) else 1 + size(o[0]) for o in b)


class Tree:
    def __init__(self):
        self.lines = {}     # process -> list of lines
        self.after = []     # (process that has ended, process, number of lines it had printed before it waited)

    def run(self, body, me, x, var):
        """code of a process; the model of its lines"""
        mine = self.lines.setdefault(me, [])
        kids, code, last, live = 0, "", None, []

        def say(t, c):
            mine.append("%s:%s" % (me, t))
            return 'print("%s:" + (%s)); ' % (me, c)
        for i, op in enumerate(body):
            if op == "say":
                x += 1
                code += "x = x + 1; " + say(x, "x")
            elif op == "wait":
                code += "int w%s%d = wait(); " % (var, i)
                if len(live) == 1:
                    self.after.append((live[0][0], me, len(mine)))
                    code += say(1, "( w%s%d == p%s ) ? 1 : 0" % (var, i, live[0][2]))
                    live = []
                elif live:          # any one of them
                    code += say(1, "( w%s%d > 0 ) ? 1 : 0" % (var, i))
                    live = None
                else:
                    code += say(-1, "w%s%d" % (var, i))
                if live is None:
                    return None
            elif op in ("waitpid", "waitpid oldest"):
                kid = last if op == "waitpid" else live[0] if len(live) > 1 else None
                if kid is None or kid not in live:
                    return None
                code += "int w%s%d = waitpid(p%s, 0); " % (var, i, kid[2])
                self.after.append((kid[0], me, len(mine)))
                code += say(kid[1], "w%s%d" % (var, i))
                live.remove(kid)
            else:
                inner, end = op
                kid = "%s.%d" % (me, kids)
                name = "%s%d" % (var, i)
                kids += 1
                sub = self.run(inner, kid, x + 10, name + "_")
                if sub is None:
                    return None
                code += "int p%s = fork(); if ( p%s == 0 ) { x = x + 10; %s%s } " % (name, name, sub, ENDS[end][0])
                last = (kid, ENDS[end][1], name)
                live.append(last)
        # whatever is still running is waited for, so that all output belongs to the program
        for _ in live:
            code += "wait(); "
        return code


def expand_proc(th):
    def f(shard, ns):
        i = 0
        seen = set()
        for n, depth, ends in ((4 if th else 3, 2, tuple(ENDS)), (6 if th else 5, 3, ("exit 3",))):
            for b in bodies(n, depth, ends):
                if b in seen:
                    continue
                seen.add(b)
                i += 1
                if i % ns != shard:
                    continue
                t = Tree()
                code = t.run(b, "0", 0, "v")
                if code is None:
                    continue
                src = 'public void Main(int argc, string args) modify throws { int x = 0; print("0:start"); %s }' % code
                t.lines["0"].insert(0, "0:start")
                r = H.run_source(src)
                got = [l for l in r.out.split("\n") if LINE.match(l)]     # uncaught exceptions add a stack trace
                bad = None
                if r.rc != 0:
                    bad = "status %s" % r.rc
                for p, want in t.lines.items():
                    have = [l for l in got if l.split(":")[0] == p]
                    if have != want and not bad:
                        bad = "process %s printed %s instead of %s" % (p, have, want)
                if not bad and len(got) != sum(len(w) for w in t.lines.values()):
                    bad = "unexpected lines in %s" % got
                if not bad:
                    for kid, p, k in t.after:
                        k += p == "0"
                        later = [j for j, l in enumerate(got) if l.split(":")[0] == p][k:]
                        early = [j for j, l in enumerate(got) if l.split(":")[0] == kid]
                        if early and later and max(early) > min(later):
                            bad = "process %s was not waited for: %s" % (kid, got)
                st = size(b)
                yield "processes %s" % (b,), st + 1, st, None if not bad else (bad, {"case.os": src, "actual.txt": r.out + r.err}), None
    return f


def main():
    c = H.Check("C38", assumptions=["local times that occur twice or never because of a change of the clock, and incomplete dates, are not constrained", "the instant 0 stands for now when it is formatted"])
    H.build(("slang",))
    H.RUN_USER = 65534
    th = c.thorough
    c.bounds = {"time zones": len(ZONES), "instants": len(list(instants(th))), "format parts": len(PARTS), "operations of a process tree": 6 if th else 5, "depth of a process tree": 3}
    c.run_judged(expand_time(th), nshards=48)
    if not c.violations:
        c.run_judged(expand_proc(th), nshards=48)
    c.finish()


if __name__ == "__main__":
    H.main(main)
