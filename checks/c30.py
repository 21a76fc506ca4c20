"""C30: behaviour trees - which nodes a tick reaches, in which order, and what it returns.

Model: a recursive interpreter of trees (sequences, fallbacks, their reactive forms, decorators) with a resume position per
remembering node.  All trees of bounded shape are combined with all outcomes of every leaf visit (decided lazily, so exactly the
reached visits branch) over several ticks of the root; each history is replayed on the library."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H

PRE = '''import libBehaviourTree;
private int gBits;
public int k() modify { int r = gBits % 4; gBits = gBits / 4; return r; }
public string st(NodeStatus s) { if ( s == NodeStatus.Success ) { return "S"; } if ( s == NodeStatus.Running ) { return "R"; } if ( s == NodeStatus.Waiting ) { return "W"; } if ( s == NodeStatus.Failure ) { return "F"; } return "?"; }
private object Leaf extends Action { public void Constructor(string name) { base.Constructor(name); }
 public NodeStatus tick() modify { print("@" + Name); switch ( k() ) { case 0: { return NodeStatus.Success; } case 1: { return NodeStatus.Failure; } case 2: { return NodeStatus.Running; } } return NodeStatus.Waiting; } }
private object Test extends Condition { public void Constructor(string name) { base.Constructor(name); }
 public NodeStatus tick() modify { print("@" + Name); if ( k() == 0 ) { return NodeStatus.Success; } return NodeStatus.Failure; } }
'''
CONTROL = {"q": "Sequence", "f": "Fallback", "Q": "ReactiveSequence", "F": "ReactiveFallback", "*": "SequenceStar"}
DECO = {"!": "InverterDecorator", "-": "ForceFailureDecorator", "+": "ForceSuccessDecorator"}
OUT = "SFRW"


class More(Exception):
    def __init__(self, n):
        self.n = n


class Skip(Exception):
    pass


def tick(t, pos, env):
    k = t[0]
    if k in "lc":
        env["out"].append("@" + t[1])
        return env["pick"](4 if k == "l" else 2)
    if k in DECO:
        s = tick(t[2][0], pos, env)
        if s in "RW":
            return s
        return {"!": "F" if s == "S" else "S", "-": "F", "+": "S"}[k]
    on = "F" if k in "fF" else "S"          # outcome that lets the next child run
    other = "S" if on == "F" else "F"
    i = pos.get(t[1], 0) if k in "qf*" else 0
    while i < len(t[2]):
        pos[t[1]] = i
        s = tick(t[2][i], pos, env)
        if s in "RW":
            if k == "*":
                raise Skip()
            return s
        if s == other:
            pos[t[1]] = 0
            return other
        i += 1
    pos[t[1]] = 0
    return on


def number(shape, names):
    """shape with named nodes: leaves a, b, ..., inner nodes N0, N1, ..."""
    if shape in ("l", "c"):
        return (shape, "abcdefgh"[next(names[0])])
    me = "N%d" % next(names[1])
    return (shape[0], me, tuple(number(x, names) for x in shape[1]))


def build(t, code):
    if t[0] in "lc":
        return 'Node new %s("%s")' % ("Leaf" if t[0] == "l" else "Test", t[1])
    code.append('var %s = new %s("%s");' % (t[1], CONTROL.get(t[0]) or DECO[t[0]], t[1]))
    for x in t[2]:
        e = build(x, code)
        code.append("%s.pushChild(%s);" % (t[1], e))
    return "Node %s" % t[1]


def histories(t, ticks):
    """all histories of the given number of ticks: (decisions, printed lines)"""
    stack = [()]
    while stack:
        dec = stack.pop()
        used = [0]

        def pick(n):
            if used[0] == len(dec):
                raise More(n)
            used[0] += 1
            return OUT[dec[used[0] - 1]]
        env, pos = {"out": [], "pick": pick}, {}
        try:
            for _ in range(ticks):
                env["out"].append("@=" + tick(t, pos, env))
        except More as m:
            stack += [dec + (i,) for i in range(m.n)]
            continue
        except Skip:
            continue
        yield dec, env["out"]


def shapes(th):
    """(shape, ticks)"""
    for k in CONTROL:
        for n in range(0, 4):
            for leaves in itertools.product("lc", repeat=n):
                yield (k, leaves), 3 if n < 3 or th else 2
    for d in DECO:
        yield (d, ("l",)), 3
        for e in DECO:
            yield (d, ((e, ("l",)),)), 3
        for k in CONTROL:
            for n in (1, 2):
                yield (d, ((k, ("l",) * n),)), 3 if th else 2
    parts = ["l"] + [(d, ("l",)) for d in DECO] + [(k, ("l", "l")) for k in CONTROL] + [(k, ("l",)) for k in "qf"]
    for k in CONTROL:
        for x, y in itertools.product(parts, repeat=2):
            if x == y == "l":
                continue
            n = (2 if isinstance(x, tuple) and len(x[1]) == 2 else 1) + (2 if isinstance(y, tuple) and len(y[1]) == 2 else 1)
            yield (k, (x, y)), 2 if n < 4 or th else 1
            if n < 3 and th:
                yield (k, (x, y)), 3
        for x in parts[1:4] + parts[4:]:
            yield (k, ("l", x, "l")), 2 if th else 1
    for k in "qfQF":
        for m in "qfQF":
            for n in "qfQF":
                yield (k, ((m, ((n, ("l", "l")), "l")),)), 2 if th else 1


def expand(th):
    def f(shard, ns):
        for i, (shape, ticks) in enumerate(shapes(th)):
            if i % ns != shard:
                continue
            t = number(shape, (itertools.count(), itertools.count()))
            code = []
            build(t, code)
            body = " ".join(code) + (' print("@=" + st(%s.tick()));' % t[1]) * ticks
            decl = "public void case$$(int bits) modify throws { gBits = bits; %s }\n" % body
            calls, states, trans = [], set(), 0
            j = 0

            def case():
                return H.Case("tree %s, %d ticks, part %d" % (shape, ticks, j), decl, calls, states=len(states), trans=trans)
            for dec, out in histories(t, ticks):
                calls.append(("case$$(%d);" % sum(d << (2 * n) for n, d in enumerate(dec)), out))
                trans += len(out)
                states.update(tuple(out[:n]) for n in range(len(out) + 1))
                if len(calls) == 200:
                    yield case()
                    calls, states, trans, j = [], set(), 0, j + 1
            if calls:
                yield case()
    return f


def factory(shard, ns):
    """all sequences of registering nodes and asking for them"""
    ops = [("reg", "a"), ("reg", "b"), ("reg", "a2"), ("get", "a"), ("get", "b"), ("get", "x")]
    for i, seq in enumerate(itertools.chain(*(itertools.product(ops, repeat=n) for n in range(1, 5)))):
        if i % ns != shard:
            continue
        have, out = [], []
        code = 'var f = new Factory(); var a = new Leaf("a"); var b = new Leaf("b"); var a2 = new Leaf("a");'
        for o, n in seq:
            if o == "reg":
                code += ' try { f.registerNode(Node %s); print("@ok"); } catch ( string e ) { print("@refused"); }' % n
                out.append("@refused" if n in have else "@ok")
                if n not in have:
                    have.append(n)
            else:
                code += ' try { Node n = f.getNode("%s"); print("@" + n.Name); } catch ( string e ) { print("@unknown"); }' % n
                out.append("@" + n if any(h[0] == n for h in have) else "@unknown")
        yield H.Case("factory %s" % (seq,), "public void case$$() modify throws { %s }\n" % code, [("case$$();", out)], states=len(seq) + 1, trans=len(seq))


def norm(out):
    return "\n".join(x for x in out.split("\n") if x.startswith("@"))


def main():
    c = H.Check("C30", assumptions=["a SequenceStar whose child is still running is not constrained", "trace output of the library is ignored", "decorators always have a child"])
    H.build(("slang",))
    th = c.thorough
    c.bounds = {"trees": sum(1 for _ in shapes(th)), "ticks of the root": "1 to 3", "outcomes of a leaf": 4, "depth": 4}
    c.run_cases(expand(th), nshards=64, prelude=PRE, batch=20, norm=norm)
    c.run_cases(factory, nshards=16, prelude=PRE, batch=60, norm=norm)
    c.finish()


if __name__ == "__main__":
    H.main(main)
