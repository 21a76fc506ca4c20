"""C02: exceptions, handlers and finally."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H
import stmt

CATCHES = ((), ('A',), ('B', 'A'), ('S', '*'), ('f',), ('A', 'f'), ('*', 'f'))
CATCHES4 = (('A',), ('B',), ('*', 'f'), ('f',))


def name(b):
    return repr(b).replace(" ", "").replace("'", "")


CALL = 'try { print("=" + case$$(%d)); } catch ( EA e ) { print("u" + e.name()); } catch ( EC e ) { print("u" + e.name()); } catch ( string e ) { print("u" + e); } catch ( int e ) { print("u" + e); }'


def outcome(sig):
    if isinstance(sig, tuple) and sig[0] == 'T':
        return 'u%s%d' % (stmt.NAME[sig[1]], sig[2])
    return '=%d' % (sig[1] if isinstance(sig, tuple) else 0)


def make(block, style, maxbits, kind="batch"):
    p = stmt.Prog(block, style)
    traces, skipped = stmt.explore(p, maxbits)
    calls, st, tr = [], set(), 0
    for bits, r, sig in traces:
        calls.append((CALL % bits, r.out + [outcome(sig)]))
        st |= r.states
        tr += r.steps
    if not calls:
        return None
    return H.Case("s%d:%s" % (style, name(block)), p.decls(), calls, states=len(st), trans=tr)


def shapes(x):
    """Surroundings for an expression in which a callee may throw."""
    X = (('x', x),)
    yield X
    yield (('try', X, (('A', ()),), None),)
    yield (('try', X, (('B', ()), ('*', ())), ()),)
    yield (('try', X, (('B', ()),), ()),)
    yield (('try', (('try', X, (('C', ()),), ()),), (('A', ()),), ()),)
    yield (('wh', (('try', X, (('A', (('br',),)),), ()),)),)
    yield (('wh', (('try', X, (('A', (('co',),)),), ()),)),)
    yield (('try', (('wh', X),), (('A', ()),), None),)
    yield (('try', (('for', X),), (('A', ()),), None),)
    yield (('try', (('fe', X),), (('A', ()),), None),)
    yield (('try', (('sw', (X,), ()),), (('A', ()),), None),)
    yield (('try', (('if', X, X),), (('A', ()),), None),)
    yield (('try', (('fn', X),), (('A', ()),), None),)
    yield (('fn', (('try', X, (('A', (('re',),)),), ()),)),)
    yield (('fn', (('fn', X),)),)
    yield (('try', (('th', 'C'),), (('C', X),), ()),)
    yield (('try', (('try', (('th', 'C'),), (('C', X),), ()),), (('A', ()),), None),)
    yield (('try', (('th', 'B'),), (('A', (('try', X, (('A', ()),), None), ('rt',))),), None),)
    yield (('try', (), (), X),)
    yield (('try', (('try', (('th', 'C'),), (('C', ()),), X),), (('A', ()),), None),)
    yield (('ob',), ('try', (('ob',),) + X + (('ob',),), (('A', (('ob',),)),), (('ob',),)))
    yield (('try', X + X, (('A', X),), X),)
    yield (('bl', (('ob',),) + X),)


# handler selection: thrown type x ordered lists of handlers
SELECT = '''
public interface MI { public string nm() const; }
public interface MJ { public string nm2() const; }
public object MA { public int n; public void Constructor(int v) { n = v; } public string nm() const { return "MA" + n; } }
public object MB extends MA { public void Constructor(int v) { n = v; } public string nm() const { return "MB" + n; } }
public object MC extends MB { public void Constructor(int v) { n = v; } public string nm() const { return "MC" + n; } }
public object MK implements MI { public int n; public void Constructor(int v) { n = v; } public string nm() const { return "MK" + n; } }
public object ML extends MK implements MJ { public void Constructor(int v) { n = v; } public string nm() const { return "ML" + n; } public string nm2() const { return "ML" + n; } }
public namespace MN { public object MA { public int n; public void Constructor(int v) { n = v; } public string nm() const { return "NA" + n; } } }
public object MG<T> { public T n; public void Constructor(T v) { n = v; } public string nm() const { return "MG" + n; } }
public enum ME { m1 = 1, m2; }
'''
# thrown expression, text printed by a handler, matching handler types
THROWN = {
    'MA': ('new MA(7)', 'MA7', ('MA',)), 'MB': ('new MB(7)', 'MB7', ('MA', 'MB')), 'MC': ('new MC(7)', 'MC7', ('MA', 'MB', 'MC')),
    'MK': ('new MK(7)', 'MK7', ('MI', 'MK')), 'ML': ('new ML(7)', 'ML7', ('MI', 'MJ', 'MK', 'ML')),
    'NA': ('new MN.MA(7)', 'NA7', ('MN.MA',)), 'Gi': ('new MG<int>(7)', 'MG7', ('MG<int>',)), 'Gs': ('new MG<string>("s")', 'MGs', ('MG<string>',)),
    'i': ('42', '42', ('int',)), 's': ('"txt"', 'txt', ('string',)), 'b': ('true', '1', ('bool',)), 'f': ('1.5f', '1.5', ('float',)), 'd': ('2.5d', '2.5', ('double',)),
    'e': ('ME.m2', '2', ('ME',)),
}
HANDLERS = {'MA': 'e.nm()', 'MB': 'e.nm()', 'MC': 'e.nm()', 'MI': 'e.nm()', 'MJ': 'e.nm2()', 'MK': 'e.nm()', 'ML': 'e.nm()', 'MN.MA': 'e.nm()',
            'MG<int>': 'e.nm()', 'MG<string>': 'e.nm()', 'int': 'e', 'string': 'e', 'bool': 'e', 'float': 'e', 'double': 'e', 'ME': '(int e)'}


def selection(maxh):
    """All ordered lists of at most maxh distinct handlers; every thrown type goes to the first that accepts it."""
    import itertools
    for n in range(1, maxh + 1):
        for hs in itertools.permutations(HANDLERS, n):
            for all_ in ((False, True) if n < maxh else (False,)):
                body = ' '.join('catch ( %s e ) { print("%d:" + %s); }' % (h, k, HANDLERS[h]) for k, h in enumerate(hs))
                if all_:
                    body += ' catch { print("*"); }'
                calls = []
                for k, (t, (e, shown, ok)) in enumerate(THROWN.items()):
                    hit = [j for j, h in enumerate(hs) if h in ok]
                    line = '%d:%s' % (hit[0], shown) if hit else '*' if all_ else 'out'
                    calls.append(('case$$(%d);' % k, ['in', line, 'fin', 'end']))
                yield H.Case('select:%s%s' % (','.join(hs), '*' if all_ else ''),
                             'public void case$$(int k) modify throws { try { try { print("in"); select(k); print("no"); } %s finally { } } catch { print("out"); } finally { print("fin"); } print("end"); }' % body,
                             calls, states=4 * len(calls) + 1, trans=4 * len(calls))


def select_prelude():
    return SELECT + 'public void select(int k) throws { switch ( k ) { %s default: { throw "none"; } } }\n' % ' '.join(
        'case %d: { throw %s; }' % (k, e) for k, (e, _, _) in enumerate(THROWN.values()))


def expand(shard, ns):
    i = 0
    for (n, g) in SPACES:
        for b in g.blocks(n, (False, False)):
            for style in (0, 1):
                i += 1
                if i % ns == shard:
                    c = make(b, style, BITS)
                    if c:
                        yield c
    for x in stmt.CTX:
        for b in shapes(x):
            i += 1
            if i % ns == shard:
                c = make(b, 0, 6)
                if c:
                    yield c
    for c in selection(MAXH):
        i += 1
        if i % ns == shard:
            yield c
    # nobody catches: diagnosed failure after exactly the output that precedes it
    if UNC:
        g = stmt.Grammar(('try', 'th', 'rt', 'fn', 'ob'), types=('A', 'S', 'I'), catches=(('A',), ('f',), ('B', 'f')))
        for n in range(1, UNC + 1):
            for b in g.blocks(n, (False, False)):
                p = stmt.Prog(b, 0)
                for bits, r, sig in stmt.explore(p, 0)[0]:
                    if isinstance(sig, tuple) and sig[0] == 'T':
                        i += 1
                        if i % ns == shard:
                            yield H.Case("uncaught:" + name(b), p.decls(), [('case$$(0);', r.out)], kind="fail", states=len(r.states), trans=r.steps)


def main():
    global SPACES, BITS, UNC, MAXH
    c = H.Check("C02", assumptions=["an exception leaving a destructor is not part of the model"])
    H.build(("slang",))
    if c.thorough:
        BITS, UNC, MAXH = 4, 4, 3
        g3 = stmt.Grammar(('if', 'try', 'wh', 'fe', 'br', 'co', 're', 'th', 'rt', 'fn'), types=('A', 'B', 'S'), catches=CATCHES)
        g4 = stmt.Grammar(('if', 'try', 'wh', 'br', 're', 'th', 'rt', 'fn'), types=('A', 'B'), catches=CATCHES4)
        g5 = stmt.Grammar(('try', 'th', 'rt', 'fn'), types=('B',), catches=(('A',), ('A', 'f')))
        SPACES = [(n, g3) for n in range(4)] + [(4, g4), (5, g5)]
    else:
        BITS, UNC, MAXH = 3, 3, 2
        g3 = stmt.Grammar(('if', 'try', 'wh', 'br', 'co', 're', 'th', 'rt', 'fn'), types=('A', 'B', 'S'), catches=CATCHES)
        g4 = stmt.Grammar(('try', 'th', 'rt', 'fn'), types=('B',), catches=(('A',), ('A', 'f')))
        SPACES = [(n, g3) for n in range(3)] + [(3, stmt.Grammar(('if', 'try', 'wh', 'br', 're', 'th', 'rt', 'fn'), types=('A', 'B'), catches=CATCHES4)), (4, g4)]
    for n, g in SPACES:
        print("space", n, len(g.blocks(n, (False, False))))
    c.bounds = {"programs by size": [(n, len(g.blocks(n, (False, False)))) for n, g in SPACES], "decision bits": BITS,
                "expression contexts": len(stmt.CTX), "surroundings": len(list(shapes('call'))), "handlers per try in the selection matrix": MAXH, "thrown types": len(THROWN), "handler types": len(HANDLERS)}
    c.run_cases(expand, prelude=stmt.PRELUDE + select_prelude(), norm=stmt.norm_runs)
    c.finish()


if __name__ == "__main__":
    H.main(main)
