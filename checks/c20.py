"""C20: explicit-state exploration of the package manager: every reachable state of a model of the library (installed modules,
restrictions, cached index, published index) is put on disk, every command is run from it, and the library that the command
leaves behind is compared with the model's next state."""
import io, itertools, json, os, re, shutil, sys, tarfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import harness as H
import pkg

REPORTS = ("list", "search", "info", "create", "--locallibrary")
V1, V2, V3 = "1.0.0", "2.0.0", "3.0.0"


class Shape:
    """mods: {name: {version: [(dependency, minimum version or "")]}}; index: list of {name: version} snapshots"""
    def __init__(self, name, mods, index, limits=(), pins=True, pairs=True, extra=(), arch=(), offline=True):
        self.name, self.mods, self.indices, self.limits, self.pins, self.pairs = name, mods, index, limits, pins, pairs
        self.extra = extra          # additional (older) index entries
        self.offline = offline      # the published index may become unreachable
        self.arch = arch            # (module, version) built for another architecture

    def meta(self, n, v):
        m = {"name": "long " + n, "name_short": n, "description": "about " + n, "version": v, "target": {"type": "internal"}}
        if self.mods[n][v]:
            m["dependencies"] = [dict({"module": d}, **({"version_min": w} if w else {})) for d, w in self.mods[n][v]]
        if (n, v) in self.arch:
            m["architecture"] = "pdp11"
        return json.dumps(m, sort_keys=True)

    def data(self, n, v):
        return "%s %s\n" % (n, v)

    def index(self, i):
        es = [{"name": n, "version": v, "name_full": "long " + n, "description": "about " + n.lower() + " things", "keywords": ["key" + n]}
              for n, v in list(self.indices[i].items())]
        for k, (n, v) in enumerate(self.extra):
            e = {"name": n, "version": v, "name_full": "long " + n, "description": "about " + n.lower() + " things", "keywords": ["key" + n]}
            es.insert(0 if k % 2 == 0 else len(es), e)
        return es


def vkey(v):
    return tuple(int(x) for x in v.split("."))


def before(a, b):
    return vkey(a or "0.0.0") < vkey(b or "0.0.0")


class Abort(Exception):
    pass


class Model:
    """state = (installed, restrictions, cached index, published index): tuples and numbers, None for an index that is missing"""
    def __init__(self, shape, slang):
        self.s = shape
        self.slang = slang

    def initial(self):
        return ((), (), None, 0)

    def allowed(self, restr, n, v):
        lim = {"Slang": ("", self.slang)}
        lim.update({m: (a, b) for m, a, b in restr})
        a, b = lim.get(n, ("", ""))
        return not (a and before(v, a)) and not (b and before(b, v))

    def fetch(self, st):
        inst, restr, cached, remote = st
        if cached is None:
            if remote is None:
                raise Abort()
            cached = remote
        return (inst, restr, cached, remote)

    def install(self, st, params, force=False, skip=False):
        inst, restr, cached, remote = st
        index = self.s.indices[cached]
        have = dict(inst)
        have["Slang"] = self.slang
        want = {}
        for n, v in params:
            if v:
                force = True
            want[n] = v or index.get(n, "")
        todo = list(want)
        while todo and not skip:
            n = todo.pop()
            if (n, want[n]) in self.s.arch:
                raise Abort()
            for d, low in self.s.mods.get(n, {}).get(want[n], []):
                if d in have and not before(have[d], low):
                    continue
                v = low or index.get(d, "")
                if d in want and not before(want[d], v):
                    continue
                want[d] = v
                todo.append(d)
        if not all(self.allowed(restr, n, v) for n, v in want.items()):
            return st
        for n, v in want.items():
            if v not in self.s.mods.get(n, {}):
                continue
            if n in have and not force and not before(have[n], v):
                continue
            have[n] = v
        del have["Slang"]
        return (tuple(sorted(have.items())), restr, cached, remote)

    def step(self, st, cmd):
        """next state"""
        op, args = cmd[0], cmd[1:]
        inst, restr, cached, remote = st
        try:
            if op == "install":
                flags = [a for a in args if a.startswith("--")]
                ps = [tuple((a + ":").split(":")[:2]) for a in args if not a.startswith("--")]
                st2 = self.fetch(st)
                try:
                    return self.install(st2, ps, "--force" in flags, "--skip-dependencies" in flags)
                except Abort:
                    return st2
            if op == "upgrade":
                st = self.fetch(st)
                index = self.s.indices[st[2]]
                out = [n for n, v in st[0] if n in index and before(v, index[n]) and (not args or n in args)]
                for n in out:
                    try:
                        st = self.install(st, [(n, "")])
                    except Abort:
                        break
                return st
            if op == "update":
                return (inst, restr, remote if remote is not None else cached, remote)
            if op == "remove":
                return (tuple(x for x in inst if x[0] not in args), restr, cached, remote)
            if op == "purge":
                return (tuple(x for x in inst if x[0] not in args), tuple(x for x in restr if x[0] not in args), cached, remote)
            if op == "restrict":
                rest = tuple(x for x in restr if x[0] != args[0])
                if len(args) > 1:
                    a, b = args[1].split(":")
                    rest = tuple(sorted(rest + ((args[0], a, b),)))
                return (inst, rest, cached, remote)
            if op == "info":
                return self.fetch(st)
            if op == "publish":
                return (inst, restr, cached, args[0])
        except Abort:
            return st
        return st

    def commands(self):
        names = sorted(self.s.mods)
        out = [("update",), ("upgrade",), ("list",), ("--locallibrary",), ("search",), ("search", names[0].lower()), ("search", "THINGS"), ("search", "keya"), ("search", "zzz"),
               ("install", "Nowhere"), ("install", names[0] + ":9.0.0"), ("upgrade", "Nowhere"), ("remove", "Nowhere"), ("info", "Nowhere"), ("remove", "Slang")]
        for n in names:
            out += [("install", n), ("install", n, "--force"), ("install", n, "--skip-dependencies"), ("upgrade", n), ("remove", n), ("purge", n), ("info", n), ("create", n)]
            if self.s.pins:
                out += [("install", n + ":" + v) for v in sorted(self.s.mods[n])]
                out += [("info", n + ":" + v) for v in sorted(self.s.mods[n])]
        if self.s.pairs:
            for a, b in itertools.permutations(names, 2):
                out += [("install", a, b), ("purge", a, b)]
            for a, b in itertools.combinations(names, 2):
                out += [("remove", a, b), ("upgrade", a, b)]
        for n in self.s.limits:
            out += [("restrict", n)] + [("restrict", n, x) for x in (V1 + ":" + V1, ":" + V1, V2 + ":")]
        if len(self.s.indices) > 1:
            out += [("publish", 1)] + ([("publish", None)] if self.s.offline else [])
        return out


def reachable(model, limited):
    """all states reachable by commands, with at most `limited` modules restricted at a time"""
    seen = [model.initial()]
    known = set(seen)
    cmds = [c for c in model.commands() if c[0] not in ("list", "search", "--locallibrary", "create")]
    for st in seen:
        for c in cmds:
            if c[0] == "publish" and c[1] == 1 and st[3] is None:
                continue
            n = model.step(st, c)
            if n not in known and len(n[1]) <= limited:
                known.add(n)
                seen.append(n)
    return seen


class World:
    """one shape's repository on disk"""
    def __init__(self, shape, box):
        self.s, self.box = shape, box
        shutil.rmtree(box.repo)
        os.makedirs(os.path.join(box.repo, "modules"))
        for n, vs in shape.mods.items():
            for v in vs:
                d = os.path.join(box.repo, "modules", n, v)
                os.makedirs(d)
                m = shape.meta(n, v)
                for p in (os.path.join(d, "module.json"), os.path.join(box.repo, "modules", "%s_%s.json" % (n, v))):
                    with open(p, "w") as f:
                        f.write(m)
                with tarfile.open(os.path.join(d, "module.tar.gz"), "w:gz") as t:
                    for fn, text in (("module.json", m), ("data.txt", shape.data(n, v)), ("sub/more.txt", shape.data(n, v) * 2)):
                        i = tarfile.TarInfo("%s/%s" % (n, fn))
                        i.size = len(text)
                        i.uid = i.gid = pkg.NOBODY
                        t.addfile(i, io.BytesIO(text.encode()))
        home = os.path.join(box.root, "other")
        if not os.path.isdir(home):
            os.makedirs(os.path.join(home, "A"))
            for p in ("A/module.json", "keep.txt"):
                with open(os.path.join(home, p), "w") as f:
                    f.write("{}")
        box.own(box.repo)
        box.own(home)
        self.published = "?"

    def put(self, st):
        inst, restr, cached, remote = st
        b = self.box
        b.reset({n: dict(([("version_min", a)] if a else []) + ([("version_max", z)] if z else [])) for n, a, z in restr})
        for n, v in inst:
            d = os.path.join(b.lib, n)
            os.makedirs(os.path.join(d, "sub"))
            for fn, text in self.files(n, v).items():
                with open(os.path.join(d, fn), "w") as f:
                    f.write(text)
            with open(os.path.join(d, "user.txt"), "w") as f:
                f.write("mine")
        if cached is not None:
            with open(os.path.join(b.lib, ".slang/cache/repositories/main.json"), "w") as f:
                json.dump({"modules": self.s.index(cached)}, f)
        if self.published != remote:
            p = os.path.join(b.repo, "modules/index.json")
            if os.path.exists(p):
                os.remove(p)
            if remote is not None:
                with open(p, "w") as f:
                    json.dump({"modules": self.s.index(remote)}, f)
                os.chown(p, pkg.NOBODY, pkg.NOBODY)
            self.published = remote

    def files(self, n, v):
        return {"module.json": self.s.meta(n, v), "data.txt": self.s.data(n, v), "sub/more.txt": self.s.data(n, v) * 2}

    def outside(self):
        out = []
        for top in (self.box.repo, self.box.bin, os.path.join(self.box.root, "other")):
            for d, ds, fs in os.walk(top):
                for x in fs + ds:
                    s = os.lstat(os.path.join(d, x))
                    out.append((d, x, s.st_size, s.st_mtime_ns, s.st_mode))
        return sorted(out) + sorted(os.listdir(self.box.root))

    def tree(self):
        out = {}
        for d, ds, fs in os.walk(self.box.lib):
            rel = os.path.relpath(d, self.box.lib)
            if rel.startswith(".slang"):
                continue
            for f in fs:
                with open(os.path.join(d, f), "rb") as h:
                    out[os.path.normpath(os.path.join(rel, f))] = h.read()
            for x in ds:
                if rel == "." and x != ".slang":
                    out.setdefault(x + "/", b"")
        return out

    def listing(self, st, cmd, model):
        """expected lines of the reporting commands, None if unconstrained"""
        inst, restr, cached, remote = st
        if cmd[0] == "list":
            return ["%s:%s - long %s" % (n, v, n) for n, v in inst]
        if cmd[0] == "search":
            if cached is None:
                return None
            t = (cmd[1] if len(cmd) > 1 else "").lower()
            es = [e for e in self.s.index(cached) if any(t in x.lower() for x in (e["name"], e["description"], *e["keywords"]))]
            return ["%s:%s - long %s" % (e["name"], e["version"], e["name"]) for e in es]
        if cmd[0] == "info":
            try:
                st = model.fetch(st)
            except Abort:
                return []
            n, v = (cmd[1] + ":").split(":")[:2]
            v = v or self.s.indices[st[2]].get(n, "")
            if v not in self.s.mods.get(n, {}):
                return []
            return ["%s:%s - long %s" % (n, v, n)] + ["needs " + d for d, w in sorted(self.s.mods[n][v])]
        return None

    def check(self, st, cmd, model):
        """run one command from one state; returns an error text or None"""
        b = self.box
        self.put(st)
        old = self.tree()
        out0 = self.outside()
        r = b.run(cmd, timeout=30)
        if r.timeout:
            return "the command does not terminate", r
        if r.rc < 0 or r.rc >= 128:
            return "the command ended with status %s" % r.rc, r
        esc = b.escapes()
        if esc:
            return "files outside the library are touched: " + esc.strip(), r
        if self.outside() != out0:
            return "something outside the library has changed", r
        nst = model.step(st, cmd)
        tree = self.tree()
        inst, restr, cached, remote = nst
        was = dict(st[0])
        got = {}
        for n in sorted({p.split("/")[0] for p in tree if "/" in p}):
            try:
                got[n] = json.loads(tree.get(n + "/module.json", b"{}")).get("version", "?")
            except ValueError:
                got[n] = "?"
        if got != dict(inst):
            return "installed modules are %s, expected %s" % (json.dumps(got, sort_keys=True), json.dumps(dict(inst))), r
        exp = {}
        for n, v in inst:
            exp[n + "/"] = b""
            for f, t in self.files(n, v).items():
                exp["%s/%s" % (n, f)] = t.encode()
            u = n + "/user.txt"
            if was.get(n) == v:
                exp[u] = b"mine"
            elif u in tree:
                exp[u] = tree[u]
        made = {}
        if cmd[0] == "create" and cmd[1] in was:
            made = {"%s_%s.%s" % (cmd[1], was[cmd[1]], x) for x in ("json", "tar.gz")}
            for m in made:
                if m not in tree:
                    return "%s is not created" % m, r
            if tree["%s_%s.json" % (cmd[1], was[cmd[1]])].decode() != self.s.meta(cmd[1], was[cmd[1]]):
                return "the created module information differs from the module's", r
            with tarfile.open(fileobj=io.BytesIO(tree["%s_%s.tar.gz" % (cmd[1], was[cmd[1]])])) as t:
                packed = {m.name: t.extractfile(m).read() for m in t.getmembers() if m.isfile()}
            if packed != {p: x for p, x in old.items() if p.startswith(cmd[1] + "/") and not p.endswith("/")}:
                return "the created package holds %s" % sorted(packed), r
        elif cmd[0] == "create":
            made = {p for p in tree if "/" not in p}
        rest = {p: x for p, x in tree.items() if p not in made}
        if rest != exp:
            bad = sorted(p for p in set(rest) | set(exp) if rest.get(p) != exp.get(p))
            return "library files differ: %s" % bad, r
        with open(os.path.join(b.lib, ".slang/config.json")) as f:
            cfg = json.load(f)
        if cfg.get("repository", {}).get("name") != "main" or cfg["repository"].get("url") != "file://" + b.repo + "/":
            return "the configured repository has changed", r
        lim = {n: (e or {}) for n, e in (cfg.get("restrictions") or {}).items()}
        want = {n: dict(([("version_min", a)] if a else []) + ([("version_max", z)] if z else [])) for n, a, z in restr}
        if lim != want:
            return "restrictions are %s, expected %s" % (json.dumps(lim, sort_keys=True), json.dumps(want)), r
        p = os.path.join(b.lib, ".slang/cache/repositories/main.json")
        idx = json.load(open(p)).get("modules") if os.path.exists(p) and os.path.getsize(p) else None
        if idx != (None if cached is None else self.s.index(cached)):
            return "the cached index is %s" % json.dumps(idx), r
        lines = self.listing(st, cmd, model)
        if lines is not None:
            seen = [x for x in re.findall(r"^(\w+:\S+ - .*?)\s*$", r.out, re.M) if not x.startswith("Slang:")]
            if cmd[0] == "info":
                seen += ["needs " + x for x in re.findall(r"^(\w+)\s+min: ", r.out, re.M)]
            if (sorted(seen) != sorted(lines)) if cmd[0] == "list" else (seen != lines):
                return "reported %s, expected %s" % (seen, lines), r
        return None, r


def shapes(full):
    out = [Shape("chain", {"A": {V1: [("B", V1)], V2: [("B", V2)]}, "B": {V1: [("C", "")], V2: [("C", V2)]}, "C": {V1: [], V2: []}},
                 [{"A": V1, "B": V1, "C": V1}, {"A": V2, "B": V2, "C": V2}], limits=("A", "C") if full else ("C",), offline=full),
           Shape("cycle", {"A": {V1: [("B", V1)], V2: [("B", V2)]}, "B": {V1: [("A", "")], V2: [("A", V2)]}},
                 [{"A": V1, "B": V1}, {"A": V2, "B": V2}], limits=("A", "B") if full else ("A",)),
           Shape("diamond", {"A": {V1: [("B", V1), ("C", V1)]}, "B": {V1: [("D", V1)]}, "C": {V1: [("D", V2)]}, "D": {V1: [], V2: [], V3: []}},
                 [{"A": V1, "B": V1, "C": V1, "D": V3}], limits=("D",)),
           Shape("self", {"A": {V1: [("A", V1)], V2: [("A", "")]}, "AB": {V1: [("A", V1), ("AB", "")]}}, [{"A": V1, "AB": V1}, {"A": V2, "AB": V1}], limits=("A",), offline=full),
           Shape("leap", {"A": {V1: [], V2: [], V3: []}, "B": {V1: [], V2: [("A", V2)]}, "Z": {V1: [], V2: [("A", "")]}},
                 [{"A": V1, "B": V1, "Z": V1}, {"A": V3, "B": V2, "Z": V2}], limits=("A",) if full else (), offline=full),
           Shape("interpreter", {"A": {V1: [("Slang", "0.0.1")], V2: [("Slang", "99.0.0")]}, "B": {V1: [("A", V1)], V2: [("A", V2)]}, "C": {V1: [], V2: [("Slang", "")]}},
                 [{"A": V1, "B": V1, "C": V1}, {"A": V2, "B": V2, "C": V2}], limits=("B",), offline=full, pairs=full),
           Shape("machine", {"A": {V1: [], V2: []}, "B": {V1: [("A", V1)], V2: [("A", V2)]}}, [{"A": V1, "B": V1}, {"A": V2, "B": V2}], arch=(("A", V2),)),
           Shape("listed", {"A": {V1: [], V2: [], V3: []}, "B": {V1: [("A", "")], V2: [("A", "")]}}, [{"A": V3, "B": V2}], extra=(("A", V1), ("A", V2), ("B", V1)), limits=("A",))]
    # every dependency graph over three modules
    names = "ABC"
    edges = [(x, y) for x in names for y in names if x != y]
    for bits in range(64):
        dep = {n: {V1: []} for n in names}
        for i, (x, y) in enumerate(edges):
            if bits >> i & 1:
                dep[x][V1].append((y, V1 if (bits + i) % 2 else ""))
        out.append(Shape("graph%d" % bits, dep, [{n: V1 for n in names}], pins=False))
    return out


def skipped(s, st, cmd):
    """transitions left to the thorough tier"""
    if st[1] and cmd[0] == "purge" and cmd[2:] == (st[1][0][0],):
        return False
    if st[1] and (cmd[0] in REPORTS or len(cmd) > 2 and cmd[0] != "restrict"):
        return True
    if cmd[0] in REPORTS and s.name not in ("cycle", "listed"):
        return True
    if s.name.startswith("graph"):
        return cmd[0] not in ("install", "remove") or cmd[-1].startswith("--") or "Nowhere" in cmd
    return s.name in ("diamond", "chain") and ("Nowhere" in cmd or cmd[0] in ("purge", "remove") and len(cmd) > 2)


def main():
    H.build(("slang-pkg",))
    c = H.Check("C20", assumptions=[
        "one repository, reached through file URLs; downloads of module packages succeed if the repository holds them",
        "dependencies that the repository does not offer, maximum versions of dependencies, contradicting explicit versions, link scripts, push and files left over from a replaced version are unconstrained"])
    full = c.thorough
    box = pkg.Box("probe")
    box.reset()
    r = box.run(["list"])
    m = re.search(r"^Slang:(\d+\.\d+\.\d+)", r.out, re.M)
    if not m:
        raise H.HarnessError("the package manager does not report the version of the interpreter:\n" + r.out + r.err)
    slang = m.group(1)
    sh = shapes(full)
    limited = 1
    c.bounds = {"repositories": len(sh), "modules per repository": 4, "versions per module": 3, "modules restricted at a time": limited, "requested modules per command": 2,
                "published index": "old, new, unreachable",
                "commands in restricted states": "all" if full else "without reports and pairs of modules"}
    graphs = []
    for s in sh:
        model = Model(s, slang)
        graphs.append((s, model, reachable(model, limited), model.commands()))

    def expand(shard, n):
        box = pkg.Box()
        k = 0
        for s, model, states, cmds in graphs:
            world = None
            for st in states:
                for cmd in cmds:
                    if cmd[0] == "publish":
                        continue
                    if not full and skipped(s, st, cmd):
                        continue
                    k += 1
                    if k % n != shard:
                        continue
                    if world is None:
                        world = World(s, box)
                    err, r = world.check(st, cmd, model)
                    name = "%s %s: %s" % (s.name, json.dumps(st), " ".join(cmd))
                    bad = None
                    if err:
                        bad = ("%s: %s" % (name, err), {"state": json.dumps(st), "command": " ".join(cmd), "error": err, "repository": json.dumps({n2: vs for n2, vs in s.mods.items()}),
                                                         "output": r.out[-3000:] + r.err[-1000:]})
                    yield name, 0, 1, bad, name

    c.run_judged(expand, nshards=64)
    c.states = sum(len(g[2]) for g in graphs)
    c.finish()


if __name__ == "__main__":
    H.main(main)
