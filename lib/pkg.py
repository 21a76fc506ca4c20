"""Running the package manager inside a box: an unprivileged user, a library and a repository of its own, and stand-ins for
the file commands it calls that refuse (and record) every target outside the box."""
import json, os, shutil, subprocess
import harness as H

NOBODY = 65534

GUARD = '''#!/bin/sh
# stand-in: refuses every path outside the box
for a in "$@"; do
  case "$a" in
    -*) continue ;;
  esac
  case "$a" in
    /*) p="$a" ;;
    *) p="$PWD/$a" ;;
  esac
  case "$p" in
    *..*) echo "%(cmd)s $*" >> "%(root)s/escapes"; exit 1 ;;
    "%(root)s"/*) ;;
    *) case "%(cmd)s:$a" in tar:xf) ;; *) echo "%(cmd)s $*" >> "%(root)s/escapes"; exit 1 ;; esac ;;
  esac
done
exec /bin/%(cmd)s "$@"
'''


class Box:
    def __init__(self, name="pkg"):
        self.root = os.path.join(H.scratch(), name)
        if os.path.isdir(self.root):
            shutil.rmtree(self.root)
        d = os.path.dirname(self.root)
        while d not in ("/", "/tmp", "/var", "/var/tmp"):
            st = os.stat(d)
            if st.st_mode & 0o005 != 0o005:
                os.chmod(d, st.st_mode | 0o055)
            d = os.path.dirname(d)
        self.lib = os.path.join(self.root, "lib")
        self.repo = os.path.join(self.root, "repo")
        self.bin = os.path.join(self.root, "bin")
        os.makedirs(self.bin)
        for c in ("rm", "tar", "mkdir", "cp", "mv", "ln"):
            p = os.path.join(self.bin, c)
            with open(p, "w") as f:
                f.write(GUARD % {"cmd": c, "root": self.root})
            os.chmod(p, 0o755)
        self.exe = os.path.join(self.bin, "slang-pkg")
        shutil.copy(H.exe("slang-pkg"), self.exe)
        os.makedirs(os.path.join(self.repo, "modules"))
        os.chown(self.root, NOBODY, NOBODY)
        self.own(self.repo)

    def own(self, path):
        for d, ds, fs in os.walk(path):
            for x in [d] + [os.path.join(d, f) for f in fs]:
                os.chown(x, NOBODY, NOBODY)

    def reset(self, config=None):
        """an empty library"""
        if os.path.isdir(self.lib):
            shutil.rmtree(self.lib)
        for d in (".slang/cache/modules", ".slang/cache/repositories", ".slang/apps"):
            os.makedirs(os.path.join(self.lib, d))
        self.config(config or {})
        esc = os.path.join(self.root, "escapes")
        if os.path.exists(esc):
            os.remove(esc)

    def config(self, restrictions):
        with open(os.path.join(self.lib, ".slang/config.json"), "w") as f:
            json.dump({"repository": {"name": "main", "url": "file://" + self.repo + "/"}, "restrictions": restrictions}, f)

    def restrictions(self):
        with open(os.path.join(self.lib, ".slang/config.json")) as f:
            return json.load(f).get("restrictions") or {}

    def index(self, mods, cached=True):
        """mods: list of dicts with name and version"""
        for p in [os.path.join(self.repo, "modules/index.json")] + ([os.path.join(self.lib, ".slang/cache/repositories/main.json")] if cached else []):
            with open(p, "w") as f:
                json.dump({"modules": mods}, f)

    def local(self, name, version, **kw):
        d = os.path.join(self.lib, name)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "module.json"), "w") as f:
            json.dump(dict({"name": "long " + name, "name_short": name, "description": "d", "version": version}, **kw), f)

    def run(self, args, timeout=60):
        self.own(self.lib)
        return H.run([self.exe] + list(args), timeout=timeout, cwd=self.lib, user=NOBODY,
                     env={"PATH": self.bin + ":/usr/bin:/bin", "HOME": self.root, "SLANG_LIBRARY": self.lib})

    def escapes(self):
        p = os.path.join(self.root, "escapes")
        return open(p).read() if os.path.exists(p) else ""
