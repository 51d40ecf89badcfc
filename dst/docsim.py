"""Simulation B: documentation builds with a simulated git and sphinx-build on a scratch disk.

Every build runs in a process of its own (a fork), so that it can be killed at any step with
only its files surviving.  Steps are the git and sphinx invocations and the file operations
that change something; they are numbered in the order the build makes them, and the scenario
says at which of them what happens.
"""
import builtins
import errno
import io
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import traceback

from . import env

PROJECTS = ["fluent.syntax", "fluent.pygments", "fluent.runtime"]
OTHER = ["fluent.docs", "fluent.tools"]
SPHINX_STATIC = ["documentation_options.js", "pygments.css", "nature.css", "searchtools.js"]


# -- worlds ---------------------------------------------------------------------------

def gen_tags(rng, projects, n, dates):
    """Tags as [project, version, committer time]"""
    out = []
    for _ in range(n):
        p = rng.choice(projects)
        v = f"{rng.randrange(3)}.{rng.randrange(20)}" + rng.choice(["", "", ".1", "b2", "a"])
        if out and rng.random() < .3:
            v = rng.choice(out)[1]   # projects are often released together
        out.append([p, v, rng.choice(dates) * 86400 + rng.randrange(86400)])
    return out


def add_tags(tags, more):
    seen = {(p, v) for p, v, _ in tags}
    times = {t for _, _, t in tags}
    for p, v, t in more:
        if (p, v) not in seen:
            while t in times:
                t += 1
            seen.add((p, v))
            times.add(t)
            tags.append([p, v, t])
    return tags


EPOCH2020 = 18263   # days from 1970-01-01 to 2020-01-01


def gen_world(rng):
    # around the cut-off date of scripts/build-docs, 2020-05-01 (day 121)
    dates = [EPOCH2020 + d for d in (0, 90, 120, 121, 122, 122, 150, 300, 300, 301, 800, 1500)]
    projects = PROJECTS + OTHER if rng.random() < .5 else PROJECTS
    tags = add_tags([], gen_tags(rng, projects, rng.randrange(9), dates))
    mode = rng.choice(["script"] * 3 + ["direct"])
    docs = rng.sample(PROJECTS, rng.randrange(1, 4))
    w = {"tags": tags, "mode": mode, "repo": rng.choice(["python-fluent", "x"]), "docs": docs, "dates": dates}
    if mode == "script":
        w["argv"] = []
        if rng.random() < .4:
            w["argv"] += ["--doc", "."] if rng.random() < .7 else []
            for d in docs:
                w["argv"] += ["--doc", d]
        else:
            w["docs"] = ["fluent.syntax", "fluent.pygments", "fluent.runtime"]
        if rng.random() < .15:
            w["argv"].append("--dev")
        w["cut"] = 18383 if "--dev" not in w["argv"] else None
    else:
        w["cut"] = rng.choice([None, EPOCH2020, EPOCH2020 + 122, EPOCH2020 + 300, EPOCH2020 + 2000])
    w["stale"] = rng.choice([None, None, "dir", "link", "dangling"])
    return w


def releases(w, project):
    """Versions newest first, as the build has to publish them"""
    if w["cut"] is None:
        return []
    return [v for p, v, t in sorted(w["tags"], key=lambda x: -x[2]) if p == project and t // 86400 > w["cut"]]


def has_root(w):
    return w["mode"] == "script" and (not [a for a in w["argv"] if a == "--doc"] or "." in w["argv"])


# -- the repository on the scratch disk --------------------------------------------------

def tree(source):
    """Tracked files of a checkout of `source`"""
    files = {"docs/conf.py": "conf", "docs/index.rst": "docs of . at " + source, "docs/_templates/versions.html": "no versions"}
    for p in PROJECTS + OTHER:
        files[f"{p}/docs/index.rst"] = f"docs of {p} at {source}"
        files[f"{p}/code.py"] = f"code of {p} at {source}"
    return files


def put(base, files, most=None):
    for i, (name, text) in enumerate(sorted(files.items())):
        if most is not None and i >= most:
            return
        path = os.path.join(base, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with _real_open(path, "w", encoding="utf-8") as f:
            f.write(text)


def create(base, w):
    os.makedirs(base + "/repo")
    os.makedirs(base + "/tmp")
    put(base + "/repo", tree("HEAD"))
    if w["stale"]:
        for p in w["docs"]:
            d = f"{base}/repo/_build/{w['repo']}/{p}"
            os.makedirs(d)
            if w["stale"] == "dir":
                os.makedirs(d + "/stable/_static")
                put(d, {"stable/index.html": "old", "stable/_static/x.js": "old"})
            else:
                os.symlink("0.0" if w["stale"] == "dangling" else ".", d + "/stable")


def snapshot(base, w):
    """What is published: path -> content or link target"""
    out = {}
    top = f"{base}/repo/_build/{w['repo']}"
    for d, dirs, files in os.walk(top):
        for n in list(dirs):
            p = os.path.join(d, n)
            if os.path.islink(p):
                out[os.path.relpath(p, top)] = "-> " + os.readlink(p)
        for n in files:
            p = os.path.join(d, n)
            if os.path.islink(p):
                out[os.path.relpath(p, top)] = "-> " + os.readlink(p)
            else:
                with _real_open(p, encoding="utf-8") as f:
                    out[os.path.relpath(p, top)] = f.read()
    return out


def leftovers(base):
    """Temporary files and checkouts that are there"""
    out = ["tmp/" + n for n in sorted(os.listdir(base + "/tmp"))]
    known = {"docs", "_build", *PROJECTS, *OTHER}
    return out + [n for n in sorted(os.listdir(base + "/repo")) if n not in known]


# -- one build ----------------------------------------------------------------------------

_real_open = builtins.open
_real_os = {}


def version_key(t):
    return [(1, int(x), "") if x.isdigit() else (0, 0, x) for x in re.findall(r"\d+|\D+", t[0] + "@" + t[1])]


SORT = {"version:refname": version_key, "v:refname": version_key, "refname": lambda t: t[0] + "@" + t[1],
        **{k: lambda t: t[2] for k in ("committerdate", "creatordate", "authordate")}}


class Unsupported(BaseException):
    """The simulated git or sphinx does not know this invocation."""


class Build:
    def __init__(self, base, w, faults):
        self.base = base
        self.w = w
        self.faults = faults
        self.counts = {}
        self.steps = []
        self.hit = []
        self.sphinx = []
        self.depth = 0
        self.out = None

    # -- steps and faults
    def step(self, what, detail=""):
        """-> how the step goes wrong, or None"""
        self.counts[what] = self.counts.get(what, 0) + 1
        self.counts["any"] = self.counts.get("any", 0) + 1
        group = what.split(" ")[0]
        if group != what:
            self.counts[group] = self.counts.get(group, 0) + 1
        self.steps.append(what + (" " + detail if detail else ""))
        for f in self.faults:
            if f["on"] in (what, "any", group) and self.counts[f["on"]] == f["n"]:
                self.hit.append([f["how"], self.steps[-1]])
                if f["how"] == "kill":
                    self.die()
                if f["how"] == "interrupt":
                    raise KeyboardInterrupt("injected")
                return f
        return None

    def die(self):
        self.report({"killed": True})
        os._exit(0)

    def report(self, res):
        res.update(steps=self.steps, hit=self.hit, sphinx=self.sphinx)
        data = json.dumps(res).encode()
        while data:
            data = data[os.write(self.out, data):]

    # -- file operations
    def inside(self, path):
        if isinstance(path, int):
            return True
        try:
            p = os.path.abspath(os.fsdecode(path))
        except TypeError:
            return False
        return p.startswith(self.base + "/")

    def file_op(self, name, path, kw, change):
        rel = os.path.relpath(os.path.abspath(os.fsdecode(path)), self.base) if "dir_fd" not in kw or kw["dir_fd"] is None \
            else os.fsdecode(path)
        f = self.step(name, re.sub(r"tmp/[^/]+", "tmp/X", rel))
        if f and name == "mkdir":   # pathlib takes a failing mkdir for success if the directory is there then
            if os.path.isdir(path):
                self.hit.pop()
                return
            f = dict(f, how=f["how"] if f["how"] == "half-kill" else "oserror")
        if f:
            no = {"oserror": errno.EIO, "nospace": errno.ENOSPC}.get(f["how"], errno.EACCES)
            if f["how"] in ("nospace", "half"):
                change()   # done, but reported as failed
            if f["how"] == "half-kill":
                change()
                self.die()
            raise OSError(no, os.strerror(no), path)

    def wrap(self, name, nargs=1):
        real = getattr(os, name)
        _real_os[name] = real

        def op(*a, **kw):
            path = a[nargs - 1] if len(a) >= nargs else kw.get("path", kw.get("dst"))
            if self.depth or path is None or not self.inside(path):
                return real(*a, **kw)
            self.file_op(name, path, kw, lambda: real(*a, **kw))
            return real(*a, **kw)

        setattr(os, name, op)

    def install(self):
        for n in ("mkdir", "unlink", "remove", "rmdir"):
            self.wrap(n)
        for n in ("symlink", "rename", "replace", "link"):
            self.wrap(n, 2)
        real_scandir, real_listdir = os.scandir, os.listdir

        class Scan:
            def __init__(self, *a):
                with real_scandir(*a) as it:
                    self.entries = iter(sorted(it, key=lambda e: e.name))

            def __iter__(self):
                return self

            def __next__(self):
                return next(self.entries)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            def close(self):
                pass

        os.scandir = Scan
        os.listdir = lambda *a: sorted(real_listdir(*a))

        def open_(file, mode="r", *a, **kw):
            if self.depth or not any(c in mode for c in "wax+") or not self.inside(file) or isinstance(file, int):
                return _real_open(file, mode, *a, **kw)

            def torn():
                _real_open(file, mode, *a, **kw).close()   # truncated, nothing written

            self.file_op("write", file, {}, torn)
            return _real_open(file, mode, *a, **kw)

        builtins.open = io.open = open_
        build = self

        class Popen:
            def __init__(self, args, *a, **kw):
                self.args = args
                self.stdin = self.stderr = None
                self.text = kw.get("encoding") or kw.get("text") or kw.get("universal_newlines")
                self.pid = 4711
                self.returncode, self._out = build.command(args, kw)
                data = self._out if self.text else self._out.encode()
                wanted = kw.get("stdout") == subprocess.PIPE
                self.stdout = (io.StringIO(data) if self.text else io.BytesIO(data)) if wanted else None

            def communicate(self, input=None, timeout=None):
                return (self.stdout.read() if self.stdout else None), None

            def wait(self, timeout=None):
                return self.returncode

            def poll(self):
                return self.returncode

            def kill(self):
                pass

            terminate = kill

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

        subprocess.Popen = Popen
        n = [0]

        class Names:
            def __iter__(self):
                return self

            def __next__(self):
                n[0] += 1
                return f"n{n[0]}p{self.salt}"

        Names.salt = len(os.listdir(self.base + "/tmp"))
        tempfile.tempdir = self.base + "/tmp"
        tempfile._name_sequence = Names()

    # -- the simulated programs
    def command(self, args, kw):
        """-> (exit status, standard output)"""
        if isinstance(args, str):
            raise Unsupported(f"a shell command: {args}")
        args = [os.fspath(a) for a in args]
        cwd = os.path.abspath(os.fspath(kw.get("cwd") or "."))
        name = os.path.basename(args[0])
        self.depth += 1
        try:
            if name == "git":
                return self.git(args[1:], cwd)
            if name == "sphinx-build" or args[1:3] == ["-m", "sphinx"]:
                return self.run_sphinx(args[1:] if name == "sphinx-build" else args[3:], cwd, kw.get("env") or os.environ)
        finally:
            self.depth -= 1
        raise Unsupported(f"a command: {args}")

    def go(self, what, detail, work, out=""):
        """Run one invocation: as a whole, up to a point, or not at all"""
        f = self.step(what, detail)
        if f is None:
            code = work(None)
            return (code or 0), ("" if code else out)
        how = f["how"]
        if how in ("oserror", "nospace"):
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", what.split()[0])
        if how in ("half", "half-kill"):
            work(f.get("part", 1))
            if how == "half-kill":
                self.die()
        return {"signal": -9}.get(how, 1 if what.startswith("sphinx") else 128), out[:len(out) // 2] if how == "half" else ""

    def git(self, args, cwd):
        while args and args[0] in ("-C", "-c", "--no-pager"):
            if args[0] == "-C":
                cwd = os.path.join(cwd, args[1])
            args = args[2:] if args[0] != "--no-pager" else args[1:]
        if not args:
            raise Unsupported("git")
        cmd, args = args[0], args[1:]
        flags = [a for a in args if a.startswith("-")]
        words = [a for a in args if not a.startswith("-")]
        if cmd in ("tag", "for-each-ref"):
            import fnmatch
            tags = list(self.w["tags"])
            sort = [f.split("=", 1)[1] for f in flags if f.startswith("--sort=")]
            tags.sort(key=lambda t: (t[0] + "@" + t[1]))
            for key in sort:    # the last one given is the primary one
                k = SORT.get(key.lstrip("-"))
                if k is None:
                    raise Unsupported(f"git {cmd} {args}")
                tags.sort(key=k, reverse=key.startswith("-"))
            fmt = ([f.split("=", 1)[1] for f in flags if f.startswith("--format=")] or ["%(refname:lstrip=2)"])[-1]
            pats = [w.replace("refs/tags/", "") or "*" for w in words]
            lines = ""
            for p, v, t in tags:
                name = f"{p}@{v}"
                if pats and not any(fnmatch.fnmatch(name, x) for x in pats):
                    continue
                lines += self.tag_line(fmt, name, t) + "\n"
            return self.go("git tag", "", lambda part: None, lines)
        if cmd == "worktree" and words and words[0] == "add":
            path = os.path.join(cwd, words[1])
            source = words[2] if len(words) > 2 else "HEAD"

            def add(part):
                if os.path.isdir(path) and os.listdir(path) or source != "HEAD" and not self.has(source):
                    return 128
                os.makedirs(path, exist_ok=True)
                put(path, {**tree(self.name(source)), ".git": "gitdir"}, None if part is None else part * 4)

            return self.go("git worktree", "add " + source, add)
        if cmd == "worktree" and words and words[0] in ("remove", "prune"):
            def remove(part):
                if words[0] == "remove":
                    path = os.path.join(cwd, words[1])
                    if not self.inside(path) or not os.path.isdir(path):
                        return 128
                    shutil.rmtree(path)

            return self.go("git worktree", words[0], remove)
        if cmd == "rev-parse" and len(args) == 1 and args[0] in ("--show-toplevel", "HEAD"):
            top = cwd if os.path.exists(cwd + "/.git") else self.base + "/repo"
            return self.go("git rev-parse", "", lambda part: None, (top if args[0] != "HEAD" else "0" * 40) + "\n")
        if cmd in ("checkout", "switch") and len(words) == 1:
            def checkout(part):
                if not self.has(words[0]) or not os.path.exists(cwd + "/.git"):
                    return 1
                put(cwd, tree(self.name(words[0])), None if part is None else part * 4)

            return self.go("git checkout", words[0], checkout)
        raise Unsupported(f"git {cmd} {args}")

    def tag_line(self, fmt, name, t):
        import datetime
        when = datetime.datetime.fromtimestamp(t, datetime.timezone.utc)

        def field(m):
            k = m.group(1)
            if k.startswith("refname"):
                return name if ":" in k else "refs/tags/" + name
            if k in ("committerdate:short", "creatordate:short", "committerdate:format:%Y-%m-%d"):
                return when.strftime("%Y-%m-%d")
            if k in ("committerdate:unix", "creatordate:unix"):
                return str(t)
            if k.startswith(("committerdate:iso", "creatordate:iso")):
                return when.isoformat()
            raise Unsupported("git tag --format " + fmt)

        return re.sub(r"%\(([^)]*)\)", field, fmt).replace("%00", "\0").replace("%09", "\t")

    @staticmethod
    def name(ref):
        return ref.replace("refs/tags/", "").replace("tags/", "")

    def has(self, ref):
        return any(f"{p}@{v}" == self.name(ref) for p, v, _ in self.w["tags"])

    def run_sphinx(self, args, cwd, environ):
        opts, words, conf = {}, [], None
        i = 0
        while i < len(args):
            a = args[i]
            if a in ("-D", "-A", "-d", "-c", "-b", "-j", "-t", "-w"):
                if a == "-D":
                    k, _, v = args[i + 1].partition("=")
                    opts[k] = v
                elif a == "-c":
                    conf = args[i + 1]
                i += 2
                continue
            if not a.startswith("-"):
                words.append(a)
            i += 1
        if len(words) != 2:
            raise Unsupported(f"sphinx-build {args}")
        src, dest = (os.path.join(cwd, x) for x in words)
        rec = {"dest": os.path.relpath(dest, self.base + "/repo"), "project": opts.get("project"),
               "release": opts.get("release")}

        def read(path):
            try:
                with _real_open(path, encoding="utf-8") as f:
                    return f.read()
            except OSError:
                return None

        def build(part):
            rec["conf"] = read(os.path.join(cwd, conf or src, "conf.py"))
            rec["source"] = read(os.path.join(src, "index.rst"))
            rec["versions"] = read(os.path.join(src, "_templates/versions.html"))
            path = environ.get("PYTHONPATH", "").split(os.pathsep)[0]
            rec["code"] = read(os.path.join(cwd, path, "code.py")) if path else None
            self.sphinx.append(rec)
            if rec["source"] is None or rec["conf"] is None:
                return 2
            page = json.dumps(rec, sort_keys=True, indent=1)
            files = {"index.html": page, "usage.html": page, "search.html": page,
                     ".buildinfo": "x", "objects.inv": "x",
                     **{"_static/" + n: "static" for n in SPHINX_STATIC}}
            put(dest, files, None if part is None else part * 3)

        return self.go("sphinx", rec["dest"], build)

    # -- run
    def run(self, out):
        self.out = out
        os.chdir(self.base + "/repo")
        self.install()
        w = self.w
        devnull = _real_open(os.devnull, "w")
        sys.stdout = sys.stderr = devnull
        res = {"ok": True}
        try:
            if w["mode"] == "script":
                p = os.path.join(env.REPO, "scripts/build-docs")
                with _real_open(p, encoding="utf-8") as f:
                    code = compile(f.read(), p, "exec")
                sys.argv = ["build-docs", w["repo"]] + w["argv"]
                exec(code, {"__name__": "__main__", "__file__": p, "__builtins__": builtins})
            else:
                import datetime

                from fluent.docs import finalize_builddir
                from fluent.docs.build import build
                cut = w["cut"] and datetime.date.fromordinal(719163 + w["cut"])
                build(w["repo"], list(w["docs"]), cut)
                finalize_builddir(w["repo"])
        except Unsupported as e:
            res = {"unsupported": str(e)}
        except SystemExit as e:
            res = {"ok": not e.code, "exc": repr(e)}
        except BaseException as e:
            res = {"ok": False, "exc": repr(e)[:500], "where": traceback.format_exc()[-600:]}
        self.report(res)


def build_once(base, w, faults):
    """One build in a process of its own. -> what it reports and did"""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            Build(base, w, faults).run(wr)
        except BaseException:
            os.write(wr, json.dumps({"unsupported": traceback.format_exc()[-1500:]}).encode())
        finally:
            os._exit(0)
    os.close(wr)
    data = b""
    while True:
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        data += chunk
    os.close(r)
    os.waitpid(pid, 0)
    res = json.loads(data)
    if "unsupported" in res:
        raise RuntimeError("simulation: " + res["unsupported"])
    return res


ON = ["any"] * 4 + ["sphinx"] * 3 + ["git tag", "git worktree", "git checkout", "git checkout", "git checkout", "git", "mkdir",
                                     "unlink", "rmdir", "symlink", "write", "write"]


def gen_fault(rng, hows):
    on = rng.choice(ON)
    n = rng.randrange(1, 70) if on == "any" else rng.choice([1, 1, 2, 3, 4, 6]) if on != "unlink" else rng.randrange(1, 20)
    return {"on": on, "n": n, "how": rng.choice(hows), "part": rng.choice([1, 2])}


def scratch():
    """A directory for one run; removed by the caller"""
    for parent in ("/dev/shm", tempfile.gettempdir()):
        if os.path.isdir(parent) and os.access(parent, os.W_OK):
            return tempfile.mkdtemp(prefix="dst-docs-", dir=parent)


def clean(base):
    assert os.path.basename(os.path.dirname(base)) in ("shm", "tmp") or "dst-docs-" in base
    shutil.rmtree(base, ignore_errors=True)
