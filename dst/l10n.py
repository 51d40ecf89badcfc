"""Simulation A: fluent.runtime.FluentLocalization over a simulated disk.

A world is a set of locales, roots, resource ids and file contents.  `Mirror` is the reference
model: which bundles exist, in which order they are loaded, what is in them, and what the
lookup of a message has to return.
"""
from . import fns, ftl, model, sched, simfs

LOCALES = ["en-US", "de", "fr", "pl", "ar", "cs", "ja", "en-GB"]
ODD = ["pt_BR", "zh-Hant-TW", "sr_Latn", "ne"]
UNKNOWN = ["xx-Test", "tlh"]
ROOTS = ["/simfs/r0/{locale}", "/simfs/r1/{locale}/sub", "/simfs/{locale}-r2"]
RIDS = ["a.ftl", "b.ftl", "sub/{locale}.ftl", "c.ftl"]
VARS = ("n", "s", "f", "x")


def gen_fns(rng):
    spec = {"F": {"do": "join"}, "G": {"do": rng.choice(["join", "first", "count"])}}
    if rng.random() < .15:
        spec["G"]["err"] = rng.choice(sorted(fns.ERRORS))   # fails whenever it is called
    return spec


def gen_world(rng, nmsgs=None, loader=None, sparse=.35, complex_=True, odd=False):
    nl = rng.choice([1, 2, 2, 3, 3, 4])
    locales = rng.sample(LOCALES + ODD if odd else LOCALES, nl)
    if odd and nl > 1 and rng.random() < .1:
        locales.append(locales[0])
    for unknown in UNKNOWN:
        if rng.random() < .12:   # never the last one: which conventions it has is not specified
            locales.insert(rng.randrange(len(locales)), unknown)
            if rng.random() < .7:
                locales.insert(locales.index(unknown), "qq" + unknown)
    roots = rng.sample(ROOTS + ["/simfs/r3"] if odd else ROOTS, rng.choice([1, 1, 2, 2, 3]))
    rids = rng.sample(RIDS, rng.choice([1, 1, 2, 3]))
    msgs = ["m%d" % i for i in range(nmsgs or rng.randrange(3, 8))]
    terms = ["t%d" % i for i in range(rng.randrange(3))]
    files = {}
    for li, loc in enumerate(locales):
        for ri, root in enumerate(roots):
            for fi, rid in enumerate(rids):
                if rng.random() < sparse * (.6 if len(roots) == 1 else 1):
                    continue
                g = ftl.Gen(rng, msgs, terms, f"·{li}{ri}{fi}", variables=VARS,
                            depth=1 if complex_ else 0)
                ms = [m for m in msgs if rng.random() < .5]
                ts = [t for t in terms if rng.random() < .6]
                doc = g.doc(ms, ts)
                if ms and rng.random() < .15:
                    doc.append(g.message(rng.choice(ms)))  # a second definition in the file
                path = localized(root, rid, loc)
                files[path] = {"doc": doc}
                if rng.random() < .1:
                    files[path]["crlf"] = True
    kind = loader or rng.choice(["disk"] * 4 + ["gen", "list"])
    return {"locales": locales, "roots": roots, "rids": rids, "msgs": msgs, "files": files,
            "iso": rng.random() < .4, "fns": gen_fns(rng), "loader": kind}


def localized(root, rid, locale):
    return (root + "/" + rid).replace("{locale}", locale)


def content(f):
    if "hex" in f:
        return bytes.fromhex(f["hex"])
    text = ftl.render(f["doc"])
    if f.get("crlf"):
        text = text.replace("\n", "\r\n")
    return text.encode("utf-8")


class LoadError(Exception):
    """Raised by simulated custom loaders."""


class Mirror:
    """The reference model of one FluentLocalization, loading lazily from `files`."""

    def __init__(self, world, files):
        self.w = world
        self.files = files            # path -> {"doc"} (live: follows the disk)
        self.fns = fns.Fns(world["fns"]).model()
        self.positions = [(li, ri) for li in range(len(world["locales"]))
                          for ri in range(len(world["roots"]))]
        self.next = 0                 # next position to load
        self.loaded = []              # [(position index, model.Bundle)]

    def paths(self, p):
        li, ri = self.positions[p]
        return [localized(self.w["roots"][ri], rid, self.w["locales"][li])
                for rid in self.w["rids"]]

    def make(self, p):
        li, _ = self.positions[p]
        docs = [self.files[x] for x in self.paths(p) if x in self.files]
        if not docs:
            return None
        b = model.Bundle(self.w["locales"][li:], self.w["iso"], self.fns)
        for d in docs:
            b.add(d.get("doc", []))
        return b

    def find(self, msg):
        """-> (index into loaded or None) using loaded bundles only"""
        for i, (p, b) in enumerate(self.loaded):
            if msg in b.messages and b.messages[msg]["v"] is not None:
                return i
        return None

    def step(self):
        """Visit the next position. -> the bundle there, or None"""
        p = self.next
        self.next += 1
        b = self.make(p)
        if b is not None:
            self.loaded.append((p, b))
        return b

    def load_next(self):
        """Load the next existing bundle. -> False if there is none"""
        while self.next < len(self.positions):
            if self.step() is not None:
                return True
        return False

    def needs(self, msg):
        """Positions an ideal lookup of msg has to visit now, beyond the loaded ones."""
        if self.find(msg) is not None:
            return []
        out = []
        for p in range(self.next, len(self.positions)):
            out.append(p)
            b = self.make(p)
            if b is not None and msg in b.messages and b.messages[msg]["v"] is not None:
                break
        return out

    def lookup(self, msg, args):
        while True:
            i = self.find(msg)
            if i is not None:
                p, b = self.loaded[i]
                text = b.format(msg, None, args)[0]
                return f"<{text}@{self.w['locales'][self.positions[p][0]]}>" if self.w.get("own") else text
            if not self.load_next():
                return msg


def disk_bytes(world):
    return {p: content(f) for p, f in world["files"].items()}


def make_loader(world, fs, parsed=None):
    from fluent.runtime import AbstractResourceLoader, FluentResource, FluentResourceLoader
    if world["loader"] == "disk":
        roots = world["roots"]
        return FluentResourceLoader(roots[0] if len(roots) == 1 and world.get("str_root") else list(roots))

    # Custom loaders use the simulated disk's content and faults, but no files.
    def read(path):
        cur = sched.CURRENT
        if cur is not None:
            cur.sleep(fs.delays.get(path, 0), "load " + path)
        fs.log.append(("open", path))
        fs.fault("open", path)
        fs.fault("read", path)
        return FluentResource(fs.files[path].decode("utf-8"))

    def lists(locale, rids):
        for root in world["roots"]:
            got = []
            for rid in rids:
                path = localized(root, rid, locale)
                if path in fs.files:
                    got.append(read(path))
            if got:
                yield got

    class GenLoader(AbstractResourceLoader):
        def resources(self, locale, resource_ids):
            return lists(locale, resource_ids)

    class ListLoader(AbstractResourceLoader):
        def resources(self, locale, resource_ids):
            return list(lists(locale, resource_ids))

    return GenLoader() if world["loader"] == "gen" else ListLoader()


def gen_second(rng, world):
    """The locales of a second localization object, which may share the loader of the first"""
    locales = rng.sample(world["locales"], rng.randrange(1, len(world["locales"]) + 1))
    while len(locales) > 1 and locales[-1] not in LOCALES:
        locales.pop()
    return locales if locales[-1] in LOCALES else list(world["locales"])


def own_class():
    """A bundle class of the application"""
    from fluent.runtime import FluentBundle

    class Own(FluentBundle):
        def format_pattern(self, pattern, args=None):
            text, errors = super().format_pattern(pattern, args)
            return f"<{text}@{self.locales[0]}>", errors

    return Own


def make_l10n(world, fs, loader=None):
    from fluent.runtime import FluentBundle, FluentLocalization
    return FluentLocalization(list(world["locales"]), list(world["rids"]), loader or make_loader(world, fs),
                              use_isolating=world["iso"],
                              bundle_class=own_class() if world.get("own") else FluentBundle,
                              functions=fns.Fns(world["fns"]).real())


def gen_lookups(rng, world, n, odd=False):
    out = []
    pool = world["msgs"] * 3 + ["nosuch", "m99"]
    if odd:
        m = rng.choice(world["msgs"])
        pool += rng.sample([m + ".a", "-t0", "t0", "", m.upper(), " " + m, m + " ", "F", "-" + m, m + "\n"], 2)
    for _ in range(n):
        out.append({"msg": rng.choice(pool), "args": ftl.gen_args(rng, VARS)
                    if rng.random() < .9 else None})
    return out


def world_stats(world):
    return {"locales": len(world["locales"]), "files": len(world["files"])}


def make_fs(world):
    fs = simfs.SimFS(disk_bytes(world))
    fs.short = world.get("short", 0)
    simfs.install(fs)
    return fs


def gen_duel(rng):
    """One or two switches only: the other threads run for long while one is stopped."""
    if rng.random() < .5:
        est = rng.choice([10, 30, 100, 300])
        return sorted([rng.randrange(1, est), rng.randrange(1 << 11), "e"] for _ in range(rng.choice([1, 1, 2])))
    est = rng.choice([60, 150, 400, 1000, 3000])
    return sorted([rng.randrange(1, est), rng.randrange(1 << 11)] for _ in range(rng.choice([1, 1, 2, 3])))


def gen_switches(rng, est, n):
    """Forced context switches: uniformly spread ones and bursts, some at function entries."""
    out = []
    if rng.random() < .3:
        for _ in range(rng.randrange(1, 6)):
            out.append([rng.randrange(1, max(2, est // 12)), rng.randrange(1 << 11), "e"])
    while len(out) < n:
        t = rng.randrange(1, est)
        out.append([t, rng.randrange(1 << 11)])
        if rng.random() < .4:
            for _ in range(rng.randrange(1, 5)):
                t += rng.choice([1, 2, 3, 5, 8, 13, 30, 80])
                out.append([t, rng.randrange(1 << 11)])
    return sorted(out)
