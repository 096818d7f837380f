"""C16: the documentation generator on a simulated disk: failing operations, crashes with torn or lost writes, interrupts, repeated runs."""
import gc
import html
import inspect
import os
import re
import shutil
import tempfile

from .. import core, disk, lp
from ..core import REPO, Violation
import pytimize

LISTS = ("runs", "junk")
INTS = ()
SOURCE = os.path.join(REPO, "docs", "generate.py")
JUNK = {"old page": ("programs/OldProgram.html", "<html>old</html>"), "old folder": ("removed/sub/Page.html", "x"), "stray file": ("notes.txt", "n"),
        "torn page": ("programs/LinearProgram.html", "<html><h1>Linear"), "empty page": ("graphs/UndirectedGraph.html", ""),
        "folder in place of a page": ("graphs/DirectedGraph.html/inner.txt", "y"), "other page": ("graphs/LinearProgram.html", "z"),
        "file in place of a folder": ("utilities", "w"), "hidden file": (".cache", "q"),
        # links to what lies outside: ("relative name", target relative to the output folder)
        "link in place of a page": ("programs/IntegerProgram.html", ("../../../README.md",)), "link in place of a folder": ("graphs", ("../../other",)),
        "stray link": ("stray", ("../../programs",))}


def generate(rng, tier):
    runs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = rng.random()
        u = rng.randrange(10 ** 6) / 10 ** 6
        if r < 0.35:
            f = {"kind": "crash", "u": u, "loss": rng.choice(["none", "torn", "lost", "mixed"]), "seed": rng.randrange(1 << 30)}
        elif r < 0.65:
            f = {"kind": "error", "u": u, "errno": rng.choice(sorted(disk.ERRNOS))}
        elif r < 0.76:
            f = {"kind": "write", "u": u, "errno": rng.choice(["ENOSPC", "EIO"])}
        elif r < 0.85:
            f = {"kind": "close", "u": u, "errno": rng.choice(["ENOSPC", "EIO"])}
        elif r < 0.95:
            f = {"kind": "interrupt", "u": u}
        else:
            f = {"kind": "none", "u": u}
        runs.append(f)
    return {"junk": rng.sample(sorted(JUNK), rng.choice([0, 0, 1, 2, 3])), "existing": rng.random() < 0.6, "runs": runs,
            "cwd": rng.choice(["scratch", "docs", "other"])}


_cache = {}


def squash(s):
    return re.sub(r"\s+", "", html.unescape(s))


def expected_pages():
    """{page: (class, {member: docstring})} read off the package itself."""
    pages, todo = {}, [(pytimize, "")]
    while todo:
        mod, path = todo.pop()
        for name in mod.__all__:
            v = getattr(mod, name)
            if inspect.ismodule(v):
                todo.append((v, os.path.join(path, name)))
            elif inspect.isclass(v):
                m = {k: f.__doc__ for k, f in inspect.getmembers(v) if not k.startswith("_") and f.__doc__ is not None}
                if m:
                    pages[os.path.join(path, v.__name__ + ".html")] = (v.__name__, m)
    return pages


def check_complete(t, what):
    """Structure and content of a generated tree against the package."""
    pages = expected_pages()
    files = {p for p, v in t.items() if v is not None}
    if files != set(pages):
        raise Violation("wrong-pages", f"{what}: missing {sorted(set(pages) - files)}, extra {sorted(files - set(pages))}")
    for p, (cls, members) in pages.items():
        text = t[p].decode("utf-8", "replace")
        if not text.rstrip().endswith("</html>"):
            raise Violation("incomplete-page", f"{what}: {p} does not end properly")
        titles = [squash(x) for x in re.findall(r"<h2>(.*?)</h2>", text, re.S)]
        if sorted(titles) != sorted(members):
            raise Violation("incomplete-page", f"{what}: {p} has entries {sorted(titles)}, the class has {sorted(members)}")
        if not re.search(r"<h1>\s*" + re.escape(cls) + r"\s*</h1>", text):
            raise Violation("incomplete-page", f"{what}: {p} has no heading {cls}")
        flat = squash(re.sub(r"</?(?:pre|br|p|div|hr|h2|section|body|html)\s*/?>", "", text))
        for name, doc in members.items():
            body = re.sub(r"`(.*?)`", r"\g<1>", re.sub(r"<(.*?)>", r"{\g<1>}", doc))
            if name + squash(body) not in flat:
                raise Violation("incomplete-page", f"{what}: {p} lacks the full text of {name}")


class Site:
    """A scratch checkout: docs/ copied, neighbours to watch, and the simulated disk under it."""

    def __init__(self, cwd):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="dst-c16-"))
        self.docs = os.path.join(self.dir, "docs")
        self.out = os.path.join(self.docs, "pytimize")
        shutil.copytree(os.path.join(REPO, "docs"), self.docs, ignore=shutil.ignore_patterns("pytimize", "__pycache__"))
        for p in ("pytimize/programs/_linear.py", "docs/pytimize.html", "docs/pytimize-old/Page.html", "README.md", "other/x", "programs/A.html"):
            q = os.path.join(self.dir, p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with disk._open(q, "w") as f:
                f.write("neighbour\n")
        self.cwd = {"scratch": self.dir, "docs": self.docs, "other": os.path.join(self.dir, "other")}[cwd]
        self.around = self.surroundings()

    def surroundings(self):
        return {k: v for k, v in disk.tree(self.dir).items() if k != "docs/pytimize" and not k.startswith("docs/pytimize/")}

    def run(self, fault=None, at=None):
        """One execution of the generator as a script. Returns (outcome, disk)."""
        if "code" not in _cache:
            with disk._open(SOURCE, "rb") as f:
                _cache["code"] = compile(f.read(), SOURCE, "exec", dont_inherit=True)
        old = os.getcwd()
        os.chdir(self.cwd)
        name = os.path.join(self.docs, "generate.py")
        try:
            with disk.running(self.dir, self.out, fault) as d:
                o = core.call(lambda: exec(_cache["code"], {"__name__": "__main__", "__file__": name, "__builtins__": __builtins__}), 3_000_000, at=at)
                if not o.ok:
                    o.exc.__traceback__ = None
                    gc.collect()    # what the dead process still had in its buffers goes nowhere
        finally:
            os.chdir(old)
        return o, d

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def reference():
    if "tree" not in _cache:
        s = Site("scratch")
        try:
            # whatever a library loads lazily is loaded by now; the second run is the one to count
            for _ in range(2):
                shutil.rmtree(s.out, ignore_errors=True)
                o, d = s.run()
                if not o.ok:
                    raise Violation("unexpected-error", f"an undisturbed run raised {type(o.exc).__name__}: {o.exc}; refused {d.outside[:3]}")
            t = disk.tree(s.out)
            o2, d2 = s.run()
            if not o2.ok:
                raise Violation("unexpected-error", f"an undisturbed second run raised {type(o2.exc).__name__}: {o2.exc}")
            check_complete(t, "undisturbed run")
            _cache["fresh"] = {"ops": len(d.ops), "write": d.count["write"], "close": d.count["close"], "events": o.events}
            _cache["again"] = {"ops": len(d2.ops), "write": d2.count["write"], "close": d2.count["close"], "events": o2.events}
            _cache["tree"] = t
        finally:
            s.close()
    return _cache["tree"]


def lose(d, loss, seed, ctx):
    """The disk after the crash: data not yet synced may be torn or gone."""
    rng = core.rng_for("loss", seed)
    for p in sorted(d.written):
        if not os.path.isfile(p):
            continue
        how = rng.choice(["none", "torn", "lost"]) if loss == "mixed" else loss
        size = os.path.getsize(p)
        if how == "torn" and size:
            with disk._open(p, "r+b") as f:
                f.truncate(rng.randrange(size))
            ctx.fault("torn write")
        elif how == "lost":
            if rng.random() < 0.5:
                os.truncate(p, 0)
            else:
                os.remove(p)
            ctx.fault("lost write")


def execute(plan, ctx):
    ref = reference()
    s = Site(plan["cwd"])
    try:
        if plan["existing"]:
            os.makedirs(s.out)
            for p, v in ref.items():
                q = os.path.join(s.out, p)
                if v is None:
                    os.makedirs(q, exist_ok=True)
            for p, v in ref.items():
                if v is not None:
                    with disk._open(os.path.join(s.out, p), "wb") as f:
                        f.write(v)
        for j in plan["junk"]:
            rel, text = JUNK[j]
            q = os.path.join(s.out, rel)
            if os.path.realpath(os.path.dirname(q)) != os.path.dirname(q):
                continue
            if os.path.lexists(q) and not os.path.isdir(q) and "link" in j:
                os.remove(q)
            if os.path.exists(q) and "in place" in j:
                shutil.rmtree(q) if os.path.isdir(q) else os.remove(q)
            try:
                os.makedirs(os.path.dirname(q), exist_ok=True)
                if isinstance(text, tuple):
                    os.symlink(text[0], q)
                else:
                    with disk._open(q, "w") as f:
                        f.write(text)
            except OSError:
                continue
            ctx.fault("left-over in the output folder")
        for k, r in enumerate(plan["runs"] + [{"kind": "none", "u": 0}]):
            c = _cache["again"] if os.path.isdir(s.out) else _cache["fresh"]
            kind = r["kind"]
            fault = at = None
            if kind == "crash":
                fault = ("crash", 1 + int(r["u"] * c["ops"]))
            elif kind == "error":
                fault = ("error", 1 + int(r["u"] * c["ops"]), r["errno"])
            elif kind in ("write", "close"):
                fault = (kind, 1 + int(r["u"] * c[kind]), r["errno"])
            elif kind == "interrupt":
                at = 1 + int(r["u"] * c["events"])
            if kind != "none":
                ctx.want(kind)
            o, d = s.run(fault, at)
            label = f"run {k} ({kind}{' at ' + '/'.join(map(str, d.fired)) if d.fired else ''}{' ' + r['errno'] if 'errno' in r else ''})"
            fired = d.fired or o.hit
            if d.fired:
                ctx.fault(f"{kind}:{r['errno']}" if "errno" in r else kind)
                ctx.site((f"{kind} {d.fired[0]}", d.fired[1]))
            elif o.hit:
                ctx.fault("interrupt")
                ctx.site(o.hit)
            if kind == "crash" and d.fired:
                lose(d, r["loss"], r["seed"], ctx)
            ctx.write(k, kind, o.ok, len(d.ops), d.fired)
            ctx.state(kind, d.fired, sorted((p, -1 if v is None else len(v)) for p, v in disk.tree(s.out).items()) if os.path.isdir(s.out) else None)
            if d.outside:
                raise Violation("outside-changed", f"{label}: tried {d.outside[:4]}")
            now = s.surroundings()
            if now != s.around:
                ch = sorted(x for x in set(now) | set(s.around) if now.get(x, 0) != s.around.get(x, 0))
                raise Violation("outside-changed", f"{label}: changed {ch[:6]}")
            if o.ok:
                if kind in ("error", "write", "close") and d.fired:
                    raise Violation("failure-hidden", f"{label}: {d.fired[0]} failed but the run returned normally")
                if kind == "crash" and d.fired:
                    raise core.Skip("crash swallowed")
                t = disk.tree(s.out) if os.path.isdir(s.out) else {}
                if t != ref:
                    miss, extra = sorted(set(ref) - set(t)), sorted(set(t) - set(ref))
                    wrong = sorted(x for x in set(t) & set(ref) if t[x] != ref[x])
                    raise Violation("not-complete", f"{label} returned normally: missing {miss[:4]}, left over {extra[:4]}, wrong content {wrong[:4]}")
            elif not fired:
                raise Violation("unexpected-error", f"{label} after {[x['kind'] for x in plan['runs'][:k]]} with {plan['junk']}: "
                                                    f"{type(o.exc).__name__}: {o.exc}")
    finally:
        s.close()
