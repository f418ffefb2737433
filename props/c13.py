"""C13: a directory argument stands for each Markdown file in it, whatever the names and the listing order."""
from sim import docs

from . import c03, common
from .common import Exec

RUNS = {"quick": 7000, "thorough": 87500}
REAL, STUB = common.REAL_CLI, common.STUB_CLI
RULE = ("random trees with hidden files and directories, pattern characters, blanks, non-ASCII and odd suffixes in "
        "names, directories, pipes and dangling links named like documents, links to files and directories (loops "
        "included); the same command is run under three directory listing orders on identical machines; handled files "
        "are recognised by their contents; some trees hold an unformattable document, some runs see a file vanish or an "
        "error while listing; non-trivial: at least two candidate entries")
ASSUMES = ["a file reached by two names (links) may be handled once or twice", "names contain no line breaks"]

WEIRD = ("a.md", "b.md", "x y.md", "[a].md", "[ab]c.md", "*.md", "?.md", "{a}.md", "\u00e9.md", "\u65e5\u672c.md",
         "-v.md", "--check.md", "~.md", "#.md", "a.b.md", "A.md", "UP.MD", "n.markdown", "n.txt", "a.md.bak", "md",
         "x.md~", ".md", ".hidden.md", "_u_.md", "$HOME.md", "a\\b.md", "'q'.md", "!.md", "z.mdx", "0.md",
         "\udcff.md", "\udce9x.md", "*b*.md", "<c>.md", "[d](e).md", "n" * 70 + ".md", "n" * 252 + ".md",
         " lead.md", "trail .md", "tab\tbed.md", "new\nline.md", "\x1b[1mz.md", "%s.md", "a,b;c.md", "CON.md", "README.md", "..x.md",
         "-.md", "\u202ertl.md", "e\u0301.md")
DIRS = ("d", "e", "sub dir", "[d]", "d*", "?", "**", ".git", ".h", "dir.md", "\u00fc", "a") + common.ODD_DIRS

# names that some rule of comparison takes for equal
FAMILIES = (("a", "A"), ("readme", "README", "Readme"), ("1", "01", "001"), ("a2", "a02", "A2"), ("\u00e9", "e\u0301", "e"), ("ab", "ba", "aa", "bb"),
            ("a b", "a_b", "a-b", "ab"), ("\uff41", "a"), ("\u00df", "ss", "SS"), ("x", "x ", " x"), ("i", "\u0130", "\u0131", "I"),
            ("f.1", "f.2", "f"), ("\u200ba", "a"), ("a" * 40 + "1", "a" * 40 + "2", "a" * 40 + "3"), ("\udcff", "\udcfe", "\ufffd"),
            ("v1.10", "v1.1", "v1.01"), ("(1)", "[1]", "1"))


def family(rng, d, add, files):
    """Documents (or directories with documents) in one directory that differ in nothing but their names and their fate."""
    stems = list(rng.choice(FAMILIES))
    rng.shuffle(stems)
    docs_ = [f"*  k{j}\n" for j in range(len(stems))]
    if rng.random() < .75:
        docs_[rng.randrange(len(docs_))] = docs.BAD[0] + "\n"
    size = max(map(len, docs_)) + 4
    deep = rng.random() < .3
    for stem, t in zip(stems, docs_):
        t += "\n" + "w" * (size - len(t) - 2) + "\n"
        path = f"{d}/{stem}"
        if deep:
            if add(path, kind="d"):
                add(path + "/k.md", data=t)
        else:
            add(path + ".md", data=t)


def gen(rng, i, tier):
    files, have, made = [], set(), set()

    def add(path, **kw):
        parts = path.split("/")
        for k in range(3, len(parts)):
            if "/".join(parts[:k]) in have - made:
                return False
        if kw.get("kind") == "d":
            made.add(path)
        if path in have or any(h.startswith(path + "/") for h in dirs):
            return False
        have.add(path)
        files.append({"path": path, **kw})
        return True
    dirs = ["/work/" + rng.choice(DIRS) for _ in range(rng.choice((1, 1, 2)))]
    for _ in range(rng.choice((0, 1, 2, 3))):
        dirs.append(rng.choice(dirs) + "/" + rng.choice(DIRS))
    if rng.random() < .1:
        for _ in range(rng.choice((4, 6, 10, 20))):                     # far down
            dirs.append(max(dirs, key=len) + "/" + rng.choice(DIRS))
    if rng.random() < .06:
        top = rng.choice(dirs)
        dirs += [f"{top}/w{j}" for j in range(rng.choice((9, 12, 17, 33, 65, 101)))]    # side by side
    dirs = list(dict.fromkeys(dirs))
    for d in dirs:
        files.append({"path": d, "kind": "d"})
    bad = rng.random() < .25
    if rng.random() < .02:
        many = rng.choice(dirs)
        for j in range(rng.choice((60, 110, 150, 270))):                   # more than a screenful
            add(f"{many}/m{j}.md", data="" if j % 7 else f"*  many {j}\n")
    alike = rng.random() < .14
    if alike:
        family(rng, rng.choice(dirs), add, files)
    for j in range(rng.choice((0, 1, 2, 3, 4, 6, 8)) if not alike else rng.choice((0, 0, 1, 3))):
        r = rng.random()
        path = rng.choice(dirs) + "/" + rng.choice(WEIRD)
        if r < .78:
            doc = f"*  item {j}\n*  more\n" if not (bad and rng.random() < .3) else docs.BAD[0]
            add(path, data=doc)
        elif r < .83:
            add(path, kind="d")
        elif r < .86:
            add(path, kind="p")
        elif r < .93:
            others = [f["path"] for f in files if f.get("kind") is None]
            add(path, kind="l", target=rng.choice(others) if others and rng.random() < .8 else "nowhere")
        else:
            add(rng.choice(dirs) + "/ln" + str(j), kind="l", target=rng.choice(dirs + ["..", "."]))
    tops = [d for d in dirs if d.count("/") == 2]
    paths = [common.rel(rng.choice(tops))]
    if rng.random() < .3:
        paths = [common.rel(d) for d in rng.sample(tops, len(tops))]
    if rng.random() < .15:
        paths = ["."]
    if rng.random() < .1:
        files.append({"path": "/work/single.txt", "data": "*  single\n"})
        paths.append("single.txt")
    paths = [p if not p.startswith("-") else "./" + p for p in paths]
    sc = {"fs": {"files": files}, "orders": [0, -1, rng.randrange(1, 1000)], "mseed": rng.getrandbits(30),
          "proc": {"cmd": {"paths": paths, "first": True, "opts": common.verbosity(rng)}, "faults": [],
                   "stdin": {"data": "*  from stdin\n", "tty": rng.random() < .2}}}
    r = rng.random()
    if r < .12:
        res = Exec(dict(sc, fs=dict(sc["fs"], listing=0))).one(sc["proc"])
        pts = [p for p in common.all_points(res) if p[0] in ("scandir", "open.r", "stat")]
        regs = [f["path"] for f in files if f.get("kind") is None]
        if pts and regs:
            p = rng.choice(pts)
            sc["proc"]["faults"] = [{"call": p[0], "nth": p[1], "kind": "ext",
                                     "action": {"op": "unlink", "path": rng.choice(regs)}}]
    elif r < .2:
        res = Exec(dict(sc, fs=dict(sc["fs"], listing=0))).one(sc["proc"])
        pts = [p for p in common.all_points(res) if p[0] == "scandir"]
        if pts:
            p = rng.choice(pts)
            sc["proc"]["faults"] = [{"call": p[0], "nth": p[1], "kind": "err",
                                     "errno": rng.choice(common.ERRS["scandir"])}]
    return sc


def execute(sc):
    first = None
    calm = not sc["proc"].get("faults")
    x0 = None
    for order in sc["orders"]:
        x = Exec(dict(sc, fs=dict(sc["fs"], listing=order)))
        run = x.run
        if x0 is not None:
            run.problems = x0.run.problems
            run.stats = x0.run.stats
            x.h.update(x0.h.digest())
            for k, v in x0.machine.fault_counts.items():
                x.machine.fault_counts[k] = x.machine.fault_counts.get(k, 0) + v
        x0 = x
        if any(common.node_of(x.fs, p) is None for p in sc["proc"]["cmd"].get("paths", [])):
            return x.finish(nontrivial=False)             # (only while minimising)
        model = common.targets(x.fs, sc["proc"]["cmd"])
        inos = {ino for _, ino in model}
        named = common.paths_of(x.fs, inos)
        want = {p: docs.expected(d) for p, d in x.before.items() if p in named}
        good = all(e[0] == "ok" for e in want.values())
        links = any(f.get("kind") == "l" for f in sc["fs"]["files"])
        r = x.one(sc["proc"])
        after = common.contents(x.fs)
        if r.hung:
            run.problem("no-end", "the run did not end within the step budget")
            continue
        for p, old in x.before.items():
            now = after.get(p)
            if p not in named and now != old and not (now is None and not calm):
                run.problem("handled-extra", f"{p} is not one of the directory's documents but was changed: "
                                             f"{common.short(now)}")
            if r.code == 0 and p in want and now is not None and want[p][0] == "ok" and now != want[p][1]:
                run.problem("not-handled", f"status 0 but {p} was not formatted (arguments "
                                           f"{sc['proc']['cmd']['paths']})")
        extra = [p for p in after if p not in x.before]
        if extra:
            run.problem("footprint", f"{extra[0]} appeared")
        if calm and good and r.code != 0:
            run.problem("failed-without-reason", f"status {r.code} ({r.exc}) for arguments "
                                                 f"{sc['proc']['cmd']['paths']}: {r.err[-200:]!r}{r.out[-200:]!r}")
        if calm and not good and r.code == 0:
            run.problem("status", "status 0 although a document in the directory cannot be formatted")
        if calm and good and r.code == 0 and model and not links:
            _, changed, same = c03.report(r.out)
            if changed + same != len(model):
                run.problem("not-each-once", f"{changed + same} files reported for {len(model)} documents")
        if not model and sc["proc"]["cmd"].get("paths"):
            if r.stdin_reads:
                run.problem("read-stdin", "standard input was read although a directory was given")
            run.stats["probe:nothing-to-do"] += 1
        if calm:
            got = (r.code, r.out, sorted(after.items()))
            if first is None:
                first = got
            elif got != first:
                what = "exit status" if got[0] != first[0] else "files" if got[2] != first[2] else "output"
                run.problem("order-dependent", f"the {what} differ between listing orders {sc['orders'][0]} and {order}")
        run.stats["probe:unformattable-inside"] += not good
        run.stats["probe:link-in-tree"] += links
        run.stats["probe:error-while-listing"] += any(f[0] == "scandir" for f in r.fired)
    if x0 is None:
        from sim import harness
        return harness.Run()
    return x0.finish(nontrivial=len(sc["fs"]["files"]) > 2)
