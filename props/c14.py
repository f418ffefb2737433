"""C14: a rejected command line has no effect at all."""
from sim import docs

from . import common
from .common import Exec

RUNS = {"quick": 10000, "thorough": 125000}
REAL, STUB = common.REAL_CLI, common.STUB_CLI
RULE = ("command lines of 0-4 valid documents or directories plus 1-2 unusable arguments in random positions: missing, "
        "unreadable or unwritable documents (named or found through a directory), unlistable directories, unusable, "
        "duplicate or conflicting destinations, mismatched counts, unknown options, bad numbers; and --help, --version, "
        "--dev-help; in some runs a system call fails while the arguments are examined; non-trivial: every run")
ASSUMES = ["permissions are those of an ordinary user", "a destination that is also a different input is a bad one"]
INFO = ("-h", "--help", "--version", "--dev-help", "--developer-help")
BAD_WIDTH = ("abc", "8.5", "", "1e3", "0x10", "--", "8 8", "inf")
BAD_OPT = ("--frobnicate", "-x", "--line-lenght=3", "--output=o", "-Z", "--line-length", "--output-file", "--output-dir")


def gen(rng, i, tier):
    files, paths, have = [], [], set()

    def add(path, **kw):
        if path in have or any(h.startswith(path + "/") or path.startswith(h + "/") and h in leaf for h in have):
            return False
        have.add(path)
        if kw.get("kind") != "d":
            leaf.add(path)
        files.append({"path": path, **kw})
        return True
    leaf = set()
    for j in range(rng.choice((0, 1, 1, 2, 3))):
        name = rng.choice(("", "", "d/", "d/e/")) + f"f{j}.md"
        add("/work/" + name, data=common.cli.enc(docs.good_document(rng, crlf=.1, bigp=0, tidy=.15)))
        paths.append(name)
    if "d/" in " ".join(paths) and rng.random() < .3:
        paths = [p for p in paths if not p.startswith("d/")] + ["d"]
    cmd = {"paths": paths, "width": common.width_of(rng), "opts": common.verbosity(rng),
           "first": rng.random() < .5}
    if rng.random() < .2:
        cmd["check"] = True
    r = rng.random()
    if paths and r < .15:
        add("/work/o", kind="d")
        cmd["outdir"] = "o"
    elif paths and r < .3 and "d" not in paths:
        cmd["outfiles"] = [f"o{j}.md" for j in range(len(paths))]
        if rng.random() < .5:
            add("/work/o0.md", data="*  earlier\n")
    sc = {"fs": {"files": files, "dirmodes": [], "listing": rng.randrange(-1, 4)}, "mseed": rng.getrandbits(30),
          "proc": {"cmd": cmd, "faults": [], "stdin": {"data": "*  from stdin\n", "tty": rng.random() < .2}}}
    if rng.random() < .05:
        sc["proc"]["closed"] = rng.choice(("stdout", "stdout", "stderr", "stdin"))
    for _ in range(rng.choice((1, 1, 1, 2))):
        spoil(rng, sc, add)
    return sc


def insert(rng, paths, p):
    paths.insert(rng.randint(0, len(paths)), p)


def doc(rng):
    return common.cli.enc(docs.good_document(rng, bigp=0, crlf=0))


def spoil(rng, sc, add):
    """Make the command line unusable in one way."""
    cmd, files = sc["proc"]["cmd"], sc["fs"]["files"]
    kind = rng.choice(("missing", "missing", "unreadable", "unreadable", "unwritable", "unreadable-in-dir",
                       "unwritable-in-dir", "unlistable", "dangling", "option", "option", "width", "info", "outdir", "outdir",
                       "outfile", "outfile", "count", "both", "duplicate", "duplicate", "destination-is-input",
                       "outdir-entry", "fault", "hidden-behind-file", "searchless"))
    outfiles = cmd.get("outfiles")

    def grow(p):
        insert(rng, cmd["paths"], p)
        if outfiles:
            outfiles.append(f"x{len(outfiles)}.md")
    if kind == "missing":
        grow(rng.choice(("no.md", "d/no.md", "nodir/no.md", "no", "f9.md", "")))
    elif kind == "hidden-behind-file":
        if add("/work/plain.md", data=doc(rng)):
            grow("plain.md/x.md")
    elif kind == "searchless":
        if add("/work/s/in.md", data=doc(rng)):
            sc["fs"]["dirmodes"].append({"path": "/work/s", "mode": rng.choice((0o600, 0o200, 0o000))})
            grow("s/in.md")
    elif kind == "dangling":
        if add("/work/dl.md", kind="l", target=rng.choice(("nowhere.md", "dl.md"))):
            grow("dl.md")
    elif kind in ("unreadable", "unwritable"):
        mode = rng.choice((0o000, 0o200, 0o300, 0o044)) if kind == "unreadable" else rng.choice((0o444, 0o400, 0o555))
        kw = {"uid": 0, "gid": 0} if rng.random() < .3 else {}
        if kw:
            mode = {"unreadable": 0o600, "unwritable": 0o644}[kind]
        if add("/work/p.md", data=doc(rng), mode=mode, **kw):
            grow("p.md")
    elif kind in ("unreadable-in-dir", "unwritable-in-dir"):
        mode = 0o000 if kind == "unreadable-in-dir" else 0o444
        if add("/work/pd/" + rng.choice(("a.md", "z.md", "sub/q.md")), data=doc(rng), mode=mode):
            add("/work/pd/m.md", data=doc(rng))
            if not outfiles:
                grow("pd")
    elif kind == "unlistable":
        if add("/work/ud/a.md", data=doc(rng)):
            sc["fs"]["dirmodes"].append({"path": "/work/ud", "mode": rng.choice((0o000, 0o300, 0o100))})
            if not outfiles:
                grow("ud")
    elif kind == "option":
        cmd["opts"].insert(rng.randint(0, len(cmd["opts"])), rng.choice(BAD_OPT))
    elif kind == "width":
        cmd["opts"] = cmd["opts"] + ["--line-length", rng.choice(BAD_WIDTH)]
    elif kind == "info":
        cmd["opts"].insert(rng.randint(0, len(cmd["opts"])), rng.choice(INFO))
    elif kind == "outdir":
        cmd.pop("outfiles", None)
        r = rng.random()
        if r < .3:
            cmd["outdir"] = rng.choice(("nodir", "o/no"))
        elif r < .5:
            add("/work/afile", data="x\n")
            cmd["outdir"] = "afile"
        else:
            if add("/work/ro", kind="d"):
                sc["fs"]["dirmodes"].append({"path": "/work/ro", "mode": rng.choice((0o555, 0o000, 0o500))})
            cmd["outdir"] = "ro"
        if not cmd["paths"]:
            cmd["paths"].append("only.md")
            add("/work/only.md", data=doc(rng))
    elif kind == "outdir-entry":
        if cmd["paths"] and not outfiles and "d" not in cmd["paths"] and "pd" not in cmd["paths"]:
            cmd["outdir"] = "o"
            add("/work/o", kind="d")
            base = rng.choice(cmd["paths"]).rsplit("/", 1)[-1]
            if rng.random() < .5:
                add("/work/o/" + base, kind="d")
            else:
                add("/work/o/" + base, data="x\n", mode=0o444)
    elif kind == "count" and rng.random() < .25:
        # nothing but output files: none of the inputs they are for
        cmd.pop("outdir", None)
        cmd["paths"][:] = []
        cmd["outfiles"] = [f"x{j}.md" for j in range(rng.choice((1, 1, 2)))]
    elif kind in ("outfile", "count", "duplicate", "destination-is-input"):
        cmd.pop("outdir", None)
        cmd["paths"][:] = [p for p in cmd["paths"] if p not in ("d", "pd", "ud")]
        while len(cmd["paths"]) < (2 if kind != "outfile" else 1):
            name = f"g{len(cmd['paths'])}.md"
            add("/work/" + name, data=doc(rng))
            cmd["paths"].append(name)
        outs = cmd["outfiles"] = [f"x{j}.md" for j in range(len(cmd["paths"]))]
        k = rng.randrange(len(outs))
        if kind == "count":
            if rng.random() < .5:
                outs.pop(k)
            else:
                outs.append("extra.md")
        elif kind == "duplicate":
            j = (k + 1) % len(outs)
            if rng.random() < .5:
                outs[k] = rng.choice(("./", "../work/", "/work/", "")) + outs[j]
            else:
                add("/work/" + outs[j], data="x\n")
                if add("/work/alias.md", kind=rng.choice("lh"), target="/work/" + outs[j]):
                    outs[k] = "alias.md"
        elif kind == "destination-is-input":
            outs[k] = rng.choice(("", "./")) + cmd["paths"][(k + 1) % len(outs)]
        else:
            r = rng.random()
            if r < .25:
                add("/work/adir.md", kind="d")
                outs[k] = "adir.md"
            elif r < .5:
                outs[k] = rng.choice(("nodir/x.md", "f0.md/x.md"))
            elif r < .75:
                add("/work/rofile.md", data="x\n", mode=0o444)
                outs[k] = "rofile.md"
            else:
                if add("/work/ro", kind="d"):
                    sc["fs"]["dirmodes"].append({"path": "/work/ro", "mode": 0o555})
                outs[k] = "ro/new.md"
    elif kind == "both":
        add("/work/o", kind="d")
        cmd["outdir"] = "o"
        cmd["outfiles"] = [f"x{j}.md" for j in range(max(1, len(cmd["paths"])))]
    elif kind == "fault":
        try:
            res = Exec(sc).one(sc["proc"])
        except OSError:
            return
        pts = []
        for p in common.all_points(res):
            if p[0] in ("open.r", "stdin.read"):
                break
            if p[0] in common.ERRS:
                pts.append(p)
        if pts:
            p = rng.choice(pts)
            sc["proc"]["faults"] = [{"call": p[0], "nth": p[1], "kind": "err", "errno": rng.choice(common.ERRS[p[0]])}]


USER = (1000, [1000])


def lookup(fs, path):
    """(inode, None) or (None, error) as the user sees it."""
    try:
        return fs.walk(path or ".", fs.walk("/work", fs.root, common.ROOTCRED), USER), None
    except OSError as e:
        return None, e


def unusable(fs, cmd):
    """The model: a reason why this command line must be rejected, or None."""
    for o in cmd.get("opts", []):
        if o in INFO:
            return None
    for j, o in enumerate(cmd.get("opts", [])):
        if o in BAD_OPT[:5]:
            return f"unknown option {o}"
        if o == "--line-length":
            nxt = cmd["opts"][j + 1] if j + 1 < len(cmd["opts"]) else None
            if nxt in BAD_WIDTH:
                return f"bad line length {nxt!r}"
    if any(o in BAD_OPT for o in cmd.get("opts", [])):
        return None                                         # the following argument is taken as the value
    if cmd.get("outdir") is not None and cmd.get("outfiles"):
        return "output directory and output files"
    write_in_place = not cmd.get("check") and not cmd.get("outfiles") and cmd.get("outdir") is None
    inputs = []
    for arg in cmd.get("paths", []):
        node, e = lookup(fs, arg)
        if node is None:
            return f"{arg!r}: {e}"
        if node.kind == "d":
            found = []
            why = listed(fs, node, arg, found, set())
            if why:
                return why
            inputs.extend(found)
        elif node.kind == "f":
            inputs.append((arg, node))
    for name, node in inputs:
        if not fs.allowed(node, USER, 4):
            return f"{name} is not readable"
        if write_in_place and not fs.allowed(node, USER, 2):
            return f"{name} is not writable"
    dests = []
    if cmd.get("outdir") is not None:
        node, e = lookup(fs, cmd["outdir"])
        if node is None or node.kind != "d":
            return f"output directory {cmd['outdir']!r} does not exist"
        if not fs.allowed(node, USER, 2):
            return f"output directory {cmd['outdir']!r} is not writable"
        dests = [cmd["outdir"] + "/" + name.rsplit("/", 1)[-1] for name, _ in inputs]
    elif cmd.get("outfiles"):
        dests = cmd["outfiles"]
        if len(dests) != len(inputs):
            return f"{len(inputs)} inputs and {len(dests)} output files"
    ids = []
    for d in dests:
        node, e = lookup(fs, d)
        if node is not None:
            if node.kind == "d":
                return f"destination {d} is a directory"
            if not fs.allowed(node, USER, 2):
                return f"destination {d} is not writable"
            ids.append(("ino", node.ino))
        else:
            try:
                parent, name, _ = fs.walk(d, fs.walk("/work", fs.root, common.ROOTCRED), USER, True, True)
            except OSError as e:
                return f"destination {d}: {e}"
            if not fs.allowed(parent, USER, 2):
                return f"destination {d}: the directory is not writable"
            ids.append((parent.ino, name))
    for a, (na, ia) in enumerate(inputs[:len(ids)]):
        for b, (nb, ib) in enumerate(inputs[:len(ids)]):
            if ia is not ib and ids[a] == ids[b]:
                return f"{na} and {nb} both go to {dests[a]}"
            if ia is not ib and ids[a] == ("ino", ib.ino):
                return f"the destination of {na} is the input {nb}"
    return None


def listed(fs, node, arg, found, seen):
    if node.ino in seen:
        return None
    seen.add(node.ino)
    if not fs.allowed(node, USER, 5):
        return f"{arg} cannot be listed"
    for name in sorted(node.entries):
        if name.startswith("."):
            continue
        child, path = node.entries[name], arg + "/" + name
        if child.kind == "d":
            why = listed(fs, child, path, found, seen)
            if why:
                return why
        elif child.kind == "f" and name.endswith(".md"):
            found.append((path, child))
    return None


def execute(sc):
    x = Exec(sc)
    run, proc = x.run, sc["proc"]
    cmd = proc["cmd"]
    why = unusable(x.fs, cmd)
    info = next((o for o in cmd.get("opts", []) if o in INFO), None)
    before = x.fs.snapshot("/")
    r = x.one(proc)
    after = x.fs.snapshot("/")
    changed = [p for p in sorted(set(before) | set(after)) if before.get(p) != after.get(p)]
    asked = len(common.argv(cmd))
    early = [f for f in r.fired if f[2] == "err"] and before_work(r)
    what = why or (f"{info} was given" if info else "a system call failed while the arguments were examined")
    if r.hung:
        run.problem("no-end", "the run did not end within the step budget")
    elif why or info or (early and r.code != 0):
        if changed:
            run.problem("rejected-with-effect", f"{what}, yet {changed[0]} became "
                                                f"{common.short(after.get(changed[0]))} (status {r.code})")
        if r.stdin_reads:
            run.problem("consumed-stdin", f"{what}, yet standard input was read")
        if why and not info and r.code == 0:
            run.problem("accepted", f"status 0 although {why}")
    run.stats["probe:" + ("information" if info else "usable" if not why else "unusable")] += 1
    run.stats["probe:failure-while-examining"] += bool(early)
    return x.finish(nontrivial=bool(why or info or early) and asked > 0)


def before_work(r):
    """The fault struck before any document or standard input was opened."""
    for name, detail, out in r.oplog:
        if name in ("open.r", "open.w", "stdin.read"):
            return False
        if out == "err":
            return True
    return False
