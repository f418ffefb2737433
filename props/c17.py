"""C17: a run touches only what it was asked to write, and only its contents."""
from sim import docs

from . import common
from .common import Exec

RUNS = {"quick": 5000, "thorough": 62500}
REAL, STUB = common.REAL_CLI, common.STUB_CLI
RULE = ("trees with random modes, owners and groups, symbolic and hard links, long and odd names, read-only directories, "
        "special files and bystanders; formatted in place or to destinations by an ordinary user or root under random "
        "umasks; 55% of the runs are undisturbed, the others suffer 1-2 failing or partial system calls, interrupts or "
        "a full disk; names, kinds, modes, owners, links of everything and the inodes and times of everything that "
        "needed no change are compared; non-trivial: a fault fired or some metadata is unusual")
ASSUMES = ["directory time stamps are not part of the property", "a killed run may leave a file behind (crash, not an "
           "error of its own); so may one whose attempt to remove it failed",
           "contents under failing calls are judged by C01 and C02; here only of files not asked for"]


DURING = ("write", "fsync", "chmod", "chown", "rename")


def gen(rng, i, tier):
    uid = 0 if rng.random() < .15 else 1000
    n = rng.choice((1, 1, 2, 3))
    files, named, dirs = [], [], ["/work", "/work/d", "/work/d/e"]
    for j in range(n):
        name = rng.choice(("f%d.md", "f%d.md", "f%d.txt", "f%d", ".f%d.md", "f %d.md", "\u00fc%d.md",
                           "f" * 252 + "%d.md", "f" * 200 + "%d.md", "-f%d.md")) % j
        name = name[-255:]
        f = {"path": rng.choice(dirs) + "/" + name, "data": common.cli.enc(
            docs.good_document(rng, crlf=.1, bigp=.04, tidy=.35) if rng.random() < .9 else docs.document(rng, bad=1.0))}
        if rng.random() < .5:
            f["mode"] = rng.choice((0o600, 0o640, 0o664, 0o666, 0o755, 0o777, 0o700, 0o602, 0o620, 0o4755, 0o2775, 0o1644,
                                    0o6711))
        if rng.random() < .15:
            f["gid"] = rng.choice((1000, 50, 1001))
        if rng.random() < (.4 if uid == 0 else .08):
            f["uid"] = rng.choice((0, 1001))
            f["mode"] = rng.choice((0o666, 0o646, 0o662 | 0o004))
        files.append(f)
        named.append(f["path"])
    args = []
    for p in named:
        r = rng.random()
        if r < .05:
            args.append(common.rel(common.chain(rng, files, p)))
        elif r < .15:
            ln = rng.choice(("/work/ln", "/work/d/ln")) + f"{len(files)}.md"
            files.append({"path": ln, "kind": "l", "target": rng.choice((p, "../work/" + common.rel(p)
                                                                         if ln.startswith("/work/ln") else p))})
            args.append(common.rel(ln))
        elif r < .3:
            hl = rng.choice(dirs) + f"/hl{len(files)}{rng.choice(('.md', ''))}"
            files.append({"path": hl, "kind": "h", "target": p})
            args.append(common.rel(rng.choice((p, hl))))
        else:
            args.append(common.rel(p))
    args = ["./" + a if a.startswith("-") else a for a in args]
    if rng.random() < .2:
        args = [rng.choice(("d", ".")) if any(f["path"].startswith("/work/d/") for f in files) else "."]
    for k in range(rng.choice((0, 1, 2))):
        r = rng.random()
        path = rng.choice(dirs) + f"/by{k}{rng.choice(('.md', '.txt', '.tmp', '~'))}"
        if r < .6 and args not in (["."], ["d"]):
            files.append({"path": path, "data": "*  keep\n", "mode": rng.choice((0o644, 0o400, 0o000))})
        elif r < .8:
            files.append({"path": path, "kind": "p"})
        else:
            files.append({"path": path, "kind": "l", "target": "nowhere"})
    if rng.random() < .15:
        # files that happen to be named like renders, or like other by-products
        for p in named:
            stem = p[:-3] if p.endswith(".md") else p
            path = rng.choice((stem + ".1.md", stem + ".2.md", stem + ".1", p + ".bak", p + "~", p + ".orig", p + ".tmp",
                               p.rsplit("/", 1)[0] + "/." + p.rsplit("/", 1)[1] + ".swp"))
            if len(path.rsplit("/", 1)[1].encode()) < 255 and not any(f["path"] == path for f in files):
                files.append({"path": path, "data": "*  mine\n", "mode": rng.choice((0o644, 0o600))})
    cmd = {"paths": args, "width": common.width_of(rng), "opts":
           (["-v"] * rng.choice((1, 2, 3)) if rng.random() < .05 else common.verbosity(rng)) +
           ["--write-renders"] * (rng.random() < .2), "first": True}
    sc = {"fs": {"files": files, "listing": rng.randrange(-1, 4), "dirmodes": []}, "mseed": rng.getrandbits(30),
          "proc": {"cmd": cmd, "uid": uid, "gid": uid, "faults": [],
                   "umask": rng.choice((0o022, 0o022, 0o077, 0o002, 0o000, 0o027))}}
    if args not in (["."], ["d"]):
        r = rng.random()
        if r < .12:
            files.append({"path": "/work/o", "kind": "d", "mode": rng.choice((0o755, 0o700, 0o777))})
            cmd["outdir"] = "o"
            if rng.random() < .4:
                files.append({"path": "/work/o/" + args[0].rsplit("/", 1)[-1], "data": "earlier\n",
                              "mode": rng.choice((0o600, 0o664, 0o755))})
        elif r < .24:
            cmd["outfiles"] = [f"out{j}.md" for j in range(len(args))]
            if rng.random() < .5:
                kw = {"mode": rng.choice((0o600, 0o664, 0o755))}
                if rng.random() < .4:
                    files.append({"path": "/work/real-out.md", "data": "earlier\n", **kw})
                    if rng.random() < .5:
                        files.append({"path": "/work/out0.md", "kind": rng.choice("lh"), "target": "/work/real-out.md"})
                    else:
                        cmd["outfiles"][0] = common.rel(common.chain(rng, files, "/work/real-out.md"))
                else:
                    files.append({"path": "/work/out0.md", "data": "earlier\n", **kw})
    if uid and rng.random() < .15:
        d = rng.choice([d for d in dirs[1:] if any(f["path"].startswith(d + "/") for f in files)] or ["/work"])
        if d != "/work":
            sc["fs"]["dirmodes"].append({"path": d, "mode": 0o555})
    r = rng.random()
    if r < .06:
        sc["fs"]["capacity"] = rng.choice((0, 0, 10, 200))
    elif r < .45:
        res = Exec(sc).one(sc["proc"])
        sc["proc"]["faults"] = [f for f in (common.soft_fault(rng, res) for _ in range(rng.choice((1, 1, 2)))) if f]
    return sc


def execute(sc):
    x = Exec(sc)
    run, proc, cmd, fs = x.run, sc["proc"], sc["proc"]["cmd"], x.fs
    width = common.eff(cmd.get("width", 88))
    if any(common.node_of(fs, p) is None for p in cmd.get("paths", [])) or not cmd.get("paths"):
        return x.finish(nontrivial=False)
    targets = common.targets(fs, cmd)
    if cmd.get("outdir") and common.node_of(fs, cmd["outdir"]) is None:
        return x.finish(nontrivial=False)
    want = {ino: docs.expected(bytes(fs.inodes[ino].data), width) for _, ino in targets if fs.inodes[ino].kind == "f"}
    redirected = bool(cmd.get("outdir") or cmd.get("outfiles"))
    dests = []
    if cmd.get("outdir"):
        dests = [cmd["outdir"] + "/" + p.rsplit("/", 1)[-1] for p, _ in targets]
    elif cmd.get("outfiles"):
        dests = list(cmd["outfiles"])
    before = fs.snapshot("/")
    allowed = set()                                    # names whose contents may change
    for d in dests:
        node = common.node_of(fs, d)
        if node is None:
            try:
                parent, name, _ = fs.walk(d, fs.walk("/work", fs.root, common.ROOTCRED), common.ROOTCRED, True, True)
            except OSError:
                continue
            allowed |= {p + "/" + name for p, v in before.items() if v[5] == parent.ino and v[0] == "d"}
        else:
            allowed |= common.paths_of(fs, {node.ino}, "/")
    if "--write-renders" in cmd.get("opts", []):
        for d, (_, ino) in zip(dests if redirected else [p for p, _ in targets], targets):
            if want.get(ino, ("ok",))[1:2] != ("ReformatInconsistentException",):
                continue
            for k in ".1", ".2":
                name = d[:-3] + k + ".md" if d.endswith(".md") else d + k
                try:
                    parent, name, _ = fs.walk(name, fs.walk("/work", fs.root, common.ROOTCRED), common.ROOTCRED, True,
                                              True)
                except OSError:
                    continue
                allowed |= {p + "/" + name for p, v in before.items() if v[5] == parent.ino and v[0] == "d"}
    if not redirected:
        allowed |= common.paths_of(fs, {ino for ino, e in want.items()
                                        if e[0] == "ok" and e[1] != bytes(fs.inodes[ino].data)}, "/")
    r = x.one(proc)
    after = fs.snapshot("/")
    calm = not r.fired and not r.mon_fired and sc["fs"].get("capacity") is None
    # Ctrl-C during the call that changes the disk is to be cleaned up after; elsewhere it may come at the one instant
    # (between creating a file and getting ready to remove it) for which nothing can be promised
    unlink_failed = any(n == "unlink" or k.startswith("sigint") and (n not in DURING or len(r.fired) > 1)
                        or k == "memerr" for n, _, k in r.fired) or r.mon_fired
    sticky = any(f.get("sticky") for f in proc.get("faults", []))
    if r.hung:
        run.problem("no-end", "the run did not end within the step budget")
    for p in sorted(set(before) | set(after)):
        b, a = before.get(p), after.get(p)
        if b is None:
            if p in allowed:
                if a[0] != "f":
                    run.problem("kind", f"{p} became a {a[0]}")
                elif a[1] != 0o666 & ~proc.get("umask", 0o022) and r.code == 0:
                    run.problem("mode-new", f"the new file {p} has mode {a[1]:o} under umask {proc.get('umask', 18):o}")
            elif r.killed or unlink_failed and not calm or sticky:
                run.stats["probe:left-behind-after-failed-cleanup"] += 1
            else:
                run.problem("left-behind", f"{p} was left behind (status {r.code} {r.exc})")
            continue
        if a is None:
            run.problem("lost", f"{p} is gone")
            continue
        if b[0] == "d":
            if (a[0], a[1], a[2], a[3]) != (b[0], b[1], b[2], b[3]):
                run.problem("metadata", f"directory {p}: {a[:4]} before {b[:4]}")
        elif p in allowed and b[0] == "f":
            if a[:5] != b[:5]:
                run.problem("metadata", f"{p}: kind, mode, owner, group, links {show(a)}, before {show(b)} "
                                        f"(status {r.code} {r.exc})")
            if b[4] > 1 and a[5] != b[5]:
                run.problem("link-broken", f"{p} no longer is the file its other names stand for")
        elif a != b:
            run.problem("touched", f"{p} was touched although nothing asked for it: {show(b)} {common.short(b[7], 60)} -> "
                                   f"{show(a)} {common.short(a[7], 60)} (inode {b[5]} -> {a[5]}, time {b[6]} -> {a[6]})")
    if calm and not redirected and all(e[0] == "ok" for e in want.values()):
        usable = all(fs.allowed(fs.inodes[i], (proc.get("uid", 1000), [proc.get("gid", 1000)]), 6)
                     for i in want if i in fs.inodes)
        if usable and r.code != 0 and not sc["fs"].get("dirmodes"):
            run.problem("failed-without-reason", f"status {r.code} ({r.exc}): {r.err[-200:]!r}{r.out[-200:]!r}")
    unusual = any(f.get("kind") in ("l", "h") or "mode" in f or "uid" in f for f in sc["fs"]["files"])
    run.stats["probe:links"] += any(f.get("kind") in ("l", "h") for f in sc["fs"]["files"])
    run.stats["probe:foreign-owner"] += any("uid" in f for f in sc["fs"]["files"])
    run.stats["probe:read-only-directory"] += bool(sc["fs"].get("dirmodes"))
    run.stats["probe:unchanged-document"] += any(e[0] == "ok" and len(common.paths_of(fs, {i})) and
                                                 e[1] == bytes(fs.inodes[i].data) for i, e in want.items() if i in fs.inodes)
    return x.finish(nontrivial=not calm or unusual)


def show(v):
    return f"{v[0]} {v[1]:o} {v[2]}:{v[3]} x{v[4]}"
