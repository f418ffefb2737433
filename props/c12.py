"""C12: redirected output leaves the inputs alone and gives each input its own complete result."""
from sim import docs

from . import common
from .common import Exec

RUNS = {"quick": 7000, "thorough": 87500}
REAL, STUB = common.REAL_CLI, common.STUB_CLI
RULE = ("1-4 inputs written to an output directory or to output files: fresh, existing, given twice, spelled "
        "differently, linked to each other or to inputs, equal base names in different directories; half of the runs "
        "are undisturbed, a quarter fail (I/O error, full disk, interrupt), a quarter crash (kill, torn write, power "
        "loss); non-trivial: a fault fired or two destinations or an input and a destination coincide")
ASSUMES = ["destinations are absent or regular files; one with several names is written in place (its links must "
           "survive), so its contents are not judged after a failure", "see C01 for the disk model"]


def gen(rng, i, tier):
    n = rng.choice((1, 2, 2, 3, 4))
    files, paths = [], []
    collide = rng.random() < .3
    odd = rng.random() < .2
    for j in range(n):
        d = docs.document(rng, bad=.1, crlf=.1, bigp=.06, tidy=.3) if rng.random() < .25 else \
            docs.good_document(rng, crlf=.1, bigp=.06, tidy=.3)
        sub = rng.choice(("", "d/", "e/"))
        name = f"{sub}f{rng.randrange(2) if collide else j}.md"
        if odd and rng.random() < .7:
            name = sub + rng.choice(common.ODD_NAMES + ("f{}.txt", "f{}", "f{}.tar.gz", "f{}.")).format(
                rng.randrange(2) if collide else j)
        if any(f["path"] == "/work/" + name for f in files):
            name = f"g{j}/{name.rsplit('/', 1)[-1]}"
        files.append({"path": "/work/" + name, "data": common.cli.enc(d)})
        paths.append(name)
    if rng.random() < .06:
        paths.append(rng.choice(paths))                   # the same input twice
    cmd = {"paths": paths, "width": common.width_of(rng), "opts": common.verbosity(rng),
           "first": rng.random() < .5}
    have = {f["path"] for f in files}

    def add(path, **kw):
        if path not in have:
            have.add(path)
            files.append({"path": path, **kw})
    if rng.random() < .5:
        cmd["outdir"] = rng.choice(("o", "o", "o", "./o", "o/sub/..", "d", "e", "."))
        add("/work/o", kind="d")
        add("/work/o/sub", kind="d")
        for s in "de":
            if cmd["outdir"] == s:
                add("/work/" + s, kind="d")
        if rng.random() < .35:
            base = rng.choice(paths).rsplit("/", 1)[-1]
            r = rng.random()
            if r < .6:
                add("/work/o/" + base, data="earlier result\n")
            elif r < .8:
                add("/work/o/" + base, kind="h", target=rng.choice(sorted(have & {"/work/" + p for p in paths})))
            else:
                add("/work/o/" + base, kind="l", target="../" + rng.choice(paths))
    else:
        add("/work/o", kind="d")
        outs = []
        for j, p in enumerate(paths):
            r = rng.random()
            o = rng.choice((f"o/r{j}.md", f"o/r{j}.md", f"r{j}.md"))
            if r < .2:
                add("/work/" + o, data=f"earlier {j}\n")
            elif r < .25 and outs:
                o = rng.choice((outs[-1], "./" + outs[-1], "o/../" + outs[-1]))
            elif r < .31:
                o = rng.choice((rng.choice(paths), "./" + rng.choice(paths)))
            elif r < .34:
                o = f"o/h{j}.md"
                add("/work/" + o, kind="h", target="/work/" + rng.choice(paths))
            elif r < .36:
                o = common.rel(common.chain(rng, files, "/work/" + rng.choice(paths + ["new.md", "o/new.md", "o/old.md"])))
                have.update(f["path"] for f in files)
                add("/work/o/old.md", data="earlier\n")
            elif r < .38:
                o = f"o/l{j}.md"
                add("/work/" + o, kind="l", target="../" + rng.choice(paths + ["new.md"]))
            outs.append(o)
        cmd["outfiles"] = outs
    sc = {"fs": {"files": files, "listing": rng.randrange(-1, 5)}, "mseed": rng.getrandbits(30),
          "proc": {"cmd": cmd, "faults": []}}
    r = rng.random()
    if r < .5:
        return sc
    res = Exec(sc).one(sc["proc"])
    if r < .75:
        if rng.random() < .2:
            sc["fs"]["capacity"] = rng.choice((0, 5, 50, 500))
        else:
            f = common.soft_fault(rng, res)
            sc["proc"]["faults"] = [f] if f else []
    else:
        f = common.hard_fault(rng, res)
        sc["proc"]["faults"] = [f] if f else []
        if rng.random() < .4:
            sc["power"] = {"keep": rng.randrange(0, 64), "data": [rng.randrange(0, 4) for _ in range(4)]}
    return sc


def execute(sc):
    x = Exec(sc)
    run, proc, cmd = x.run, sc["proc"], sc["proc"]["cmd"]
    fs = x.fs
    paths = cmd.get("paths") or []
    if cmd.get("outdir"):
        dests = [cmd["outdir"] + "/" + p.rsplit("/", 1)[-1] for p in paths]
    else:
        dests = list(cmd.get("outfiles") or [])
    if not paths or len(dests) != len(paths):
        return x.finish(nontrivial=False)
    inos = [common.node_of(fs, p).ino for p in paths]
    wide = common.eff(cmd.get("width", 88))
    data = {ino: bytes(fs.inodes[ino].data) for ino in inos}
    want = {ino: docs.expected(data[ino], wide) for ino in inos}
    # identity of a destination: the file it names now, or the place where it would come to be
    ident = []
    for d in dests:
        node = common.node_of(fs, d)
        if node is not None:
            ident.append(("ino", node.ino))
        else:
            parent, name, child = fs.walk(d, fs.walk("/work", fs.root, common.ROOTCRED), common.ROOTCRED, True, True)
            ident.append(("new", parent.ino, name))
    conflict = None
    for a in range(len(paths)):
        for b in range(len(paths)):
            if inos[a] != inos[b] and ident[a] == ident[b]:
                conflict = f"{paths[a]} and {paths[b]} both go to {dests[a]}"
            if inos[a] != inos[b] and ident[a] == ("ino", inos[b]):
                conflict = f"{paths[a]} goes to {dests[a]}, which is the input {paths[b]}"
    shared = {n for n, v in ((i[1], fs.inodes[i[1]]) for i in ident if i[0] == "ino") if v.nlink > 1}
    own = {inos[a] for a in range(len(paths)) if ident[a] == ("ino", inos[a])}
    input_names = {p: v[5] for p, v in fs.snapshot().items() if v[5] in inos}
    before = dict(x.before)
    prior = [bytes(common.node_of(fs, d).data) if common.node_of(fs, d) is not None else None for d in dests]
    r = x.one(proc)
    if sc.get("power"):
        x.power_loss(sc["power"]["keep"], sc["power"]["data"])
    calm = not proc.get("faults") and "capacity" not in sc["fs"] and not sc.get("power")
    after = common.contents(fs)
    crashed = r.killed or bool(sc.get("power"))
    if r.hung:
        run.problem("no-end", "the run did not end within the step budget")
    # inputs
    for p, ino in sorted(input_names.items()):
        if p not in before:
            continue
        allowed = [before[p]]
        if ino in own and want[ino][0] == "ok" and not conflict:
            allowed.append(want[ino][1])
        if after.get(p) not in allowed and (calm or ino not in own & shared):
            run.problem("input-changed", f"the input {p} holds {common.short(after.get(p))}, before: "
                                         f"{common.short(before[p])}")
    dest_names = set()
    base = fs.walk("/work", fs.root, common.ROOTCRED)
    for a, d in enumerate(dests):
        e = want[inos[a]]
        node = common.node_of(fs, d)
        now = bytes(node.data) if node is not None and node.kind == "f" else None
        if node is not None:
            dest_names |= common.paths_of(fs, {node.ino})
        if conflict:
            continue
        if r.code == 0 and not sc.get("power") and (e[0] != "ok" or now != e[1]):
            run.problem("wrong-destination", f"status 0, but {d} holds {common.short(now)}; the result of {paths[a]} is "
                                             f"{common.short(e)}")
        allowed = [prior[a]] + ([e[1]] if e[0] == "ok" else [])
        if now not in allowed and (calm or ident[a][1] not in shared):
            run.problem("partial-destination", f"{d} holds {common.short(now)}; before {common.short(prior[a])}, "
                                               f"complete result {common.short(e)}")
    if conflict and r.code == 0:
        run.problem("shared-destination", f"status 0 although {conflict}")
    for p in sorted(set(before) | set(after)):
        if p in dest_names or p in input_names or before.get(p) == after.get(p):
            continue
        if p not in before and (crashed or not calm):
            continue
        run.problem("footprint", f"{p}: {common.short(before.get(p))} -> {common.short(after.get(p))}")
    if calm and not conflict and all(e[0] == "ok" for e in want.values()) and r.code != 0:
        run.problem("failed-without-reason", f"status {r.code} ({r.exc}): {r.out[-300:]!r} {r.err[-300:]!r}")
    run.stats["probe:conflicting-destinations"] += conflict is not None
    run.stats["probe:crashed"] += crashed
    del base
    return x.finish(nontrivial=bool(r.fired or r.mon_fired) or conflict is not None or crashed)
