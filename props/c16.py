"""C16: a document's outcome in a batch is its outcome alone."""
import re

from sim import docs

from . import common
from .common import Exec

RUNS = {"quick": 4400, "thorough": 55000}
REAL, STUB = common.REAL_CLI, common.STUB_CLI
RULE = ("batches of 2-6, sometimes up to 110 documents (some under a low limit on open files) (formattable, unformattable, undecodable; repeats, equal and nearly equal contents included; formatters "
        "that misbehave for one document only in some runs) in 2-3 random orders on identical machines, in place, checked "
        "or to an output directory; each document's fate is compared with the tool's result for it alone in a fresh "
        "interpreter; non-trivial: at least two documents")
ASSUMES = ["message: the text on both streams with white space removed holds the file's name"]


def gen(rng, i, tier):
    n = rng.choice((2, 2, 3, 4, 5, 6))
    many = rng.random() < .03
    if many:
        n = rng.choice((12, 20, 40, 110))
        pool_ = [docs.text(rng, 1) for _ in range(3)]
    files = []
    pool = []
    near = not many and rng.random() < .12         # one block, again and again, almost the same
    last = docs.block(rng)
    twins = rng.random() < .2                      # equal names in different directories
    for j in range(n):
        r = rng.random()
        if many:
            d = (rng.choice(pool_) + rng.choice(("", "x", f"{j}", "y\n"))).encode("utf-8")
        elif near:
            d = (last if rng.random() < .5 else docs.variant(rng, last)).encode("utf-8")
            last = d.decode("utf-8")
        elif pool and r < .12:
            d = rng.choice(pool)
        elif pool and r < .33:
            d = alike(rng, rng.choice(pool))
        else:
            d = docs.document(rng, bad=.15 if rng.random() < .5 else 0, crlf=.1, bigp=.04, tidy=.25,
                              undecodable=.06 if rng.random() < .5 else 0, deepest=.01)
        pool.append(d)
        path = f"/work/{rng.choice(('', '', 'd/', 'd/e/'))}doc{j}.md"
        if j and twins and rng.random() < .5:
            path = f"/work/s{j}/" + files[rng.randrange(j)]["path"].rsplit("/", 1)[-1]
        files.append({"path": path, "data": common.cli.enc(d)})
    names = [common.rel(f["path"]) for f in files]
    if rng.random() < .15:
        names.append(rng.choice(names))
    orders = []
    for _ in range(rng.choice((2, 2, 3))):
        o = list(names)
        rng.shuffle(o)
        orders.append(o)
    cmd = {"width": common.width_of(rng), "opts": common.verbosity(rng), "paths": []}
    r = rng.random()
    sc = {"fs": {"files": files}, "mseed": rng.getrandbits(30), "orders": orders, "proc": {"cmd": cmd}}
    if many or rng.random() < .1:
        # few descriptors: none may be kept from one document to the next
        sc["proc"]["nofile"] = rng.choice((8, 12, 16))
    if r < .15:
        cmd["check"] = True
    elif r < .3 and not twins:
        files.append({"path": "/work/o", "kind": "d"})
        cmd["outdir"] = "o"
    return sc


def alike(rng, d):
    """A document that differs from another one in a way that is easily overlooked."""
    if rng.random() < .6 and len(d) < 5000:
        try:
            return docs.variant(rng, d.decode("utf-8")).encode("utf-8")
        except UnicodeError:
            return d + b"x"
    return rng.choice((
        lambda: d.strip(), lambda: b"    " + d, lambda: b"  " + d, lambda: b"\n" + d, lambda: d.rstrip() + b"  \n",
        lambda: d.swapcase(), lambda: b"\t" + d, lambda: b" ".join(d.split()), lambda: d + d,
        lambda: d.replace(b"\n", b"\r\n"), lambda: d[:-1], lambda: d + b"x", lambda: d[::-1].strip() or b"x",
        lambda: b"    " + d.replace(b"\n", b"\n    ").rstrip(b" ")))()


def execute(sc):
    first = run = None
    for order in sc["orders"]:
        x = Exec(sc)
        if first is None:
            first, run = x, x.run
        if any(common.node_of(x.fs, p) is None for p in order) or not order:
            continue
        cmd = dict(sc["proc"]["cmd"], paths=order)
        judge(x, cmd, run, sc)
        if x is not first:
            first.h.update(x.h.digest())
            first.results.extend(x.results)
    if first is None:
        from sim import harness
        return harness.Run()
    return first.finish(nontrivial=len(sc["fs"]["files"]) > 1)


def judge(x, cmd, run, sc):
    width = common.eff(cmd.get("width", 88))
    order = cmd["paths"]
    want = {p: docs.expected(x.before["/work/" + p], width) for p in order}
    r = x.one(dict(sc["proc"], cmd=cmd))
    after = common.contents(x.fs)
    if r.hung:
        run.problem("no-end", "the run did not end")
        return
    bad = [p for p in order if want[p][0] != "ok"]
    place = (lambda p: "/work/o/" + p.rsplit("/", 1)[-1]) if cmd.get("outdir") else (lambda p: "/work/" + p)
    for p, old in x.before.items():
        if (cmd.get("outdir") or cmd.get("check")) and after.get(p) != old:
            run.problem("input-changed", f"{p} changed")
    if cmd.get("check"):
        if bad and r.code == 0:
            run.problem("status", f"--check ends with 0 although {bad[0]} cannot be formatted")
        if not bad:
            would = any(want[p][1] != x.before["/work/" + p] for p in order)
            if r.code != int(would):
                run.problem("status", f"--check of {order} ends with {r.code} ({r.exc}); would change: {would}")
    else:
        reached = True
        for p in order:
            e, old, now = want[p], x.before["/work/" + p], after.get(place(p))
            if cmd.get("outdir"):
                old = None
            if e[0] != "ok":
                if now != old:
                    run.problem("bad-document-changed", f"{p} cannot be formatted but {place(p)} holds "
                                                        f"{common.short(now)}")
                reached = False
            elif now != e[1] and (reached or now != old):
                run.problem("companions-matter", f"in the batch {order} {p} ends up as {common.short(now)}; alone: "
                                                 f"{common.short(e[1])} (status {r.code} {r.exc})")
            run.stats["probe:handled-after-a-bad-one"] += not reached and now == e[1] != old if e[0] == "ok" else 0
        if not bad and r.code != 0:
            run.problem("status", f"status {r.code} ({r.exc}) although every document can be formatted: "
                                  f"{r.err[-200:]!r}")
        if bad and r.code == 0:
            run.problem("status", f"status 0 although {bad[0]} cannot be formatted")
    if bad and r.code != 0:
        said = re.sub(r"\s+", "", (r.out + r.err).decode("utf-8", "replace"))
        if not any(re.sub(r"\s+", "", p) in said for p in bad):
            run.problem("message", f"{bad[0]} cannot be formatted ({want[bad[0]][1]}), but no message names it: "
                                   f"{(r.out + r.err)[-300:]!r}")
    run.stats["probe:batch-with-bad-document"] += bool(bad)
    run.stats["probe:undecodable"] += any(e[0] == "undecodable" for e in want.values())
