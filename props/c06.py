"""C06: output that would change when formatted again never reaches the user."""
from sim import buggify, cli, docs, loader

from . import common
from .common import Exec

RUNS = {"quick": 12000, "thorough": 150000}
REAL, STUB = common.REAL_CLI, common.STUB_CLI
RULE = ("a random subset of the section formatters is made to misbehave by 0-2 deterministic rules (drifting, flipping, "
        "dropping or adding words, lines, blanks, letter case; always, only on input that is already tidy, only on "
        "untidy input, only late in the document, only in long sections); the text is formatted by a direct call, in "
        "place, through a pipe, to an output file or directory, at random verbosity; whatever is delivered must be reproduced exactly by "
        "one more call of the same misbehaving pipeline, and when nothing is delivered nothing may have been written; "
        "non-trivial: a rule altered some text")
ASSUMES = ["misbehaviour is a function of a section's input; it is injected at the section formatters",
           "--write-renders is exempt: its purpose is to show the differing texts"]

CLASSES = ["MarkdownATXHeading", "MarkdownBlankLine", "MarkdownBlockQuote", "MarkdownBulletList",
           "MarkdownFencedCodeBlock", "MarkdownIndentedCodeBlock", "MarkdownLinkReferenceDefinition",
           "MarkdownOrderedList", "MarkdownParagraph", "MarkdownSetextHeading", "MarkdownTable",
           "MarkdownThematicBreak"]


def prepare(tier):
    global CLASSES
    loader.fresh(main=False)
    found = buggify.classes()
    loader.deactivate()
    CLASSES = found or CLASSES


def gen(rng, i, tier):
    rules = []
    for _ in range(rng.choice((0, 1, 1, 1, 1, 2))):
        cls = "MarkdownParagraph" if rng.random() < .35 else rng.choice(CLASSES)
        rule = {"cls": cls, "act": rng.choice(sorted(buggify.ACTS)), "k": rng.randrange(6),
                "when": rng.choice(("always", "always", "tidy", "untidy", "long", "contains")),
                "needle": rng.choice("aeot")}
        if rng.random() < .25:
            rule["from"] = rng.choice((1, 3, 8, 30, 80))
        rules.append(rule)
    d = docs.document(rng, bad=.02, crlf=.05, bigp=.08, tidy=.3)
    if rng.random() < .08:
        d = (d.decode("utf-8") + rng.choice(("* ", "\n\n* ", "\n\n[l]: /u\n\n\n", "\n\n>\n", "\u00a0\n", "\x0c\n", "1. ", "- \n\n\n", "x  \n",
                                             "|a|\n|-|\n| |", "\n\n#\n", "```\n```\n"))).encode("utf-8")
    sc = {"doc": {"data": cli.enc(d)}, "rules": rules, "width": common.width_of(rng),
          "mode": rng.choice(("call", "call", "inplace", "pipe", "outfile", "outdir")), "mseed": rng.getrandbits(30)}
    if rng.random() < .25:
        sc["opts"] = ["-v"] * rng.choice((1, 2, 3, 3)) if rng.random() < .8 else ["-q"] * rng.choice((1, 2))
    if rng.random() < .1 and sc["mode"] != "call":
        sc["opts"] = sc.get("opts", []) + ["--write-renders"]
    if rng.random() < .1:
        sc["tick"] = rng.choice((1.0, 30.0, 1e5))  # a very slow machine
    if rng.random() < .1:
        sc["before"] = "# earlier\n"
    return sc


def execute(sc):
    data = cli.dec(sc["doc"]["data"])
    width = sc.get("width", 88)
    rules = sc.get("rules", [])
    mode = sc["mode"]
    cmd = {"width": width, "opts": sc.get("opts", [])}
    files = []
    proc = {"cmd": cmd, "buggify": rules}
    if mode in ("inplace", "outfile", "outdir"):
        files.append({"path": "/work/in.md", "data": sc["doc"]["data"]})
        cmd["paths"] = ["in.md"]
        if mode == "outfile":
            cmd["outfiles"] = ["out.md"]
            if "before" in sc:
                files.append({"path": "/work/out.md", "data": sc["before"]})
        elif mode == "outdir":
            files.append({"path": "/work/o", "kind": "d"})
            cmd["outdir"] = "o"
            if "before" in sc:
                files.append({"path": "/work/o/in.md", "data": sc["before"]})
    else:
        proc["stdin"] = {"data": sc["doc"]["data"]}
    x = Exec({"fs": {"files": files}, "mseed": sc.get("mseed", 0), "tick": sc.get("tick", 0.0)})
    run = x.run
    delivered, failed, altered = None, None, False
    if mode == "call":
        e = docs.expected(data, width) if not rules else solo(data, width, rules)
        plain = docs.expected(data, width)
        altered = e != plain
        if e[0] == "ok":
            delivered = e[1]
        failed = e
        x.h.update(repr(e).encode())
    else:
        r = x.one(proc)
        altered = bool(r.buggified)
        after = common.contents(x.fs)
        dest = {"inplace": "/work/in.md", "outfile": "/work/out.md", "outdir": "/work/o/in.md"}.get(mode)
        failed = (r.code, r.exc)
        alone = docs.expected(data, width) if not rules else solo(data, width, rules)
        if r.code == 0 and alone[0] != "ok":
            run.problem("status", f"{mode}: status 0 although the text cannot be formatted ({alone})")
        if r.code == 0:
            delivered = r.out if mode == "pipe" else after.get(dest)
            if mode != "pipe" and delivered is None:
                run.problem("nothing-written", f"status 0 but {dest} does not exist")
        elif "--write-renders" in sc.get("opts", []):
            bad = [p for p in x.before if after.get(p) != x.before[p]]
            if bad:
                run.problem("unstable-written", f"status {r.code}, yet {bad[0]} was written: "
                                                f"{common.short(after.get(bad[0]))}")
        else:
            if after != x.before:
                bad = [p for p in sorted(set(after) | set(x.before)) if after.get(p) != x.before.get(p)]
                run.problem("unstable-written", f"status {r.code}, yet {bad[0]} was written: "
                                                f"{common.short(after.get(bad[0]))}")
            if mode == "pipe" and r.out:
                run.problem("unstable-written", f"status {r.code}, yet standard output got {common.short(r.out)}")
        if mode != "inplace" and "/work/in.md" in x.before and after.get("/work/in.md") != x.before["/work/in.md"]:
            run.problem("input-changed", "the input was changed")
    if delivered is not None and not run.problems:
        again = solo(delivered, width, rules)
        if again != ("ok", delivered):
            run.problem("unstable-delivered", f"{mode}: delivered {common.short(delivered)}; formatting it again gives "
                                              f"{common.short(again)} (rules {rules})")
    run.stats["probe:refused-unstable"] += delivered is None and "ReformatInconsistentException" in repr(failed)
    run.stats["probe:delivered-altered"] += delivered is not None and altered
    run.stats["fault:buggified-formatter"] += altered
    run.stats["mode-" + mode] += 1
    return x.finish(nontrivial=altered)


def solo(data, width, rules):
    try:
        t = data.decode("utf-8")
    except UnicodeDecodeError:
        return ("undecodable", "", "")
    out = docs.solo(t, common.eff(width), rules)
    return ("ok", out[1].encode("utf-8", "surrogatepass")) if out[0] == "ok" else out
