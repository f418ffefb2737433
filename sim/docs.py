"""Generates Markdown documents of every kind the tool knows, and predicts what the library makes of them.

Prediction ("what a call returns on its own in a fresh interpreter") runs the library of the tree under test in
a fresh set of modules, so the simulated runs are judged against the tool's own undisturbed behaviour.
"""
import logging
import math
import random

from . import buggify, loader, monitor

WORDS = ("alpha beta gamma delta word text markdown flow crash disk line wrap long longer longest a I to of the and "
         "`code span` *emph* **strong** [link](http://example.com/a/b) ![img](i.png) <b>html</b> caf\u00e9 \u65e5\u672c "
         "na\u00efve 100% x=y foo_bar e.g. ok! [ref] [ref][r1] trailing\\ \\* #tag 1) <http://auto.link>").split(" ")


INLINE = ("`code span`.", "``a ` b``", "`a`.b", "<br>", "<br/>", "x<br />y", "<br>.", "[a link with words](http://example.com/p?q=1)",
          "[link](u \"title\").", "[two words][some ref]", "[r][].", "[^1]", "![an image](i.png)", "[![i](b.svg)](u)",
          "a.", "...", "..", "\\`", "\\", "`", "```", "[", "](", "[x](", "]: ", "|", "a|b", "<", ">", "*", "+", "-", "1.", "1)", "#", "##",
          "===", "---", "~~~", "&nbsp;", "word,", "(x)", "\"q\"", "'", "  ")


_favourites = ()         # what texts about the same thing are full of


def words(rng, lo=1, hi=14):
    out = [rng.choice(WORDS) for _ in range(rng.randint(lo, hi))]
    if _favourites and rng.random() < .6:
        for _ in range(rng.choice((1, 1, 2, 3))):
            out.insert(rng.randint(0, len(out)), rng.choice(_favourites))
    elif rng.random() < .15:
        for _ in range(rng.choice((1, 1, 2, 4))):
            out.insert(rng.randint(0, len(out)), rng.choice(INLINE))
    return " ".join(out)


def paragraph(rng):
    lines = [words(rng, 2, 12) for _ in range(rng.choice((1, 1, 2, 3)))]
    if rng.random() < .12:
        lines[0] += "  "
    if rng.random() < .06:
        lines[-1] += "\\"
    if rng.random() < .08:
        lines = [" " * rng.randint(0, 3) + ln for ln in lines]
    if rng.random() < .1:
        lines = [" ".join(words(rng, 8, 20) for _ in range(3))]
    return lines


def atx(rng):
    k = rng.randint(1, 6)
    s = "#" * k + rng.choice((" ", "  ", "")) + words(rng, 1, 5)
    if rng.random() < .3:
        s += " " + "#" * rng.randint(1, 6)
    return [s]


def setext(rng):
    return [words(rng, 1, 5), rng.choice("=-") * rng.randint(1, 20)]


def thematic(rng):
    return [rng.choice(("---", "***", "___", "* * *", "- - -", "-----------"))]


def bullets(rng, depth=0):
    m = rng.choice("*-+")
    out = []
    for _ in range(rng.randint(1, 4)):
        mk = rng.choice("*-+") if rng.random() < .1 else m
        body = rng.choice((words(rng, 1, 6), words(rng, 10, 22), "", "`a`", "[ ] task", "# H"))
        out.append(f"{mk} {body}")
        if rng.random() < .3:
            out.append("  " + words(rng, 1, 6))
        if depth < 2 and rng.random() < .3:
            sub = rng.choice((bullets, ordered, fenced, quote, table))
            lines = sub(rng, depth + 1) if sub in (bullets, ordered, quote) else sub(rng)
            out.extend("  " + ln for ln in lines)
        if rng.random() < .1:
            out.append("")
    return out


def ordered(rng, depth=0):
    n = rng.choice((1, 1, 0, 3, 9, 99))
    out = []
    for i in range(rng.randint(1, 4)):
        num = n + i if rng.random() < .8 else rng.randint(0, 20)
        mark = f"{num}. "
        out.append(mark + rng.choice((words(rng, 1, 6), words(rng, 10, 22), "x")))
        if depth < 2 and rng.random() < .25:
            sub = rng.choice((bullets, ordered, quote))
            out.extend(" " * len(mark) + ln for ln in sub(rng, depth + 1))
    return out


def quote(rng, depth=0):
    out = []
    pre = rng.choice(("> ", "> ", ">", ">  "))
    inner = rng.choice((paragraph, paragraph, bullets, atx, fenced, quote, table))
    lines = inner(rng, depth + 1) if inner is quote and depth < 2 else (
        paragraph(rng) if inner is quote else inner(rng))
    for ln in lines:
        out.append((pre + ln) if rng.random() < .93 else (ln if ln.strip() else ">"))
    return out


def fenced(rng):
    f = rng.choice(("```", "~~~", "````"))
    lang = rng.choice(("", "python", "sh ", "Python", "PYTHON", "SH", " c++ x", "{.sh}"))
    body = [rng.choice(("x = 1", "  indented", "", "# not a heading", "* not a list", "| not | table |", "\ttab", "```x", "~~~"))
            for _ in range(rng.randint(0, 4))]
    end = f
    r = rng.random()
    if r < .06:
        end = " " * rng.randint(1, 8) + f       # may be indented too far
    elif r < .09:
        end = f + rng.choice(("`", " x", "~"))  # does not close it
    return [f + lang, *body, end]


def indented(rng):
    return ["    " + words(rng, 1, 6) for _ in range(rng.randint(1, 3))]


def linkdef(rng):
    k = rng.choice(("ref", "r1", "a b"))
    if rng.random() < .35:
        # over several lines, or not all there
        q = rng.choice(("''", '""', "()", "'\"", '"('))
        title = q[0] + words(rng, 1, rng.choice((3, 20))) + rng.choice((q[1], q[1], q[1], "", "\\" + q[1], q[1] + " x"))
        parts = [f"[{k}]:", rng.choice(("/url", "<http://e.org/x>", "http://e.org/" + "y" * rng.randint(1, 90))), title]
        del parts[rng.choice((1, 2, 3, 3)):]
        out = parts[0]
        for part in parts[1:]:
            out += rng.choice((" ", "\n", "\n", "  \n  ")) + part
        lines = out.split("\n")
        return lines + rng.choice(([], [], [""], [f"[{k}2]: /u"], ["text"]))
    if rng.random() < .3:
        return [f"[{k}]: /url 'a title'"]
    return [f"[{k}]: <http://e.org/{rng.choice(('', '', 'a/long/way/down/'))}{rng.randint(0, 99)}>"]


def table(rng, bad=False):
    cols = rng.randint(1, 4)

    def cell():
        return " " * rng.randint(0, 2) + rng.choice((words(rng, 1, 2).replace("|", ""), "x", "")) + " "
    rows = ["|" + "|".join(cell() for _ in range(cols)) + "|",
            "|" + "|".join(rng.choice(("---", ":--", "--:", ":-:", "-")) for _ in range(cols)) + "|"]
    for _ in range(rng.randint(0, 3)):
        rows.append("|" + "|".join(cell() for _ in range(cols)) + "|")
    if bad:
        rows.append("|" + "|".join(cell() for _ in range(cols + 1)) + "|")
    return rows


def html(rng):
    return ["<div>", words(rng, 1, 4), "</div>"]


BLOCKS = ((paragraph, 8), (atx, 4), (setext, 2), (thematic, 2), (bullets, 5), (ordered, 3), (quote, 4), (fenced, 3),
          (indented, 1), (linkdef, 1), (table, 3), (html, 1))
_CHOICES = [b for b, w in BLOCKS for _ in range(w)]

BAD = (
    "| a | b |\n|---|---|\n| 1 | 2 | 3 |\n",
    "fine\n\n|x|\n|-|\n|1|2|\n\nmore text\n",
    "* item\n\n  |a|b|\n  |-|-|\n  |1|\n",
    "> |a|b|\n> |-|-|\n> |1|\n",
    # formatting these again gives something else
    "| a\n| a\n",
    "> > q\n===\n\\\n",
    "> a\n===\n  c\n",
    "# h\n\n| one\n| two\n| three\n",
    # the library cannot handle these
    "text\n\n```\n",
    "| a\n",
)


def text(rng, size=None, bad=0.0):
    """One document as text with "\n" line ends."""
    r = rng.random()
    if r < bad:
        t = rng.choice(BAD)
        if rng.random() < .5:
            t = text(rng, 2) + "\n" + t
        return t
    if r > .985:
        return rng.choice(("", "\n", "\n\n\n", "  \n", "x"))
    if r > .965:
        return soup(rng)
    if r > .94 and not size:
        return shuffled(rng, text(rng, rng.choice((1, 2, 3))))
    n = size or rng.choice((1, 1, 2, 2, 3, 4, 6))
    lines = []
    for i in range(n):
        if i:
            lines.extend([""] * rng.choice((1, 1, 1, 1, 2, 3, 0)))
        lines.extend(rng.choice(_CHOICES)(rng))
    if rng.random() < .1:
        lines = [ln + " " * rng.randint(0, 2) for ln in lines]
    t = "\n".join(lines)
    r = rng.random()
    if r < .8:
        t += "\n"
    elif r < .9:
        t += "\n\n"
    return t


TOKENS = ("> ", ">", "* ", "- ", "+ ", "1. ", "2) ", "10. ", "# ", "###### ", "####### ", "    ", "  ", " ", "\t", "|", "---", "===", "```",
          "~~~", "***", "- - -", "[r]:", "|-|", "<div>", "<!--", "-->", "`", "\\", "  \\", ":", "[x] ")


def soup(rng):
    """Lines of anything that may mean something."""
    out = []
    for _ in range(rng.randint(1, 9)):
        r = rng.random()
        if r < .15:
            out.append("")
        elif r < .3 and out:
            out.append(rng.choice(out))
        else:
            ln = "".join(rng.choice(TOKENS) for _ in range(rng.choice((0, 1, 1, 2, 3))))
            out.append(ln + rng.choice(("", words(rng, 1, 3), rng.choice(TOKENS), words(rng, 1, 9))))
    return "\n".join(out) + rng.choice(("\n", "\n", "", "\n\n"))


def shuffled(rng, t):
    """A document somebody is in the middle of editing."""
    lines = t.split("\n")
    for _ in range(rng.choice((1, 1, 2, 3))):
        i, j = rng.randrange(len(lines)), rng.randrange(len(lines))
        r = rng.random()
        if r < .3 and len(lines) > 1:
            del lines[i]
        elif r < .5:
            lines.insert(j, lines[i])
        elif r < .7:
            lines[i], lines[j] = lines[j], lines[i]
        elif r < .85:
            k = rng.randint(0, len(lines[i]))
            lines[i:i + 1] = [lines[i][:k], lines[i][k:]]
        else:
            lines[i] = rng.choice(TOKENS) + lines[i]
    return "\n".join(lines)


def alike(rng, n):
    """Texts that use the same few features in different ways."""
    global _favourites
    kinds = [rng.choice(_CHOICES) for _ in range(rng.choice((1, 1, 2)))]
    _favourites = [rng.choice(INLINE) for _ in range(rng.choice((1, 1, 2, 4)))] if rng.random() < .7 else ()
    try:
        out = []
        for _ in range(n):
            parts = ["\n".join(rng.choice(kinds)(rng)) for _ in range(rng.choice((1, 1, 2, 3)))]
            out.append(rng.choice(("\n\n", "\n\n", "\n")).join(parts) + "\n")
        return out
    finally:
        _favourites = ()


def block(rng):
    """One block of a kind chosen evenly."""
    return "\n".join(rng.choice(BLOCKS)[0](rng)) + "\n"


SWAPS = (("```", "~~~"), ("~~~", "```"), ("* ", "- "), ("- ", "+ "), ("+ ", "* "), ("===", "---"), ("---", "==="), ("# ", "## "),
         ("> ", ">"), (":-", "--"), ("--", ":-"), ("1", "2"), ("9", "10"), ("/url", "/other"), ("'", '"'), ("python", "Python"),
         ("sh", "SH"), ("e.org", "E.org"), ("`", ""), (" ", "  "), ("  ", " "), ("ref", "REF"), (". ", ".  "), ("|", " |"))


def variant(rng, t):
    """A text that is the given one but for something that is easily overlooked: what a cache might take for the same."""
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        lines = t.split("\n")
        full = [k for k, ln in enumerate(lines) if ln.strip()] or [0]
        k = rng.choice((full[0], full[-1], rng.choice(full), rng.choice(full)))
        ln = lines[k]
        r = rng.random()
        if r < .35:
            at = rng.choice([s for s in SWAPS if s[0] in ln] or [("", "x")])
            spots = [j for j in range(len(ln)) if ln.startswith(at[0], j)] or [0]
            j = rng.choice((spots[0], spots[-1], rng.choice(spots)))
            lines[k] = ln[:j] + at[1] + ln[j + len(at[0]):]
        elif r < .75:
            toks = ln.split(" ")
            j = rng.choice((len(toks) - 1, rng.randrange(len(toks))))
            w = toks[j]
            toks[j] = rng.choice((w.swapcase(), w.upper(), w.lower(), w.title(), rng.choice(WORDS), w + "x", w[:-1], w + "`", w + ".",
                                  w[::-1], w[:-1] + ("y" if w[-1:] != "y" else "z"), w + " " + rng.choice(WORDS)))
            lines[k] = " ".join(toks)
        elif r < .83:
            lines[k] = ln.rstrip() if ln.endswith(" ") else ln + rng.choice(("  ", "  ", "\\", " "))
        elif r < .88:
            lines[k] = ln.lstrip() if ln.startswith(" ") else " " * rng.choice((1, 2, 4)) + ln
        elif r < .91:
            del lines[k]
        elif r < .94:
            lines.insert(k, rng.choice((ln, "", words(rng, 1, 4))))
        elif r < .97 and k + 1 < len(lines):
            lines[k:k + 2] = [lines[k] + " " + lines[k + 1]] if rng.random() < .5 else [lines[k + 1], lines[k]]
        else:
            lines[k] = ln.replace(" ", "\n", 1)
        t = "\n".join(lines)
    return t


def big(rng, approx):
    parts = []
    size = 0
    while size < approx:
        p = "\n".join(rng.choice((paragraph, bullets, atx, fenced))(rng)) + "\n"
        parts.append(p)
        size += len(p)
    return "\n".join(parts)


def huge(rng):
    """A document past every buffer size: something to format next to a code block that is cheap to handle."""
    n = int(10 ** rng.uniform(4.2, 6.2))
    if rng.random() < .5:
        body = rng.choice(("x", "word ", "caf\u00e9", "\u65e5")) * (n // 4)
    else:
        body = (rng.choice(("some code", "    deep \u00fc", "|a|b|")) + " " * rng.randint(0, 40) + "x\n") * (n // 40) + "end"
    block = "```\n" + body + "\n```\n"
    small = text(rng, rng.choice((1, 2))).strip("\n") + "\n"
    return small + "\n" + block if rng.random() < .5 else block + "\n" + small


def deep(rng, levels=None):
    """Containers inside containers."""
    n = levels or rng.choice((rng.randint(4, 12), rng.randint(4, 12), rng.randint(10, 30), rng.randint(25, 60)))
    marks = rng.choice(((">",), ("> ",), (">", "> "), ("* ",), ("- ", "* "), ("1. ",), ("> ", "* "), ("> ", "1. ", "- "),
                        (">", "* ", "1) ", "+ ", "> ")))
    seq = [rng.choice(marks) if rng.random() < .3 else marks[i % len(marks)] for i in range(n)]

    def inside(k):
        """What starts a further line at level k."""
        return "".join(m if m[0] == ">" else " " * len(m) for m in seq[:k])
    shape = rng.random()
    out = []
    if shape < .35 or n > 40:
        out.append("".join(seq) + words(rng, 1, 5))
        for _ in range(rng.randint(0, 3)):
            k = rng.randint(0, n)
            out.append(inside(k) + rng.choice((words(rng, 1, 5), "".join(seq[k:]) + words(rng, 1, 3), "")))
    elif shape < .7:
        # one more level on every line, perhaps back again
        levels_ = list(range(1, n + 1))
        if rng.random() < .3 and n < 20:
            levels_ += reversed(levels_[:-1])
        every = rng.choice((1, 1, 2))
        for k in levels_[::every]:
            out.append(inside(k - 1) + seq[k - 1] + words(rng, 1, 2))
    else:
        for _ in range(rng.randint(2, 6)):
            k = rng.randint(1, n)
            out.append(inside(rng.choice((0, k - 1))) + "".join(seq[k - 1:rng.randint(k, n)]) + words(rng, 1, 4))
    if rng.random() < .2:
        out = text(rng, 1).split("\n") + [""] + out
    if rng.random() < .2:
        out += ["", *text(rng, 1).split("\n")]
    return "\n".join(out) + "\n"


def too_deep(rng):
    """Nested beyond what any recursion survives."""
    return rng.choice((">", "> ", "* ", "1. ", "> * ", "- 1. ")) * 800 + words(rng, 1, 3) + "\n"


STRANGE = ("\ufeff", "\x00", "\x0c", "\u2028", "\x85", "\u00a0", "\u200b", "\U0001f600", "e\u0301", "\t", "\u202e", "\x1b[31m",
           "\x1c", "\\", "  \n", "\r", "\n\r", "\x0b", "\ufffd", "\u3000", "w" * 300, "\u00df\u0130", "&amp;", "%s", "{0}", "$HOME",
           "\x1a", "\x1a", "\x04", "\x7f", "\x08", "\ufffe", "\u2029", "\x1d", "\x1e", "\u1680", "\u180e", "\u2060", "\u00ad",
           "\ud7ff", "\U0010ffff", "[/]", "<!-- -->", "\\\n")


def strange(rng, t):
    """The text with characters in it that code tends to forget."""
    for _ in range(rng.choice((1, 1, 2, 4))):
        r = rng.random()
        s = rng.choice(STRANGE) if r < .8 else chr(rng.choice((rng.randrange(0x20), rng.randrange(0x80, 0x100),
                                                               rng.randrange(0x100, 0xd800), rng.randrange(0xe000, 0x30000))))
        i = rng.choice((0, len(t), rng.randint(0, len(t)), rng.randint(0, len(t))))
        t = t[:i] + s + t[i:]
    return t


def document(rng, bad=0.0, crlf=.08, undecodable=0.0, bigp=.03, tidy=.2, deepest=0.0):
    """One document as bytes."""
    if rng.random() < deepest:
        return too_deep(rng).encode("utf-8")
    if rng.random() < undecodable:
        return text(rng).encode("utf-8") + rng.choice((b"\xff\xfe", b"caf\xe9 \n", b"\x80", b"\xe6\x97"))
    if rng.random() < bigp:
        t = huge(rng) if rng.random() < .15 else big(rng, rng.choice((3000, 9000, 20000)))
    else:
        t = deep(rng) if rng.random() < .04 else text(rng, bad=bad)
        if rng.random() < .05:
            t = strange(rng, t)
    if rng.random() < tidy:
        out = expected(t.encode("utf-8"), 88)
        if out[0] == "ok":
            t = out[1].decode("utf-8")
    if rng.random() < crlf:
        t = t.replace("\n", rng.choice(("\r\n", "\r\n", "\r")))
    return t.encode("utf-8")


# ------------------------------------------------------------------------------------------- prediction
_cache = {}
_mods = None
STEP_LIMIT = 6_000_000


def outcome_of(fn, *args, **kw):
    """("ok", text) or ("err", type, message) of one call."""
    try:
        return ("ok", fn(*args, **kw))
    except monitor.StepBudget:
        return ("hang", "", "")
    except Exception as e:      # noqa: BLE001
        return ("err", type(e).__name__, str(e))


def solo(text_, width=88, rules=()):
    """What a call returns when it is the only call ever made in its interpreter (buggified by `rules`)."""
    key = (text_, width, repr(rules) if rules else "")
    if key in _cache:
        return _cache[key]
    prev = loader.ModuleSet({}, {})
    prev.save()
    levels = {n: getattr(logging, n) for n in ("DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL")}
    mon_prev = monitor.current
    root = logging.root
    handlers, level = list(root.handlers), root.level
    try:
        root.handlers[:] = [logging.NullHandler()]
        root.setLevel(logging.WARNING)
        ms = loader.fresh(main=False)
        if rules:
            buggify.apply(rules)
        monitor.enable(monitor.COUNT)
        monitor.current = monitor.State(limit=STEP_LIMIT)
        out = outcome_of(ms.modules[loader.PKG].reformat_markdown_text, text_, width)
    finally:
        monitor.current = mon_prev
        root.handlers[:] = handlers
        root.setLevel(level)
        for n, v in levels.items():
            setattr(logging, n, v)
        prev.activate()
    if len(_cache) > 4000:
        _cache.clear()
    _cache[key] = out
    return out


def expected(data, width=88):
    """What a document (bytes) is to become: ("ok", bytes), ("err", type, message) or ("undecodable",)."""
    if width < 1:
        width = math.inf
    try:
        t = data.decode("utf-8")
    except UnicodeDecodeError:
        return ("undecodable", "", "")
    out = solo(t, width)
    if out[0] == "ok":
        return ("ok", out[1].encode("utf-8"))
    return out


def good_document(rng, **kw):
    """A document the library can format."""
    for _ in range(50):
        d = document(rng, **kw)
        if expected(d)[0] == "ok":
            return d
    return b"# H\n"


if __name__ == "__main__":
    import collections
    import time
    c = collections.Counter()
    t0 = time.time()
    for i in range(2000):
        r = random.Random(i)
        d = document(r, bad=.05, undecodable=.02)
        o = expected(d)
        k = o[0] if o[0] != "err" else o[0] + ":" + o[1]
        if o[0] == "ok":
            k += " same" if o[1] == d else ""
            if expected(o[1]) != o:
                k += " UNSTABLE"
        c[k] += 1
        if o[0] == "err" and c[k] < 3:
            print(k, o[2][:100], repr(d)[:300])
        if "UNSTABLE" in k and c[k] < 5:
            print(k, repr(d)[:300], expected(o[1]))
    print(c, time.time() - t0)
