"""Makes part of the formatting pipeline misbehave: wraps the `reformatted` method of formatter classes so that the
text they return is altered by a rule.  Rules are pure functions of the section's input and output, so one buggified
pipeline is one deterministic formatter."""
import sys
import unicodedata

from . import loader


def _append(s, k):
    return s + " " + "xyz"[k % 3]


def _prepend(s, k):
    return "xyz"[k % 3] + s


def _toggle(s, k):
    a, b = (("a", "b"), ("e", "o"), ("t", "T"))[k % 3]
    return s.translate(str.maketrans({a: b, b: a}))


def _case(s, k):
    return s.swapcase()


def _double_space(s, k):
    return s.replace(" ", "  ", 1)


def _newline(s, k):
    return s + "\n" * (1 + k % 2)


def _lead_newline(s, k):
    return "\n" + s


def _dropline(s, k):
    lines = s.split("\n")
    return "\n".join(lines[:-1]) if len(lines) > 1 else s


def _dropword(s, k):
    ws = s.split(" ")
    return " ".join(ws[:-1]) if len(ws) > 2 else s


def _dupline(s, k):
    return s + "\n" + s.split("\n")[-1]


def _reverse(s, k):
    lines = s.split("\n")
    lines[0] = " ".join(reversed(lines[0].split(" ")))
    return "\n".join(lines)


def _flip(s, k):
    return s[1:] if s.startswith("z") else "z" + s


def _trail(s, k):
    return s + " "


def _indent(s, k):
    return " " + s


def _empty(s, k):
    return ""


def _accent(s, k):
    return s.replace("e", "\u00e9").replace("\u00e9\u00e9", "e")


def _raise(s, k):
    mod = sys.modules[loader.PKG + ".exceptions"]
    raise (RuntimeError, mod.MarkdownFormatException, IndexError, ValueError, RecursionError, AttributeError)[k % 6](
        "misbehaving formatter")


def _swap_ends(s, k):
    """Undoes itself."""
    ws = s.split(" ")
    ws[0], ws[-1] = ws[-1], ws[0]
    return " ".join(ws)


def _compose(s, k):
    """Toggles between composed and decomposed characters."""
    d = unicodedata.normalize("NFD", s)
    return d if d != s else unicodedata.normalize("NFC", s)


ALIKE = ((" ", "\u00a0"), ("-", "\u2010"), ("a", "\u0430"), ("o", "\u03bf"), ("e", "\uff45"), (".", "\uff0e"), ("*", "\u2217"),
         ("s", "\u017f"), ("k", "\u212a"), ("i", "\u0131"), ("ss", "\u00df"), ("fi", "\ufb01"))


def _alike(s, k):
    """Toggles one character that looks like another one."""
    for a, b in ALIKE[k:] + ALIKE[:k]:
        if a in s or b in s:
            return s.replace(b, a, 1) if b in s else s.replace(a, b, 1)
    return s


def _invisible(s, k):
    z = ("\u200b", "\u00ad", "\ufeff", "\u2060", "\u200d", "\0")[k % 6]
    return s[:-1] if s.endswith(z) else s + z


def _swapchars(s, k):
    """The same characters in another order, which undoes itself."""
    i = s.find(" ")
    return s[i + 1:i + 2] + s[1:i + 1] + s[:1] + s[i + 2:] if 0 < i < len(s) - 1 else s


ACTS = {f.__name__[1:]: f for f in (_append, _prepend, _toggle, _case, _double_space, _newline, _lead_newline, _dropline,
                                    _dropword, _dupline, _reverse, _flip, _trail, _indent, _empty, _accent, _raise, _swap_ends, _compose, _alike, _invisible,
                                    _swapchars)}


def classes():
    """Names of the formatter classes of the active incarnation of the package."""
    mod = sys.modules[loader.PKG + ".formatters"]
    return sorted(n for n, c in vars(mod).items() if isinstance(c, type) and n.startswith("Markdown")
                  and n != "MarkdownSection" and hasattr(c, "reformatted"))


def apply(rules):
    """Buggify the active incarnation; counts firings in the returned list."""
    fired = []
    mod = sys.modules[loader.PKG + ".formatters"]
    for rule in rules:
        cls = getattr(mod, rule["cls"], None)
        if cls is None:
            continue
        cls.reformatted = _wrap(cls.reformatted, rule, fired)
    return fired


def _wrap(orig, rule, fired):
    act, k, when, deep = ACTS[rule["act"]], rule.get("k", 0), rule.get("when", "always"), rule.get("from", 0)

    def reformatted(self, *a, **kw):
        lines = list(self.lines)
        out = orig(self, *a, **kw)
        tidy = "\n".join(lines) == out
        if when == "tidy" and not tidy or when == "untidy" and tidy:
            return out
        if when == "long" and len(out) < 60 or when == "contains" and rule.get("needle", "z") not in out:
            return out
        if self.line_index < deep:
            return out
        if act is _raise:
            fired.append(rule["cls"])
        new = act(out, k)
        if new != out:
            fired.append(rule["cls"])
        return new
    return reformatted
