"""Minimises a failing scenario: removes list elements, lines of documents, and simplifies numbers and flags, as long
as a violation of the same class remains."""
import copy
import time

TEXT_KEYS = {"data", "text"}
NUM_KEYS = {"nth", "arg", "keep", "entry", "width", "listing", "capacity"}


def _walk(node, path=()):
    yield path, node
    if isinstance(node, dict):
        for k in sorted(node):
            yield from _walk(node[k], path + (k,))
    elif isinstance(node, list):
        for i, v in enumerate(node):
            yield from _walk(v, path + (i,))


def _get(root, path):
    for p in path:
        root = root[p]
    return root


def _with(root, path, value):
    new = copy.deepcopy(root)
    if not path:
        return value
    parent = _get(new, path[:-1])
    parent[path[-1]] = value
    return new


class Shrinker:
    def __init__(self, test, budget_s, frozen=(), max_tries=4000):
        self.test, self.end, self.frozen = test, time.monotonic() + budget_s, set(frozen)
        self.tries = 0
        self.max_tries = max_tries

    def spent(self):
        return time.monotonic() > self.end or self.tries >= self.max_tries

    def ok(self, cand):
        if self.spent():
            return False
        self.tries += 1
        try:
            return bool(self.test(cand))
        except BaseException:   # noqa: BLE001 - a mutilated scenario may not even be one
            return False

    def lists(self, cur):
        changed = True
        while changed and not self.spent():
            changed = False
            paths = [p for p, n in _walk(cur) if isinstance(n, list) and n and not self._frozen(p)]
            paths.sort(key=lambda p: (len(p), -len(_get(cur, p))))
            for p in paths:
                try:
                    lst = _get(cur, p)
                except (KeyError, IndexError, TypeError):
                    continue
                if not isinstance(lst, list) or not lst:
                    continue
                size = len(lst)
                while size >= 1 and not self.spent():
                    i = 0
                    while i < len(lst) and not self.spent():
                        cand = _with(cur, p, lst[:i] + lst[i + size:])
                        if self.ok(cand):
                            cur, lst, changed = cand, lst[:i] + lst[i + size:], True
                        else:
                            i += size
                    size //= 2
        return cur

    def _frozen(self, path):
        return any(k in self.frozen for k in path)

    def texts(self, cur):
        for p, n in list(_walk(cur)):
            if not p or p[-1] not in TEXT_KEYS or not isinstance(n, str) or self._frozen(p):
                continue
            lines = n.splitlines(keepends=True)
            size = max(1, len(lines) // 2)
            while size >= 1 and not self.spent():
                i = 0
                while i < len(lines) and not self.spent():
                    cand_lines = lines[:i] + lines[i + size:]
                    cand = _with(cur, p, "".join(cand_lines))
                    if self.ok(cand):
                        cur, lines = cand, cand_lines
                    else:
                        i += size
                size //= 2
            for i, line in enumerate(list(lines)):
                ws = line.split(" ")
                size = len(ws) // 2
                while size >= 1 and len(ws) > 1 and not self.spent():
                    j = 0
                    while j < len(ws):
                        cand_ws = ws[:j] + ws[j + size:]
                        cand = _with(cur, p, "".join([*lines[:i], " ".join(cand_ws), *lines[i + 1:]]))
                        if self.ok(cand):
                            cur, ws = cand, cand_ws
                            lines[i] = " ".join(ws)
                        else:
                            j += size
                    size //= 2
        return cur

    def scalars(self, cur):
        for p, n in list(_walk(cur)):
            if not p or self._frozen(p) or self.spent():
                continue
            if isinstance(n, bool):
                continue
            if isinstance(n, int) and p[-1] in NUM_KEYS:
                for v in sorted({0, 1, n // 2, n - 1}):
                    if v < n:
                        cand = _with(cur, p, v)
                        if self.ok(cand):
                            cur = cand
                            break
        # optional keys of dicts
        for p, n in list(_walk(cur)):
            if isinstance(n, dict) and not self._frozen(p):
                for k in sorted(n):
                    if k in self.frozen or self.spent():
                        continue
                    try:
                        node = _get(cur, p)
                    except (KeyError, IndexError, TypeError):
                        break
                    if k not in node:
                        continue
                    cand = _with(cur, p, {a: b for a, b in node.items() if a != k})
                    if self.ok(cand):
                        cur = cand
        return cur

    def run(self, cur):
        for _ in range(3):
            before = copy.deepcopy(cur)
            cur = self.lists(cur)
            cur = self.texts(cur)
            cur = self.scalars(cur)
            if cur == before or self.spent():
                break
        return cur
