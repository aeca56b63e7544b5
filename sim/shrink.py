"""Minimise a failing scenario: drop steps, faults and switches, shrink arguments, while the same
class of violation persists.  Works on the JSON of the scenario, so the result is a replay file."""
import copy
import time


def _paths(x, path=()):
    yield path, x
    if isinstance(x, dict):
        for k in x:
            yield from _paths(x[k], path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from _paths(v, path + (i,))


def _get(x, path):
    for p in path:
        x = x[p]
    return x


def _set(x, path, v):
    if not path:
        return v
    x = copy.deepcopy(x)
    y = x
    for p in path[:-1]:
        y = y[p]
    y[path[-1]] = v
    return x


def _exists(x, path):
    try:
        _get(x, path)
        return True
    except (KeyError, IndexError, TypeError):
        return False


def size(x):
    if isinstance(x, dict):
        return 1 + sum(size(v) for v in x.values())
    if isinstance(x, list):
        return 1 + sum(size(v) for v in x)
    if isinstance(x, bool) or x is None:
        return 0 if not x else 1
    if isinstance(x, (int, float)):
        return min(abs(x), 1000) / 1000 + 1
    if isinstance(x, str):
        return 1 + len(x) / 100
    return 1


def minimise(scenario, fails, budget_s=45.0, max_tries=3000, keep=()):
    """fails(candidate) -> True when the same violation class shows up."""
    t0 = time.perf_counter()
    tries = 0
    cur = scenario

    def attempt(cand):
        nonlocal cur, tries
        if tries >= max_tries or time.perf_counter() - t0 > budget_s:
            return False
        tries += 1
        if fails(cand):
            cur = cand
            return True
        return False

    changed = True
    while changed and tries < max_tries and time.perf_counter() - t0 < budget_s:
        changed = False
        # 1. remove list chunks, big lists and outer levels first
        lists = sorted([p for p, v in _paths(cur) if isinstance(v, list) and v and not (p and p[-1] in keep)],
                       key=lambda p: (len(p), -len(_get(cur, p))))
        for p in lists:
            if not _exists(cur, p) or not isinstance(_get(cur, p), list):
                continue
            n = len(_get(cur, p))
            chunk = n
            while chunk >= 1:
                i = 0
                while _exists(cur, p) and isinstance(_get(cur, p), list) and i < len(_get(cur, p)):
                    lst = _get(cur, p)
                    cand = _set(cur, p, lst[:i] + lst[i + chunk:])
                    if attempt(cand):
                        changed = True
                    else:
                        i += chunk
                chunk //= 2
        # 2. replace values by simpler ones
        for p, v in list(_paths(cur)):
            if not p or (p[-1] in keep) or not _exists(cur, p):
                continue
            v = _get(cur, p)
            if isinstance(v, bool):
                if v and attempt(_set(cur, p, False)):
                    changed = True
            elif isinstance(v, int):
                for c in (0, 1, v // 2, v - 1):
                    if 0 <= c < v and attempt(_set(cur, p, c)):
                        changed = True
                        break
            elif isinstance(v, float):
                if v != 0.0 and attempt(_set(cur, p, 0.0)):
                    changed = True
            elif isinstance(v, (dict,)) and v:
                if attempt(_set(cur, p, None)):
                    changed = True
            elif isinstance(v, str) and len(v) > 1:
                if attempt(_set(cur, p, v[:1])):
                    changed = True
    return cur, tries
