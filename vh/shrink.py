"""Structural shrinking of JSON cases."""
import copy
import json
import time


def size(case):
    return len(json.dumps(case))


def candidates(value):
    """Simpler variants of a JSON value, big steps first."""
    if isinstance(value, dict):
        # hoist: replace a node by one of the nodes inside of it
        if "t" in value:
            for kid in value.get("kids", []):
                yield copy.deepcopy(kid)
            if "kid" in value:
                yield copy.deepcopy(value["kid"])
        for k in list(value):
            for cand in candidates(value[k]):
                new = dict(value)
                new[k] = cand
                yield new
            if value.get("t") is None:
                new = dict(value)
                del new[k]
                yield new
    elif isinstance(value, list):
        n = len(value)
        step = n
        while step >= 1:
            for i in range(0, n, step):
                yield value[:i] + value[i + step:]
            step //= 2
        for i, item in enumerate(value):
            for cand in candidates(item):
                yield value[:i] + [cand] + value[i + 1:]
    elif isinstance(value, bool):
        if value:
            yield False
    elif isinstance(value, int):
        if value:
            yield 0
            if value // 2:
                yield value // 2
            if value > 0:
                yield value - 1
    elif isinstance(value, str):
        if len(value) > 12:  # (others are mostly names)
            step = len(value)
            while step >= 1:
                for i in range(0, len(value), step):
                    yield value[:i] + value[i + step:]
                step //= 2


def rank(case):
    text = json.dumps(case)
    return (len(text), text)


def shrink(case, fails, seconds):
    """Greedy: take the first simpler variant which still fails."""
    end = time.monotonic() + seconds
    progress = True
    while progress:
        progress = False
        for cand in candidates(case):
            if time.monotonic() > end:
                return case
            if rank(cand) >= rank(case):
                continue
            if fails(cand):
                case = cand
                progress = True
                break
    return case
