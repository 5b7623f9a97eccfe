"""Minimisation of a failing plan: ddmin over its lists, then property specific simplifications."""
import copy
import time


def ddmin(items, test, stop):
    """Classic ddmin; `test(list)` is True if the failure is still there."""
    n = 2
    while len(items) >= 1 and not stop():
        size = max(1, len(items) // n)
        chunks = [items[i:i + size] for i in range(0, len(items), size)]
        for i in range(len(chunks)):
            rest = [x for j, c in enumerate(chunks) if j != i for x in c]
            if test(rest):
                items, n = rest, max(n - 1, 2)
                break
            if stop():
                return items
        else:
            if size == 1:
                return items
            n = min(n * 2, len(items))
    return items


def minimise(mod, plan, run, oracle, seconds=60, max_runs=600):
    end, runs = time.monotonic() + seconds, [0]

    def stop():
        return time.monotonic() > end or runs[0] >= max_runs

    def fails(candidate):
        runs[0] += 1
        res = run(mod, candidate)
        return res['status'] == 'violation' and res['oracle'] == oracle

    lists = getattr(mod, 'LISTS', ('ops', 'faults'))
    for _ in range(3):
        before = runs[0], str(plan)
        for name in lists:
            if not plan.get(name):
                continue

            def test(sub, name=name):
                return fails({**plan, name: sub})
            plan = {**plan, name: ddmin(list(plan[name]), test, stop)}
        simplify = getattr(mod, 'simplify', None)
        progress = simplify is not None
        while progress and not stop():
            progress = False
            for candidate in simplify(copy.deepcopy(plan)):
                if stop():
                    break
                if candidate != plan and fails(candidate):
                    plan, progress = candidate, True
                    break
        if stop() or str(plan) == before[1]:
            break
    return plan, runs[0]
