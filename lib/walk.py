"""Walks through a parameter space that change one parameter at a time.

Independent random draws almost never repeat part of an earlier case.  A walk does so at every step,
now and then by a change that is all but none, and returns to places it has been: whatever the
code keeps from one call to the next has to depend on everything that matters.
"""


def walk(rng, draws, steps, valid=lambda p: True, near=(), eps=3e-6):
    """Yield `steps` dictionaries; draws: name -> f(rng, current dict or None); near: names of floats."""
    cur = None
    while cur is None or not valid(cur):
        cur = {}
        for k, f in draws.items():
            cur[k] = f(rng, cur)
    seen = [cur]
    yield dict(cur), "start"
    names = list(draws)
    for t in range(1, steps):
        for _ in range(200):
            new = dict(cur)
            x = rng.random()
            if x < .12 and len(seen) > 2:
                new, k = dict(seen[int(rng.integers(len(seen)))]), "back"
            elif x < .3 and near:
                k = str(rng.choice(list(near)))
                new[k] = cur[k] * (1 + eps * (1 if rng.random() < .5 else -1))
            else:
                k = names[t % len(names)] if rng.random() < .7 else str(rng.choice(names))
                new[k] = draws[k](rng, new)
            if new != cur and valid(new):
                break
        else:
            continue
        cur = new
        seen.append(cur)
        yield dict(cur), k


def uniform(a, b):
    return lambda rng, cur: float(rng.uniform(a, b))


def integers(a, b):
    return lambda rng, cur: int(rng.integers(a, b))


def choice(*xs):
    return lambda rng, cur: xs[int(rng.integers(len(xs)))]
