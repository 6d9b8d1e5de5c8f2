"""R17 bounded: Pareto fronts."""
import numpy as np
import pandas as pd

from harness.gen import *  # noqa: F403
from rxn_network.costs.pareto import get_pareto_front, is_pareto_efficient
from vlib import Skip, case, check


def table(rng):
    n, k = rng.choice([0, 1, 2, 5, 12, 30]), rng.randint(1, 4)
    grid = rng.choice([2, 3, 6, None])
    rows = [[float(rng.randint(0, grid)) if grid else rng.uniform(-1, 1) for _ in range(k)] for _ in range(n)]
    if n and rng.random() < 0.3:
        rows[rng.randrange(n)] = list(rng.choice(rows))
    if grid and rng.random() < 0.3:
        rows = [[int(v) for v in r] for r in rows]
    return rows, k


def dominates(a, b):
    return all(x <= y for x, y in zip(a, b)) and any(x < y for x, y in zip(a, b))


def oracle(rows, idx):
    front = [rows[i] for i in idx]
    check(len({tuple(r) for r in front}) == len(front), "a point is reported twice")
    for r in front:
        check(not any(dominates(q, r) for q in rows), "%s is dominated", r)
    for i, r in enumerate(rows):
        if i not in idx:
            check(any(q == r or dominates(q, r) for q in front), "%s is missing", r)


@case("mask", 400, bound="<=30 points, 1-4 metrics, duplicates and ties")
def mask(rng):
    rows, k = table(rng)
    a = np.array(rows).reshape(len(rows), k)
    b = a.copy()
    m = is_pareto_efficient(a, return_mask=True)
    ix = is_pareto_efficient(a, return_mask=False)
    check(np.array_equal(a, b), "the points changed")
    check(m.shape == (len(rows),) and m.dtype == bool, "mask %s", m)
    check(sorted(ix.tolist()) == np.flatnonzero(m).tolist(), "mask and index forms differ: %s %s", m, ix)
    oracle(rows, set(np.flatnonzero(m).tolist()))
    return f"{rows}"


@case("frame", 200, bound="tables of <=30 rows with arbitrary index and extra columns")
def frame(rng):
    rows, k = table(rng)
    cols = ["energy", "primary_competition", "secondary_competition", "cost"][:k]
    df = pd.DataFrame(np.array(rows).reshape(len(rows), k), columns=cols)
    df["other"] = [rng.random() for _ in rows]
    df["num"] = list(range(len(rows)))
    if rng.random() < 0.5 and len(df):
        df = df.sample(frac=1.0, random_state=rng.randrange(1000))
    if rng.random() < 0.2:
        df = df.astype({c: object for c in ["other"]})
    use = rng.sample(cols, rng.randint(1, k))
    before = df.copy(deep=True)
    if k >= 3 and rng.random() < 0.3:
        use = cols[:3]
        out = get_pareto_front(df)
    else:
        out = get_pareto_front(df, metrics=tuple(use))
    pd.testing.assert_frame_equal(df, before)
    check(list(out.columns) == list(df.columns), "columns %s", list(out.columns))
    pts = df[use].to_numpy().tolist()
    pos = {n: i for i, n in enumerate(df["num"].tolist())}
    oracle(pts, {pos[n] for n in out["num"].tolist()})
    check([pos[n] for n in out["num"]] == sorted(pos[n] for n in out["num"]), "rows reordered")
    pd.testing.assert_frame_equal(out, df[df["num"].isin(out["num"])])
    return f"{pts} {use}"
