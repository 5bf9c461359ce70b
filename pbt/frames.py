"""Comparison of simulated data frames."""
import numpy as np

from pbt.common import check, fail


def rows(df):
    d = df.reset_index()
    order = np.lexsort((d["Period"].to_numpy().astype(float), d["Identifier"].to_numpy().astype(float)))
    return d.iloc[order].reset_index(drop=True)


def same(got, want, what, rtol=1e-12, columns=None, atol=0.0):
    """Rows agree exactly in keys; columns agree within rtol (whole numbers exactly)."""
    a, b = rows(got), rows(want)
    if columns is None:
        check(list(a.columns) == list(b.columns), f"{what}: columns differ", got=list(a.columns), expected=list(b.columns))
        columns = list(a.columns)
    check(len(a) == len(b), f"{what}: {len(a)} rows, expected {len(b)}")
    for c in ["Identifier", "Period"] + [c for c in columns if c not in ("Identifier", "Period")]:
        x, y = a[c].to_numpy().astype(float), b[c].to_numpy().astype(float)
        with np.errstate(invalid="ignore"):
            ok = (x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= rtol * np.abs(y) + atol)
        if not ok.all():
            i = int(np.flatnonzero(~ok)[0])
            fail(f"{what}: column {c} is {x[i]!r}, expected {y[i]!r} (agent {a['Identifier'][i]}, period {a['Period'][i]}; {int((~ok).sum())} of {len(ok)} rows differ)")
    return len(a) * len(columns)
