"""Simulated data as arrays, in agent-period order."""
import numpy as np

from pbt.common import check, fail
from pbt.ref import equivalence

ALT = ("N", "P", "F")


class Panel:
    def __init__(self, df, ref):
        d = df.reset_index()
        for c in ("Identifier", "Period", "Education_Level", "Lagged_Choice", "Experience_Stock", "Type", "Age_Youngest_Child",
                  "Partner_Indicator", "Choice", "Experience_Part_Time", "Experience_Full_Time"):
            check(c in d.columns, f"column {c} is missing from the simulated data")
        order = np.lexsort((d["Period"].to_numpy().astype(float), d["Identifier"].to_numpy().astype(float)))
        d = d.iloc[order]
        self.df, self.ref = d, ref
        whole = lambda c: d[c].to_numpy().astype(float).astype(int)  # noqa: E731
        self.id, self.t = whole("Identifier"), whole("Period")
        self.educ, self.lag, self.type = whole("Education_Level"), whole("Lagged_Choice"), whole("Type")
        self.age, self.partner = whole("Age_Youngest_Child"), whole("Partner_Indicator")
        self.choice = whole("Choice")
        self.pt, self.ft = whole("Experience_Part_Time"), whole("Experience_Full_Time")
        self.stock = d["Experience_Stock"].to_numpy().astype(float)
        self.wage_obs = d["Wage_Observed"].to_numpy().astype(float)
        self.n = len(d)
        # consecutive rows of the same agent
        a = np.arange(self.n - 1)
        same = (self.id[1:] == self.id[:-1]) & (self.t[1:] == self.t[:-1] + 1)
        self.now, self.nxt = a[same], a[same] + 1
        first = np.ones(self.n, bool)
        first[1:] = self.id[1:] != self.id[:-1]
        self.first = np.flatnonzero(first)
        self.inc = ref.increment(self.educ, self.age)
        self.years = self.stock * ref.max_years(self.t, self.inc)
        self.male = ref.male_wage(self.t, self.educ, self.partner)
        self.equiv = equivalence(self.age, self.partner)
        self.factor = ref.factor(self.educ, self.type, self.age)
        self.lw = ref.log_wage(self.educ, self.years)

    def col(self, name):
        if name not in self.df.columns:
            fail(f"column {name} is missing from the simulated data")
        return self.df[name].to_numpy().astype(float)

    def cols(self, name):
        return np.stack([self.col(f"{name}_{a}") for a in ALT], axis=-1)

    def row(self, i):
        return f"agent {self.id[i]}, period {self.t[i]}, education {self.educ[i]}, type {self.type[i]}, previous choice {self.lag[i]}, " \
               f"child {self.age[i]}, partner {self.partner[i]}, stock {self.stock[i]!r}, choice {self.choice[i]}"

    def wages(self):
        """Hourly wage of every person-period: observed, or recovered from the full-time utility.

        NaN where the full-time budget is at the consumption floor.
        """
        if hasattr(self, "_wages"):
            return self._wages
        ref = self.ref
        w = np.where(self.choice > 0, self.wage_obs, np.nan)
        need = np.flatnonzero(self.choice == 0)
        if len(need):
            u = self.col("Flow_Utility_F")[need]
            with np.errstate(all="ignore"):
                r = self.equiv[need] * (u * ref.mu / self.factor[need, 2]) ** (1 / ref.mu)
            zero = ref.work_resources(2, np.zeros(len(need)), self.male[need], self.partner[need], self.age[need])
            target = r - zero  # net income gained by working full-time
            ok = np.isfinite(r) & (r > 1e-6)
            base = ref.net(0.0, self.male[need])
            lo, hi = np.zeros(len(need)), np.full(len(need), 1.0)
            gain = lambda f: ref.net(f, self.male[need]) - base  # noqa: E731
            for _ in range(60):
                short = ok & (gain(hi) < target)
                if not short.any():
                    break
                hi = np.where(short, 2 * hi, hi)
            for _ in range(120):
                mid = (lo + hi) / 2
                low = gain(mid) < target
                lo, hi = np.where(low, mid, lo), np.where(low, hi, mid)
            w[need] = np.where(ok, (lo + hi) / 2 / 38.0, np.nan)
        self._wages = w
        return w

    def shocks(self):
        """Wage draws (log) of every person-period, NaN where unknown."""
        with np.errstate(all="ignore"):
            return np.log(self.wages()) - np.log(self.ref.scale) - self.lw
