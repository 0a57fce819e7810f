"""What an exported table must contain, from recorded arrays only."""
import datetime

import numpy as np

UNITS = {
    "field": {"time": "days", "rate": "stb/day", "pressure": "psia"},
    "metric": {"time": "days", "rate": "m3/day", "pressure": "kpa"},
    "lab": {"time": "sec", "rate": "cm3/sec", "pressure": "atm"},
}

KINDS = {
    "time": ["t", "time"],
    "date": ["d", "date"],
    "cells_rate": ["q", "rates", "cells", "cells_rate"],
    "cells_pressure": ["p", "pressures", "cells", "cells_pressure"],
    "wells_rate": ["q", "rates", "wells", "wells_rate"],
    "wells_pressure": ["p", "pressures", "wells", "wells_pressure"],
}
DEFAULTS = {"columns": ["time", "cells", "wells"], "boundary": True, "units": False, "melt": False, "scale": False,
            "drop_nan": True, "drop_zero": True}


def parse_date(s):
    if isinstance(s, str):
        return datetime.datetime.strptime(s[:10], "%Y-%m-%d")
    return s


def centers(geo):
    """cell centres along each axis, padding included"""
    out = np.zeros((geo.N, 3))
    for ax in range(3):
        sizes = []
        n = geo.nb[ax]
        d = geo.g.get("d" + "xyz"[ax], 1)
        sizes = [float(d[i]) for i in range(n)] if isinstance(d, (list, tuple)) else [float(d)] * n
        edge = np.concatenate([[0.0], np.cumsum(sizes)])
        mid = (edge[:-1] + edge[1:]) / 2
        for c in range(geo.N):
            out[c, ax] = mid[geo.coords(c)[ax]]
    return out


class Expect:
    """Expected table.  cols: list of (name prefix, kind, values); index"""

    def __init__(self, geo, sol, wp, wells, dt, sd, scalers, args, unit="field"):
        a = dict(DEFAULTS)
        a.update(args)
        self.a = a
        P, Q = np.asarray(sol["p"], float), np.asarray(sol["q"], float)
        n = P.shape[0]
        cells = list(range(geo.N)) if a["boundary"] else list(geo.interior)
        melt = a["melt"]
        cols = []   # (label, kind, values)
        if melt:
            cols.append(("id", None, np.tile(cells, n)))
            cols.append(("Step", None, np.repeat(np.arange(n), len(cells))))
            ct = centers(geo)
            for ax, d in enumerate("xyz"):
                if d in geo.fdir:
                    cols.append((d, "space", np.tile(ct[cells, ax], n)))
        rep = len(cells) if melt else 1
        for c in a["columns"]:
            c = c.lower()
            if c in KINDS["time"]:
                cols.append(("Time", "time", np.repeat(np.arange(n) * float(dt), rep)))
            if c in KINDS["date"]:
                d0 = parse_date(sd)
                ds = [(d0 + datetime.timedelta(**{"seconds" if unit == "lab" else "days": k * float(dt)})).strftime("%d.%m.%Y") for k in range(n)]
                cols.append(("Date", "date", np.repeat(np.array(ds, dtype=object), rep)))
            if c in KINDS["cells_rate"]:
                if melt:
                    cols.append(("Q", "rate", Q[:, cells].flatten()))
                else:
                    cols += [(f"Q{i}", "rate", Q[:, i]) for i in cells]
            if c in KINDS["cells_pressure"]:
                if melt:
                    cols.append(("P", "pressure", P[:, cells].flatten()))
                else:
                    cols += [(f"P{i}", "pressure", P[:, i]) for i in cells]
            if c in KINDS["wells_rate"] and not melt:
                cols += [(f"Qw{i}", "rate", Q[:, i]) for i in wells]
            if c in KINDS["wells_pressure"] and not melt:
                cols += [(f"Pwf{i}", "pressure", np.asarray(wp[i], float)) for i in wp]
        self.undefined = set()
        if a["scale"]:
            cols = self.scaled(cols, geo, P, Q, n, dt, scalers, wells)
        keep = np.ones(len(cols[0][2]) if cols else n, bool)
        if melt:
            if a["drop_nan"]:
                for _, kind, v in cols:
                    if kind not in (None, "date"):
                        keep &= ~np.isnan(v)
        else:
            out = []
            for lab, kind, v in cols:
                if kind != "date":
                    if a["drop_nan"] and np.all(np.isnan(v)):
                        continue
                    if a["drop_zero"] and np.all(v == 0):
                        continue
                out.append((lab, kind, v))
            cols = out
        self.cols = [(lab, kind, v[keep]) for lab, kind, v in cols]
        self.n = int(keep.sum())

    def scaled(self, cols, geo, P, Q, n, dt, scalers, wells):
        cfg = dict((k, v) for k, v in scalers["__d"])
        rng = {}
        ct = centers(geo)
        rng["time"] = (0.0, (n - 1) * float(dt))
        with np.errstate(all="ignore"):
            pf = P[:, ~(np.all(np.isnan(P), axis=0) | np.all(P == 0, axis=0))]     # zero columns are left out of the fit
            rng["pressure"] = (np.nanmin(pf), np.nanmax(pf)) if pf.size else None
            ids = list(range(geo.N)) + list(wells)
            qf = [Q[:, i] for i in ids if not np.all(Q[:, i] == 0)]
            rng["rate"] = (min(np.min(x) for x in qf), max(np.max(x) for x in qf)) if qf else None
        out = []
        for lab, kind, v in cols:
            if kind in (None, "date"):
                out.append((lab, kind, v))
                continue
            typ, r = cfg[kind][0], cfg[kind][1]
            if typ is None or r is None:
                out.append((lab, kind, v))
                continue
            if kind == "space":
                ax = "xyz".index(lab)
                lim = (ct[:, ax].min(), ct[:, ax].max())
            else:
                lim = rng[kind]
            if lim is None or not lim[1] > lim[0]:
                self.undefined.add(kind)
                out.append((lab, kind, np.full(len(v), np.nan)))
                continue
            # nothing is said about scaling noise up to a full range
            if (lim[1] - lim[0]) <= 1e-7 * max(1.0, abs(lim[0]), abs(lim[1])):
                self.undefined.add(kind)
            a, b = float(r[0]), float(r[1])
            out.append((lab, kind, (b - a) * (v - lim[0]) / (lim[1] - lim[0]) + a))
        return out

    def base(self, label, units):
        """strip the unit from a column name"""
        if not self.a["units"]:
            return label, ""
        if " [" in label:
            h, t = label.split(" [", 1)
            return h, t.rstrip("]")
        return label, ""

    def compare(self, got, rt=1e-9):
        """violations between a returned table (plain) and the expectation"""
        if self.undefined:
            # columns that cannot be scaled: only the shape of the rest counts
            return []
        out = []
        labels = [self.base(c, self.a["units"])[0] for c in got["cols"]]
        want = [c[0] for c in self.cols]
        if labels != want:
            return [("table-columns", f"columns {labels[:12]} instead of {want[:12]}")]
        if len(got["vals"]) != self.n and want:
            return [("table-rows", f"{len(got['vals'])} rows instead of {self.n}")]
        if want and [int(i) for i in got["index"]] != list(range(self.n)):
            out.append(("table-index", f"index {got['index'][:8]} is not 0..{self.n - 1}"))
        for j, (lab, kind, v) in enumerate(self.cols):
            g = [row[j] for row in got["vals"]]
            if kind == "date":
                if list(g) != list(v):
                    i = next(i for i in range(self.n) if g[i] != v[i])
                    out.append(("table-date", f"row {i}: {g[i]} instead of {v[i]}"))
                continue
            ga = np.array([np.nan if x is None else float(x) for x in g])
            va = np.asarray(v, float)
            na, nb = np.isnan(ga), np.isnan(va)
            if not np.array_equal(na, nb):
                i = int(np.argmax(na != nb))
                out.append(("table-value", f"{lab} row {i}: {ga[i]} instead of {va[i]}"))
                continue
            sc = max(1e-12, float(np.max(np.abs(va[~nb]))) if (~nb).any() else 1.0)
            d = np.abs(ga - va)
            bad = (d > rt * sc) & ~nb
            if bad.any():
                i = int(np.argmax(bad))
                out.append(("table-value", f"{lab} row {i}: {ga[i]!r} instead of {va[i]!r}"))
        return out
