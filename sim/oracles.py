"""Oracles over recorded histories (public observables only)."""
import numpy as np

RT = 1e-7


def act(snap):
    return snap["sols"].get(snap["active"]) if snap["active"] else None


def close(a, b, scale=None, rt=RT):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    na, nb = np.isnan(a), np.isnan(b)
    if not np.array_equal(na, nb):
        return False
    ok = ~na
    if not ok.any():
        return True
    with np.errstate(invalid="ignore"):
        s = scale if scale is not None else max(1.0, float(np.max(np.abs(b[ok][np.isfinite(b[ok])]))) if np.isfinite(b[ok]).any() else 1.0)
        return bool(np.all((a[ok] == b[ok]) | (np.abs(a[ok] - b[ok]) <= rt * s)))


def worst(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return f"shape {a.shape} vs {b.shape}"
    d = np.abs(np.nan_to_num(a, nan=1e300) - np.nan_to_num(b, nan=1e300))
    i = np.unravel_index(np.argmax(d), d.shape) if d.size else ()
    return f"at {tuple(int(x) for x in i)}: {a[i]:.10g} vs {b[i]:.10g}" if d.size else ""


def rate_scale(spec_ref, sol):
    """magnitude against which a rate difference is rounding"""
    return spec_ref


class Checker:
    """Compares recorded steps of one model against the reference."""

    def __init__(self, R, rt=1e-6):
        self.R = R
        self.rt = rt
        geo = R.geo
        self.cells = geo.interior
        # conversion of a pressure error into a rate error, per owner cell
        self.tmax = {c: 0.0 for c in geo.interior}
        for c in geo.interior:
            t = R.acc[geo.row[c]]
            for n, ax in geo.neighbours(c):
                t += 2 * geo.face_G(c, n, ax) / (R.mu * R.B)
            self.tmax[c] = t

    def step(self, p_prev, p_new, rates_new, wp_new, wells=True, k=None):
        """Check one recorded step.  Returns list of (class, detail)."""
        R, geo = self.R, self.R.geo
        out = []
        P0 = np.asarray(p_prev)[self.cells]
        P1 = np.asarray(p_new)[self.cells]
        if not np.all(np.isfinite(P1)):
            return [("nonfinite", f"step {k}: recorded pressures are not finite")]
        p, q, bhp, qb, ctrl, cond = R.step(P0 if R.comp else np.zeros(len(P1)))
        ps = max(1.0, float(np.max(np.abs(p))), float(np.max(np.abs(P0))) if R.comp else 1.0)
        tol = self.rt * ps * max(1.0, min(cond, 1e9) * 1e-6)
        d = np.abs(P1 - p)
        if np.max(d) > tol:
            i = int(np.argmax(d))
            out.append(("pressure", f"step {k} cell {self.cells[i]}: recorded {P1[i]:.8f}, reference {p[i]:.8f}"))
        # rates implied by the recorded pressures
        for b, (kind, v, c, T) in R.bounds.items():
            if c is None:
                continue
            rec = float(rates_new[b])
            want = 2 * T * (v - P1[geo.row[c]]) if kind == "p" else v
            if abs(rec - want) > 1e-8 * (2 * T * ps + abs(v)) + 1e-9:
                out.append(("brate", f"step {k} boundary {b}: recorded rate {rec:.8f}, implied {want:.8f}"))
        for c, w in R.wells.items():
            rec = float(rates_new[c])
            J = w["J"]
            qtol = 2 * tol * J + 1e-8 * (J * ps + abs(q[c])) + 1e-9
            if abs(rec - q[c]) > qtol:
                out.append(("wrate", f"step {k} well {c}: recorded rate {rec:.8f}, expected {q[c]:.8f}"))
            if wp_new is not None and c in wp_new:
                if abs(wp_new[c] - bhp[c]) > 2 * tol + 1e-7 * ps:
                    out.append(("wbhp", f"step {k} well {c}: recorded well pressure {wp_new[c]:.8f}, expected {bhp[c]:.8f}"))
        # residual and balance purely from recorded values
        qw = {c: float(rates_new[c]) for c in R.wells}
        qbnd = {b: float(rates_new[b]) for b in R.bounds}
        res, scale = R.residual(P1, P0 if R.comp else P1, qw, qbnd)
        bad = np.abs(res) - (1e-7 * scale + 1e-8)
        if np.max(bad) > 0:
            i = int(np.argmax(bad))
            out.append(("residual", f"step {k} cell {self.cells[i]}: flow equation off by {res[i]:.6g}"))
        # nothing may be produced anywhere else
        known = set(R.wells) | set(R.bounds)
        for c in range(geo.N):
            if c not in known and abs(float(rates_new[c])) > 0:
                out.append(("ghost", f"step {k} cell {c}: rate {rates_new[c]} without well or boundary condition"))
        inflow = float(np.sum(np.asarray(rates_new, float)))
        accum = float(np.sum(R.acc * (P1 - P0))) if R.comp else 0.0
        owned = sum(v[1] for v in R.bounds.values() if v[2] is None and v[0] == "q")
        if abs(inflow - owned - accum) > 1e-7 * float(np.sum(scale)) + 1e-7:
            out.append(("balance", f"step {k}: net inflow {inflow:.8f}, accumulation {accum:.8f}"))
        return out

    def reported(self, err, p_new, rates_new, k=None):
        """the material balance error the library reports for a step that balances"""
        q = np.asarray(rates_new, float)
        big = float(np.max(np.abs(q))) if q.size else 0.0
        net = float(np.sum(q))
        ps = max(1.0, float(np.max(np.abs(np.asarray(p_new)[self.cells]))))
        if any(v[2] is None and v[0] == "q" and v[1] for v in self.R.bounds.values()):
            return []
        if self.R.comp:
            if big == 0 or abs(net) < 1e-3 * big or abs(net) < 1e-7 * ps * (float(np.sum(self.R.acc)) + max(self.tmax.values())):
                return []       # a ratio of rounding errors
            lim = 1e-2
        else:
            lim = 1e-5 * big + 1e-4 + 1e-8 * ps * sum(self.tmax.values())
        if err is None or not abs(err) <= lim:
            return [("mberror", f"step {k}: reported material balance error {err} (limit {lim:.3g}) for a step that balances")]
        return []

    def constraints(self, p_new, rates_new, wp_new, wells_state=None, k=None):
        """well limits from recorded values only (no reference solve)"""
        R, geo = self.R, self.R.geo
        out = []
        for c, w in R.wells.items():
            pc = float(p_new[c])
            q = float(rates_new[c])
            b = float(wp_new[c])
            ps = max(1.0, abs(pc), abs(b))
            eps = 1e-6 * ps
            # deliverability: rate and bhp belong to this cell pressure
            if abs(q + w["J"] * (pc - b)) > w["J"] * eps + 1e-8:
                out.append(("deliverability", f"step {k} well {c}: rate {q:.8f}, bhp {b:.6f}, cell pressure {pc:.6f} do not belong together"))
            lim = w.get("pwf", 0.0)
            if "q" not in w:
                if abs(b - lim) > eps:
                    out.append(("pwf", f"step {k} well {c}: bhp {b:.6f} instead of the set {lim}"))
                continue
            tgt = w["q"]
            at_q = abs(q - tgt) <= 1e-7 * abs(tgt) + 1e-8
            if at_q and b >= lim - eps:
                continue
            at_l = abs(b - lim) <= eps
            if at_l and (q >= tgt - (1e-7 * abs(tgt) + w["J"] * eps)):
                continue
            out.append(("limits", f"step {k} well {c}: rate {q:.8f} (target {tgt}), bhp {b:.6f} (limit {lim})"))
        return out


def history(recs, mid="m"):
    """Recorded history of a model after the last op (active solution)."""
    for r in reversed(recs):
        if "snap" in r and mid in r["snap"] and r["snap"][mid]["active"]:
            return r["snap"][mid]
    return None
