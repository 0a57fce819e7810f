"""Independent reference model of the documented physics (dense, no caches).

Written from the documentation and the textbook formulas, not from the
library's assembly code.  One step is the solution of

    sum_n T_n (p_n - p - g dz_n) + sum_b 2 T_b (v_b - p - g dz_b) + sum_b q_b + q_w
        = V phi c / (alpha B dt) (p - p_old)

with each well delivering min(target, what its bottom-hole limit allows).
"""
import numpy as np

# gravity: pressure per unit depth is factor * density
GRAV = {"field": 0.21584e-3 * 32.174, "metric": 0.001 * 9.806635, "lab": 0.986923e-6 * 980.6635}
CONV = {"field": (0.001127, 5.614583), "metric": (0.0864, 1.0), "lab": (1.0, 1.0)}


def dims(g):
    return g.get("nx", 1), g.get("ny", 1), g.get("nz", 1)


class Geo:
    """Numbering and geometry of a padded Cartesian grid."""

    def __init__(self, g):
        self.g = g
        self.n = dims(g)
        self.pad = [1 if k > 1 else 0 for k in self.n]
        self.nb = [k + 2 * p for k, p in zip(self.n, self.pad)]
        self.fdir = "".join(d for d, k in zip("xyz", self.n) if k > 1)
        self.N = int(np.prod(self.nb))
        nbx, nby, nbz = self.nb
        self.cells = []
        self.interior = []
        self.boundary = []
        for k in range(nbz):
            for j in range(nby):
                for i in range(nbx):
                    c = i + nbx * (j + nby * k)
                    out = sum(
                        1
                        for v, p, m in zip((i, j, k), self.pad, self.nb)
                        if p and v in (0, m - 1)
                    )
                    if out == 0:
                        self.interior.append(c)
                    else:
                        self.boundary.append(c)
        self.row = {c: i for i, c in enumerate(self.interior)}

    def coords(self, c):
        nbx, nby, _ = self.nb
        return c % nbx, (c // nbx) % nby, c // (nbx * nby)

    def id(self, i, j, k):
        nbx, nby, _ = self.nb
        return i + nbx * (j + nby * k)

    def size(self, axis, c):
        d = self.g.get("d" + "xyz"[axis], 1)
        if isinstance(d, (list, tuple)):
            return float(d[self.coords(c)[axis]])
        return float(d)

    def prop(self, name, c):
        v = self.g.get(name)
        if isinstance(v, (list, tuple)):
            return float(v[c])
        return float(v)

    def volume(self, c):
        return self.size(0, c) * self.size(1, c) * self.size(2, c)

    def area(self, axis, c):
        a, b = [x for x in (0, 1, 2) if x != axis]
        return self.size(a, c) * self.size(b, c)

    def neighbours(self, c):
        """(neighbour id, axis) of every face in a flow direction"""
        out = []
        co = list(self.coords(c))
        for ax in range(3):
            if not self.pad[ax]:
                continue
            for s in (-1, 1):
                v = co[ax] + s
                if 0 <= v < self.nb[ax]:
                    cc = list(co)
                    cc[ax] = v
                    out.append((self.id(*cc), ax))
        return out

    def face_G(self, c, n, axis):
        """geometric factor between two cells sharing a face normal to axis"""
        nm = "k" + "xyz"[axis]
        r = 0.0
        for x in (c, n):
            r += self.size(axis, x) / (self.area(axis, x) * self.prop(nm, x))
        return 2.0 * CONV[self.g.get('unit', 'field')][0] / r

    def boundary_owner(self, b):
        """interior cell a face-boundary cell touches, or None (edge/corner)"""
        own = [(n, ax) for n, ax in self.neighbours(b) if n in self.row]
        return own[0] if own else None


class RefModel:
    def __init__(self, g, f, m):
        self.geo = Geo(g)
        self.g, self.f, self.m = g, f, m
        self.mu = float(f.get("mu"))
        self.B = float(f.get("B", 1))
        self.dt = float(m.get("dt", 1))
        self.comp = float(f.get("comp", 0) or 0) + float(g.get("comp", 0) or 0)
        geo = self.geo
        alpha = CONV[g.get('unit', 'field')][1]
        n = len(geo.interior)
        self.A0 = np.zeros((n, n))
        self.acc = np.zeros(n)
        self.grav = np.zeros(n)
        self.gam = GRAV[g.get("unit", "field")] * float(f.get("rho") or 0)
        for c in geo.interior:
            r = geo.row[c]
            for nb, ax in geo.neighbours(c):
                if nb in geo.row:
                    T = geo.face_G(c, nb, ax) / (self.mu * self.B)
                    self.A0[r, geo.row[nb]] += T
                    self.A0[r, r] -= T
                    self.grav[r] -= T * self.gam * (self.z(nb) - self.z(c))
            if self.comp:
                self.acc[r] = geo.volume(c) * geo.prop("phi", c) * self.comp / (alpha * self.B * self.dt)
        self.wells = {}
        self.bounds = {}
        self.given = {}

    def z(self, c):
        return self.geo.prop("z", c) if self.g.get("z") is not None else 0.0

    # -- configuration -----------------------------------------------------
    def well_G(self, c, r, s):
        geo = self.geo
        kx = geo.prop("kx", c)
        dx, dy, dz = (geo.size(a, c) for a in range(3))
        if geo.fdir == "x":
            kh = kx
            req = 0.14 * np.sqrt(dx**2 + dy**2)
        else:
            ky = geo.prop("ky", c)
            kh = np.sqrt(kx * ky)
            req = (
                0.28
                * np.sqrt(np.sqrt(ky / kx) * dx**2 + np.sqrt(kx / ky) * dy**2)
                / ((ky / kx) ** 0.25 + (kx / ky) ** 0.25)
            )
        den = np.log(req * 12 / r) + (s or 0.0)
        return 2 * np.pi * CONV['field'][0] * kh * dz / den

    def set_well(self, cell_id, q=None, pwf=None, r=None, s=None, **_):
        w = self.wells.setdefault(cell_id, {})
        for k, v in (("q", q), ("pwf", pwf), ("r", r), ("s", s)):
            if v is not None:
                w[k] = float(v)
        w["J"] = self.well_G(cell_id, w["r"], w.get("s", 0.0)) / (self.mu * self.B)

    def set_bounds(self, items):
        self.bounds, self.given = {}, {}
        for b, cond, v in items:
            self.set_bound(b, cond, v)

    def set_bound(self, b, cond, v):
        cond = cond.lower()
        kind = {"p": "p", "press": "p", "pressure": "p", "q": "q", "rate": "q"}.get(cond, "g")
        self.given[b] = (kind, float(v))
        own = self.geo.boundary_owner(b)
        if own is None:
            self.bounds[b] = (kind, float(v), None, None)
            return
        c, ax = own
        T = self.geo.face_G(c, b, ax) / (self.mu * self.B)
        if kind == "g":
            v = T * self.geo.size(ax, c) * v
            kind = "q"
        if kind == "p":
            v = v - self.gam * (self.z(b) - self.z(c))
        self.bounds[b] = (kind, float(v), c, T)

    # -- one step -----------------------------------------------------------
    def step(self, p_old):
        geo = self.geo
        A = self.A0.copy()
        rhs = -self.acc * p_old - self.grav
        A[np.diag_indices(len(p_old))] -= self.acc
        for b, (kind, v, c, T) in self.bounds.items():
            if c is None:
                continue
            r = geo.row[c]
            if kind == "p":
                A[r, r] -= 2 * T
                rhs[r] -= 2 * T * v
            else:
                rhs[r] -= v
        ctrl = {c: ("q" if "q" in w else "p") for c, w in self.wells.items()}
        for _ in range(3 * len(self.wells) + 5):
            M, d = A.copy(), rhs.copy()
            for c, w in self.wells.items():
                r = geo.row[c]
                if ctrl[c] == "q":
                    d[r] -= w["q"]
                else:
                    lim = w.get("pwf", 0.0)
                    M[r, r] -= w["J"]
                    d[r] -= w["J"] * lim
            p = np.linalg.solve(M, d)
            new = {}
            for c, w in self.wells.items():
                if "q" not in w:
                    new[c] = "p"
                    continue
                bhp = p[geo.row[c]] + w["q"] / w["J"]
                new[c] = "q" if bhp >= w.get("pwf", 0.0) else "p"
            if new == ctrl:
                break
            ctrl = new
        else:
            raise RuntimeError("reference did not settle")
        q, bhp = {}, {}
        for c, w in self.wells.items():
            pc = p[geo.row[c]]
            if ctrl[c] == "q":
                q[c] = w["q"]
                bhp[c] = pc + w["q"] / w["J"]
            else:
                bhp[c] = w.get("pwf", 0.0)
                q[c] = -w["J"] * (pc - bhp[c])
        qb = {}
        for b, (kind, v, c, T) in self.bounds.items():
            if c is None:
                continue
            qb[b] = 2 * T * (v - p[geo.row[c]]) if kind == "p" else v
        cond = np.linalg.cond(M)
        return p, q, bhp, qb, ctrl, cond

    # -- residuals of recorded values ----------------------------------------
    def residual(self, p_new, p_old, q_well, q_bound):
        """flow-equation residual of each interior cell, from recorded values"""
        geo = self.geo
        r = self.A0 @ p_new + self.grav - self.acc * (p_new - p_old)
        scale = np.abs(self.A0) @ np.abs(p_new) + self.acc * (np.abs(p_new) + np.abs(p_old)) + 1e-9
        for c, q in q_well.items():
            r[geo.row[c]] += q
        for b, q in q_bound.items():
            own = geo.boundary_owner(b)
            if own is not None:
                r[geo.row[own[0]]] += q
        return r, scale
