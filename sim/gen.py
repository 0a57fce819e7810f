"""Seeded scenario generation (everything derives from one random.Random)."""
import random

from .ref import Geo, RefModel


# ends of months and years, leap days, and quiet days
DATES = ["2020-03-01", "2020-03-09", "2019-12-27", "2020-02-26", "2023-02-25", "2000-02-28", "1999-12-31", "2021-06-15", "2024-10-31", "1987-01-30"]


def pick(r, *xs):
    return xs[r.randrange(len(xs))]


def rnd(r, a, b, nd=3):
    return round(r.uniform(a, b), nd)


class Spec:
    """A generated model and what is needed to talk about it."""

    def __init__(self):
        self.g = {}
        self.f = {}
        self.m = {}
        self.wells = []
        self.bounds = []
        self.nopi = False       # models without compressibility need no initial pressure

    # -- views ---------------------------------------------------------------
    @property
    def geo(self):
        return Geo(self.g)

    def faces(self):
        ge = self.geo
        return [b for b in ge.boundary if ge.boundary_owner(b) is not None]

    def ref(self):
        R = RefModel(self.g, self.f, self.m)
        for w in self.wells:
            R.set_well(**w)
        R.set_bounds(self.bounds)
        return R

    def ops(self, sfx="", grid=None, fluid=None, compile=True, sparse=True, order=None):
        gid, fid, mid = grid or "g" + sfx, fluid or "f" + sfx, "m" + sfx
        o = []
        if grid is None:
            o.append({"op": "grid", "id": gid, "args": self.g, "snap": False, "must": True})
        if fluid is None:
            o.append({"op": "fluid", "id": fid, "args": self.f, "snap": False, "must": True})
        if order is not None and grid is None and fluid is None and order.random() < 0.4:
            o = self.pieces(order, gid, fid)
        a = {k: v for k, v in self.m.items() if k != "pi" or not self.nopi}
        o.append({"op": "model", "id": mid, "grid": gid, "fluid": fid, "args": a, "snap": False, "must": True})
        c = []
        for w in self.wells:
            c.append({"op": "well", "m": mid, "args": w, "snap": False, "must": True})
        if self.bounds:
            c.append({"op": "bounds", "m": mid, "items": self.bounds, "snap": False, "must": True})
        if compile:
            c.append({"op": "compile", "m": mid, "args": {"sparse": sparse}, "must": True})
            if order is not None:
                # in any order; boundaries also one by one
                if self.bounds and order.random() < 0.4:
                    c = [x for x in c if x["op"] != "bounds"]
                    c += [{"op": "bound", "m": mid, "b": b, "cond": k, "v": v, "snap": False, "must": True} for b, k, v in self.bounds]
                order.shuffle(c)
                for x in c:
                    x.pop("snap", None)
        return o + c

    def pieces(self, r, gid, fid):
        """grid and fluid whose properties are given one after the other, some of them twice"""
        out = []
        for op, pid, args, names in (("grid", gid, self.g, ("kx", "ky", "kz", "phi", "z", "comp")), ("fluid", fid, self.f, ("mu", "B", "rho", "comp"))):
            a, later = dict(args), []
            for n in names:
                v = a.get(n)
                if v is None or r.random() < 0.5:
                    continue
                if isinstance(v, list):
                    k = r.random()
                    if k < 0.4 and n != "comp":
                        # a few cells one by one
                        cells = r.sample(range(len(v)), min(2, len(v)))
                        base = list(v)
                        for c in cells:
                            base[c] = v[c] * 1.7 + 3
                            later.append([{n: v[c], "id": c}])
                        a[n] = base
                        continue
                elif r.random() < 0.5:
                    a[n] = v * 0.5
                    later.append([{n: v}])
                    continue
                if n == "mu":
                    continue
                a.pop(n)
                later.append([{n: v}])
            r.shuffle(later)
            calls = []
            for (x,) in later:
                if calls and "id" not in x and "id" not in calls[-1] and r.random() < 0.4:
                    calls[-1].update(x)
                else:
                    calls.append(x)
            out.append({"op": op, "id": pid, "args": a, "snap": False, "must": True})
            for x in calls:
                if op == "grid":
                    if r.random() < 0.5:
                        out.append({"op": "gq", "g": gid, "name": pick(r, "is_homogeneous", "is_isotropic", "get_cells_G", "get_D"), "a": [], "kw": {}, "snap": False, "may": True})
                    out.append({"op": "props", "g": pid, "args": x, "snap": False, "must": True})
                else:
                    out.append({"op": "fprops", "f": pid, "args": x, "snap": False, "must": True})
        return out


def gen_grid(r, small=False, dims=None, wells=True, unit="field", maxcells=None, wide=False):
    g = {}
    if dims is None:
        dims = pick(r, "x", "x", "x", "xy", "xy", "xyz", "y", "z", "xz", "yz") if not wells else pick(
            r, "x", "x", "x", "xy", "xy", "xyz")
    D = len(dims)
    hi = {1: 6, 2: 4, 3: 3}[D]
    if small:
        hi = {1: 4, 2: 3, 3: 2}[D]
    lo = 2
    if wide:
        lo, hi = {1: (10, 32), 2: (3, 6), 3: (2, 3)}[D] if wide != 2 else {1: (33, 130), 2: (7, 12), 3: (3, 4)}[D]
    while True:
        n = {a: (r.randint(lo, hi) if a in dims else 1) for a in "xyz"}
        cells = n["x"] * n["y"] * n["z"]
        if maxcells is None or cells <= max(maxcells, 2 ** D):
            break
    for a in "xyz":
        g["n" + a] = n[a]
    nb = {a: n[a] + (2 if a in dims else 0) for a in "xyz"}
    N = nb["x"] * nb["y"] * nb["z"]
    base = {"x": rnd(r, 100, 600, 1), "y": rnd(r, 100, 600, 1), "z": rnd(r, 10, 80, 1)}
    irregular = r.random() < 0.35
    for a in "xyz":
        if irregular and a in dims and r.random() < 0.8:
            g["d" + a] = [rnd(r, 0.6 * base[a], 1.5 * base[a], 1) for _ in range(nb[a])]
            if r.random() < 0.25:
                g["d" + a][1:-1] = [base[a]] * (nb[a] - 2)
        else:
            g["d" + a] = base[a]
    hetero = r.random() < 0.45
    aniso = r.random() < 0.5
    k0 = rnd(r, 5, 400, 1)
    for a in "xyz":
        if a in dims:
            ka = k0 if not aniso else rnd(r, 0.2 * k0, 1.5 * k0, 2)
            if hetero and r.random() < 0.8:
                g["k" + a] = [rnd(r, 0.3 * ka, 2.0 * ka, 2) for _ in range(N)]
                if r.random() < 0.25:
                    # uniform inside, different at the boundary
                    inner = set(Geo(g).interior)
                    g["k" + a] = [ka if c in inner else v for c, v in enumerate(g["k" + a])]
            else:
                g["k" + a] = ka
    phi = rnd(r, 0.08, 0.35, 3)
    if hetero and r.random() < 0.5:
        g["phi"] = [rnd(r, 0.6 * phi, 1.4 * phi, 4) for _ in range(N)]
    else:
        g["phi"] = phi
    u = r.random()
    if u < 0.5:
        g["z"] = 0
    elif u < 0.7:
        g["z"] = rnd(r, 1000, 5000, 0)
    else:
        z0 = rnd(r, 1000, 5000, 0)
        how = r.random()
        if how < 0.55:
            g["z"] = [rnd(r, z0 - 60, z0 + 60, 1) for _ in range(N)]
        else:
            ge = Geo(g)
            inner = set(ge.interior)
            if how < 0.7:
                # only a few cells differ
                dev = {c: rnd(r, z0 - 60, z0 + 60, 1) for c in r.sample(range(N), r.randint(1, 2))}
                g["z"] = [dev.get(c, z0) for c in range(N)]
            elif how < 0.8:
                # only boundary cells differ
                g["z"] = [z0 if c in inner else rnd(r, z0 - 60, z0 + 60, 1) for c in range(N)]
            else:
                # layers, or a symmetric dome
                step, mid = rnd(r, -30, 30, 1), pick(r, 0, 0.5)
                g["z"] = [round(z0 + sum(step * abs(v - mid * (n_ - 1)) for v, n_ in zip(ge.coords(c), ge.nb)), 2) for c in range(N)]
    if unit != "field":
        g["unit"] = unit
    if r.random() < 0.2:
        g["unify"] = False
    if r.random() < 0.06:
        g["verbose"] = True
    return g


def gen_spec(r, small=False, dims=None, wells=True, incompressible=None, nwells=None, maxcells=None,
             wellkinds=("q", "p", "qp", "qp", "qp"), pressure_bound=None, synonyms=False, wide=False):
    s = Spec()
    unit = "field"
    if not wells and r.random() < 0.4:
        unit = pick(r, "metric", "lab")
    s.g = gen_grid(r, small, dims, wells, unit, maxcells, wide)
    inc = r.random() < 0.25 if incompressible is None else incompressible
    s.f = {"mu": rnd(r, 0.3, 3.0, 2), "B": rnd(r, 0.9, 1.4, 2), "rho": rnd(r, 40, 60, 1)}
    if unit != "field":
        s.f["unit"] = unit
    if not inc:
        s.f["comp"] = r.randint(1, 60) * 1e-6
        if r.random() < 0.6:
            s.g["comp"] = r.randint(1, 20) * 1e-6
            if r.random() < 0.15:
                # only the rock is compressible
                s.f.pop("comp")
    elif r.random() < 0.2:
        s.nopi = True
    pi = rnd(r, 2000, 7000, 0)
    s.m = {"pi": pi, "dt": pick(r, 1, 1, 2, 5, 10, 15, 30, 0.5, 365) if r.random() < 0.9 else pick(r, 0.1, 0.25, 0.7, 7, 1.5, 90), "start_date": pick(r, *DATES)}
    if unit != "field":
        s.m["unit"] = unit
    ge = s.geo
    faces = s.faces()
    # boundaries
    nbd = 0
    want_p = pressure_bound if pressure_bound is not None else (inc or r.random() < 0.6)
    chosen = []
    if want_p:
        chosen.append([pick(r, *faces), "p"])
    for _ in range(r.randint(0, 3)):
        chosen.append([pick(r, *faces), pick(r, "p", "q", "q", "g") if pressure_bound is not False else pick(r, "q", "q", "g")])
    seen = set()
    Rm = RefModel(s.g, s.f, s.m)
    for b, kd in chosen:
        if b in seen:
            continue
        seen.add(b)
        own, ax = ge.boundary_owner(b)
        T = ge.face_G(own, b, ax) / (Rm.mu * Rm.B)
        if kd == "p":
            s.bounds.append([b, pick(r, "pressure", "p", "press") if synonyms else "pressure", rnd(r, 0.6 * pi, 1.2 * pi, 0) if r.random() > 0.04 else pick(r, 0, 0.0, 14.7)])
        elif kd == "q":
            v = 0 if r.random() < 0.4 else round(T * pi * r.uniform(-0.05, 0.05), 4)
            s.bounds.append([b, pick(r, "rate", "q") if synonyms else "rate", v])
        else:
            v = rnd(r, -0.2, 0.2, 4) if r.random() > 0.1 else 0
            s.bounds.append([b, pick(r, "gradient", "grad", "g") if synonyms else "gradient", v])
    r.shuffle(s.bounds)
    if wells:
        nw = (r.choice([0, 1, 1, 1, 2, 2, 3]) if r.random() < 0.95 else r.randint(4, 7)) if nwells is None else nwells
        cells = r.sample(ge.interior, min(nw, len(ge.interior)))
        for c in cells:
            s.wells.append(gen_well(r, s, c, pick(r, *wellkinds)))
    return s


def gen_well(r, s, c, kind, frac=None):
    pi = s.m["pi"] if s.m.get("pi") else 4000.0
    w = {"cell_id": c, "r": rnd(r, 2.5, 6, 2), "s": pick(r, 0, 0, 1.5, -0.5, 3)}
    R = RefModel(s.g, s.f, s.m)
    R.set_well(c, q=1, r=w["r"], s=w["s"])
    J = R.wells[c]["J"]
    # what the reservoir can feed the cell in a step, roughly
    ge = s.geo
    T = sum(ge.face_G(c, n, ax) for n, ax in ge.neighbours(c) if n in ge.row) / (R.mu * R.B)
    acc = R.acc[ge.row[c]]
    cap = 1.0 / (1.0 / J + 1.0 / (T + acc + 1e-12))
    if kind in ("q", "qp"):
        f = frac if frac is not None else r.choice([0.02, 0.05, 0.1, 0.2, 0.4, 0.7])
        w["q"] = -round(cap * pi * f * r.uniform(0.7, 1.3), 4)
        if kind == "q" and r.random() < 0.2:
            w["q"] = abs(w["q"]) / 2
        elif kind == "qp" and r.random() < 0.08:
            # an injector kept at a minimum pressure
            w["q"] = abs(w["q"]) / 4
            w["pwf"] = rnd(r, 0.5 * pi, 1.3 * pi, 0)
            return w
    if kind == "p":
        w["pwf"] = rnd(r, 0.3 * pi, 0.95 * pi, 0)
    elif kind == "qp":
        w["pwf"] = rnd(r, 0.2 * pi, 0.98 * pi, 0)
    return w


STRATS_FAST = [
    {"vectorize": True, "threading": False},
    {"vectorize": True, "threading": True},
]
STRATS_SYMB = [
    {"vectorize": False, "threading": False},
    {"vectorize": False, "threading": True},
]
ISOLV = [None, None, None, None, "cgs", "cgs", "bicgstab", "gmres", "bicg", "lgmres", "gcrotmk", "qmr", "tfqmr"]


def gen_strategy(r, symb=0.3, iterative=True, threads=True):
    a = {"vectorize": r.random() >= symb, "threading": r.random() < 0.5 if threads else False}
    a["isolver"] = pick(r, *ISOLV) if iterative else None
    return a


def gen_steps(r, mid, total, symb=0.3, iterative=True, threads=True):
    """Split `total` steps into run/solve calls with random strategies."""
    ops = []
    left = total
    while left:
        n = r.randint(1, left)
        a = gen_strategy(r, symb, iterative, threads)
        if r.random() < 0.2:
            a["check_MB"] = False
        if r.random() < 0.4:
            ops.append({"op": "solve", "m": mid, "times": n, "args": a})
        else:
            ops.append({"op": "run", "m": mid, "args": dict(a, nsteps=n)})
        left -= n
    return ops


ALIASES = {"time": ["t"], "date": ["d"], "q": ["rates"], "p": ["pressures"], "rates": ["q"], "pressures": ["p"]}


def gen_df_args(r):
    cols = r.sample(["time", "date", "cells", "wells", "q", "p", "cells_rate", "cells_pressure", "wells_rate",
                     "wells_pressure", "rates", "pressures"], r.randint(1, 3))
    a = {}
    if r.random() < 0.7:
        # overlapping selections repeat columns: keep them disjoint
        opts = [["time", "cells", "wells"], ["time", "date", "cells_pressure"], ["date", "cells"], ["time", "q"],
                ["time", "p"], ["wells"], ["cells_rate", "wells_pressure"], ["time", "wells_rate", "cells_pressure"]]
        a["columns"] = pick(r, *opts)
    else:
        a["columns"] = cols[:1]
    if r.random() < 0.15:
        a["columns"] = [pick(r, *ALIASES.get(c, [c]), c.upper(), c.capitalize()) for c in a["columns"]]
    for k in ("boundary", "units", "melt", "scale", "drop_nan", "drop_zero"):
        if r.random() < 0.4:
            a[k] = r.random() < 0.5
    return a


def gen_query(r, s):
    """One public grid query with hashable arguments."""
    ge = s.geo
    cells = ge.interior + ge.boundary
    c = pick(r, *cells)
    ci = pick(r, *ge.interior)
    cb = pick(r, *s.faces())
    b = r.random() < 0.5
    fs = r.random() < 0.5
    d = pick(r, *ge.fdir)
    fmt = pick(r, "array", "list", "tuple", "set")
    q = [
        ("get_D", [], {}), ("get_shape", [b], {}), ("get_n", [b], {}), ("get_n_max", [b], {}), ("get_fdir", [], {}),
        ("get_fshape", [b, r.random() < 0.5], {}), ("get_order", ["natural", b, fs], {}), ("get_ones", [b, fs, False], {}),
        ("get_zeros", [b, fs, False], {}), ("get_cells_i", [b, fs], {}), ("get_cells_i", [b, False, fmt], {}), ("get_cells_id", [b, fs, "array"], {}),
        ("get_cells_id", [b, False, fmt], {}), ("get_cell_coords", [c, True], {}),
        ("get_cell_neighbors", [ci, None, b, pick(r, "dict", "list", "array", "tuple", "set")], {}),
        ("get_cell_neighbors", [cb, None, False, pick(r, "dict", "list")], {}),
        ("get_cell_boundaries", [ci], {"fmt": pick(r, "list", "array", "tuple", "set")}),
        ("get_boundaries", ["id", fmt], {}), ("get_boundaries", ["coords", pick(r, "list", "tuple", "set")], {}),
        ("get_cells_d", [d, b, fs], {}), ("get_cell_d", [d, c, None], {}), ("get_cell_id", [], {"coords": list(ge.coords(c))}),
        ("get_cell_icoords", [list(ge.coords(c))], {}), ("get_cells_icoords", [b, False, None], {}),
        ("get_boundaries", ["id", fmt], {}), ("get_cells_A", [d, b, fs], {}),
        ("get_cell_A", [d, c, None], {}), ("get_cells_V", [b, fs], {}), ("get_cell_V", [c, None], {}),
        ("get_Vt", [b], {}), ("get_cells_center", [b, False, False], {}), ("get_cell_center", [c, None], {}), ("get_prop", ["z", b, fs], {}), ("get_prop", ["k" + d, b, fs], {}),
        ("get_corners", [b], {}), ("get_cell_neighbors", [], {"id": ci, "boundary": b, "fmt": pick(r, "array", "list")}),
        ("get_cell_boundaries", [], {"id": ci, "fmt": pick(r, "array", "dict")}),
        ("get_cells_k", [d, b, fs], {}), ("get_cell_k", [d, c, None], {}), ("get_prop", ["phi", b, fs], {}),
        ("get_cells_G", [False, False], {}), ("get_cells_G", [False, True], {}),
        ("get_cells_G_diag_1", [b], {}), ("get_cell_G", [cb, None, False], {}), ("get_cell_G", [ci, None, True], {}), ("get_cell_G", [ci, None, b], {}),
        ("is_homogeneous", [], {}), ("is_heterogeneous", [], {}), ("is_isotropic", [], {}), ("is_anisotropic", [], {}),
        ("is_regular", [], {}), ("is_irregular", [], {}), ("get_cells_coords", [b, False, pick(r, "array", "list", "tuple", "set")], {}),
        ("get_cells_dy", [b, fs], {}), ("get_cells_dz", [b, fs], {}), ("get_cells_Ay", [b, fs], {}), ("get_cells_Az", [b, fs], {}),
        ("get_cell_dx", [c], {}), ("get_cell_dy", [c], {}), ("get_cell_dz", [c], {}), ("get_cell_Ax", [c], {}), ("get_cell_Ay", [c], {}), ("get_cell_Az", [c], {}),
        ("get_cell_neighbors", [], {"coords": list(ge.coords(ci)), "boundary": b, "fmt": pick(r, "dict", "list", "set")}),
        ("get_cell_boundaries", [], {"coords": list(ge.coords(ci)), "fmt": pick(r, "list", "tuple")}),
        ("get_cell_center", [], {"coords": list(ge.coords(c))}), ("get_cell_V", [], {"coords": list(ge.coords(c))}),
        ("get_cell_d", [d], {"coords": list(ge.coords(c))}), ("get_cell_A", [d], {"coords": list(ge.coords(c))}),
        ("get_cell_k", [d], {"coords": list(ge.coords(c))}), ("get_cell_G", [], {"coords": list(ge.coords(ci)), "boundary": b}),
        ("get_cells_G_diag_2", [b], {}), ("get_cells_G_diag_3", [b], {}),
        ("get_cells_dx", [b, fs], {}), ("get_cells_Ax", [b, fs], {}), ("get_cell_kx" if "x" in ge.fdir else "get_cell_k", [c] if "x" in ge.fdir else [d, c], {}),
    ]
    q += [("get_cell_k" + x, [c], {}) for x in ge.fdir if x in "yz"]
    q += [("get_pyvista_grid", [b], {}), ("remove_boundaries", ["$array"], {"points": False, "remove": pick(r, "both", "left", "right")}),
          ("remove_boundaries", ["$points"], {}), ("extract_boundaries", ["$array"], {"points": False, "fmt": fmt}), ("extract_boundaries", ["$points"], {"fmt": pick(r, "array", "tuple", "list")})]
    n, a, kw = pick(r, *q)
    return {"name": n, "a": a, "kw": kw}
