"""A drawing window and an animation writer that record what they are given.

There is no display, OpenGL or imageio here; the meshes handed over are real
pyvista objects, files are written through the simulated disk, and the user's
hand on the slider is part of the scenario.
"""
import builtins
import json
import re

import numpy as np

NAME = "Data"


class Anything:
    """accepts every call and attribute (camera, lights, widgets)"""

    def __call__(self, *a, **kw):
        return Anything()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Anything()


class Text:
    def __init__(self, t):
        self.text = str(t)

    def SetInput(self, t):
        self.text = str(t)

    SetText = set_text = lambda self, *a: setattr(self, "text", str(a[-1]))

    @property
    def input(self):
        return self.text

    @input.setter
    def input(self, t):
        self.text = str(t)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Anything()


LAST = []        # the windows opened in this process, in order


class Plotter:
    def __init__(self, *a, **kw):
        self._meshes = []
        self._texts = []
        self._labels = []
        self._slider = None
        self._frames = []
        self._out = None
        self._bars = []
        self._shown = False
        self.camera = Anything()
        LAST.append(self)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Anything()

    def add_mesh(self, mesh=None, **kw):
        sc = kw.get("scalars")
        name = None
        if isinstance(sc, str):
            name = sc
        elif sc is not None:
            sc = np.asarray(sc)
            name = NAME
            if len(sc) != mesh.n_cells:
                raise ValueError(f"Number of scalars ({len(sc)}) must match number of cells ({mesh.n_cells}).")
            mesh.cell_data[name] = sc
        self._meshes.append({"mesh": mesh, "name": name, "clim": kw.get("clim")})
        return Anything()

    def add_text(self, text=None, *a, **kw):
        t = Text(text)
        self._texts.append(t)
        return t

    def add_point_labels(self, points=None, labels=None, *a, **kw):
        p = np.array(points.points if hasattr(points, "points") else points, dtype=float)
        if len(p) != len(labels):
            raise ValueError("There must be one label for each point")
        self._labels.append({"points": p, "labels": [re.sub(r"np\.\w+\(([^()]*)\)", r"\1", str(x)) for x in labels]})
        return Anything()

    def add_points(self, points=None, *a, **kw):
        self._labels.append({"points": np.array(points, dtype=float), "labels": None})
        return Anything()

    def add_scalar_bar(self, title="", *a, **kw):
        self._bars.append(str(title))
        return Anything()

    def update_scalars(self, scalars, mesh=None, *a, **kw):
        m = self._meshes[-1] if mesh is None else next(x for x in self._meshes if x["mesh"] is mesh)
        m["mesh"].cell_data[m["name"] or NAME] = np.asarray(scalars)

    def add_slider_widget(self, callback, rng, value=None, *a, **kw):
        self._slider = {"call": callback, "rng": [float(x) for x in rng], "value": float(rng[0] if value is None else value)}
        return Anything()

    # -- what is visible now
    def look(self):
        data = None
        for m in self._meshes:
            if m["name"] is not None:
                d = m["mesh"].cell_data
                data = np.array(d[m["name"]]) if m["name"] in d else None
        return {"data": data, "texts": [t.text for t in self._texts]}

    def scene(self):
        out = []
        for m in self._meshes:
            g = m["mesh"]
            e = {"n": int(g.n_cells), "scalars": m["name"] is not None, "clim": None if m["clim"] is None else [float(x) for x in m["clim"]],
                 "center": [float(x) for x in g.center], "bounds": [float(x) for x in g.bounds]}
            if e["scalars"] or hasattr(g, "cell_id"):
                e["cells"] = np.array(g.cell_centers().points, dtype=float)
            out.append(e)
        return {"meshes": out, "labels": [dict(x) for x in self._labels], "bars": list(self._bars),
                "slider": None if self._slider is None else [self._slider["rng"], self._slider["value"]]}

    # -- the user
    def slide(self, v):
        if self._slider is None:
            return None
        lo, hi = self._slider["rng"]
        self._slider["call"](float(min(max(v, lo), hi)))
        return self.look()

    def show(self, *a, **kw):
        self._shown = True
        self._frames.append(self.look())
        for v in PLAN:
            f = self.slide(v)
            if f is not None:
                self._frames.append(f)
        return None

    # -- animations
    def open_gif(self, filename, *a, **kw):
        self._out = builtins.open(filename, "w")

    open_movie = open_gif

    def write_frame(self):
        f = self.look()
        self._out.write(json.dumps([None if f["data"] is None else [float(x) for x in f["data"]], f["texts"]]) + "\n")
        self._frames.append(f)

    def close(self, *a, **kw):
        if self._out is not None:
            o, self._out = self._out, None
            o.close()


PLAN = []


def patch():
    """the library looks these names up when it draws"""
    import sys

    import pyvista as pv

    real = pv.Plotter
    pv.Plotter = Plotter
    pv.set_jupyter_backend = lambda *a, **kw: None
    for n, m in list(sys.modules.items()):
        if n.startswith("reservoirflow") and m is not None:
            for a, v in list(vars(m).items()):
                if v is real:
                    setattr(m, a, Plotter)


def report(p, start=0):
    d = p.scene()
    d["frames"] = p._frames[start:]
    d["shown"] = p._shown
    return d


def figures():
    """lines and images of the figures drawn with matplotlib, which are then closed"""
    import matplotlib.pyplot as plt

    out = []
    for n in plt.get_fignums():
        fig = plt.figure(n)
        for ax in fig.axes:
            e = {"lines": [[np.array(l.get_xdata(), dtype=float), np.array(l.get_ydata(), dtype=float)] for l in ax.get_lines()],
                 "images": [np.array(i.get_array(), dtype=float) for i in ax.get_images()],
                 "x": ax.get_xlabel(), "y": ax.get_ylabel(), "title": ax.get_title(),
                 "xticks": [[float(t) for t in ax.get_xticks()], [t.get_text() for t in ax.get_xticklabels()]]}
            out.append(e)
    plt.close("all")
    return out
