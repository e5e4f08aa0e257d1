"""Changes to the Python sources."""
BUGS = []
G, P = "up4/grid.py", "up4/plotting.py"

PRE = '''
import sys, types
import numpy as np
figures = []


class Figure:
    def __init__(self, text):
        self.text, self.styled = text, None
        self.layout = types.SimpleNamespace(width=None)
        figures.append(self)

    def plotly_update(self, restyle_data=None, relayout_data=None):
        self.styled = (restyle_data, relayout_data)

    def write_image(self, file, scale=None, **more):
        self.saved = (file, scale)


pl = types.ModuleType("plotly")
pl.graph_objects = types.SimpleNamespace(Figure=Figure)
io = types.ModuleType("plotly.io")
io.from_json = Figure
pl.io = io
sys.modules["plotly"], sys.modules["plotly.io"] = pl, io


class RustGrid:
    made = None

    @staticmethod
    def _made(kind, *args):
        g = RustGrid()
        g.made = (kind,) + args
        return g

    @staticmethod
    def cartesian3d(cells, limit):
        assert all(float(c) == int(c) for c in cells) and np.asarray(cells).dtype.kind == "i", "whole numbers of cells"
        return RustGrid._made("cartesian3d", list(cells), list(limit))

    @staticmethod
    def cylindrical3d(cells, limit, mode="volume"):
        assert np.asarray(cells).dtype.kind == "i", "whole numbers of cells"
        return RustGrid._made("cylindrical3d", list(cells), list(limit))

    @staticmethod
    def cartesian3d_from_data(pydata, cells):
        return RustGrid._made("cartesian3d_from_data", pydata, list(cells))

    @staticmethod
    def cylindrical3d_from_data(pydata, cells, mode="volume"):
        return RustGrid._made("cylindrical3d_from_data", pydata, list(cells))


class RustVectorGrid:
    pass


class Data:
    def min_position(self):
        return (1.0, 2.0, 3.0)

    def max_position(self):
        return (11.0, 22.0, 33.0)


class Plotter:
    def __init__(self, of):
        self.of, self.calls, self.plotting_string = of, [], "figure"

    def __getattr__(self, name):
        def f(*args, **kwargs):
            self.calls.append((name, args, kwargs))
        return f


class RustPlotter2D:
    @staticmethod
    def _from_grid(g):
        return Plotter(g)

    @staticmethod
    def _from_vector_grid(g):
        return Plotter(g)


rust = types.ModuleType("upppp_rust")
for c in (RustGrid, RustVectorGrid, Data, RustPlotter2D):
    setattr(rust, c.__name__, c)
rust.Converter = object
sys.modules["upppp_rust"] = rust
import up4


def refused(f):
    try:
        f()
    except (ValueError, TypeError):
        return True
    return False
'''


def bug(id, property, file, edits, needs, breaks, py):
    BUGS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks, py=PRE + py))


bug("c58_size_with_y", "C58", G,
    [("            ymin = ylim[0]\n            ymax = ylim[1]\n        if zlim is not None:\n            zmin = zlim[0]\n            zmax = zlim[1]\n        dim = [xmin, xmax, ymin, ymax, zmin, zmax]\n        num_cells",
      "            ymax = ylim[1] - ylim[0] + ymin\n        if zlim is not None:\n            zmin = zlim[0]\n            zmax = zlim[1]\n        dim = [xmin, xmax, ymin, ymax, zmin, zmax]\n        num_cells"),
     ("        if xlim is not None:\n            xmin = xlim[0]\n            xmax = xlim[1]\n        if ylim is not None:\n            ymax",
      "        if xlim is not None:\n            xmin = xlim[0]\n        if ylim is not None:\n            ymax")],
    "A recording, limits along x and a cell size.",
    "Cells along x are counted up to the end of the recording instead of the limit.", '''
g = up4.Grid(data=Data(), xlim=[1.0, 5.0], cell_size=[1.0, 1.0, 1.0])
assert g.made[1] == [4, 20, 30], g.made
''')
bug("c58_size_axes", "C58", G,
    [("            (zlim[1] - zlim[0]) / cell_size[2],\n", "            (zlim[1] - zlim[0]) / cell_size[-2],\n")],
    "Limits for all three axes and a cell size that differs between y and z.",
    "Cells along z are counted by the size along y.", '''
g = up4.Grid(xlim=[0.0, 8.0], ylim=[0.0, 8.0], zlim=[0.0, 8.0], cell_size=[1.0, 2.0, 4.0])
assert g.made[1] == [8, 4, 2], g.made
''')
bug("c58_cylinder_z_only", "C58", G,
    [("                    zmin = zlim[0]\n                    zmax = zlim[1]\n                dim = [xmin, xmax, ymin, ymax, zmin, zmax]\n                return self.cylindrical3d(",
      "                    zmin = max(zmin, zlim[0])\n                    zmax = zlim[1]\n                dim = [xmin, xmax, ymin, ymax, zmin, zmax]\n                return self.cylindrical3d(")],
    "A cylindrical grid of a recording with a lower limit along z below that of the recording.",
    "The lower limit along z is raised to where the recording starts.", '''
g = up4.Grid(data=Data(), grid_style="cylindrical", zlim=[-5.0, 40.0])
assert g.made[2][4:] == [-5.0, 40.0], g.made
''')
bug("c58_style_of_limits", "C58", G,
    [("                    dim = [xlim[0], xlim[1], ylim[0], ylim[1], zlim[0], zlim[1]]\n                    return self.cylindrical3d(",
      "                    dim = [xlim[0], xlim[1], ylim[0], ylim[1], zlim[0], zlim[1]]\n                    return self.cartesian3d(")],
    "A cylindrical grid asked for by the limits of each axis.",
    "A Cartesian grid is made instead.", '''
g = up4.Grid(grid_style="cylindrical", xlim=[0.0, 1.0], ylim=[0.0, 2.0], zlim=[0.0, 3.0])
assert g.made[0] == "cylindrical3d", g.made
''')
bug("c58_twice", "C58", G,
    [("            if limits is not None and (\n                xlim is not None or ylim is not None or zlim is not None\n            ):",
      "            if limits is not None and (\n                xlim is not None and ylim is not None and zlim is not None\n            ):")],
    "Limits given both as a whole and for one axis.",
    "The limits given for the axis are ignored without a word.", '''
assert refused(lambda: up4.Grid(limits=[0.0, 1.0, 0.0, 1.0, 0.0, 1.0], ylim=[0.0, 5.0]))
''')
bug("c58_rounded", "C58", G,
    [("            num_cells[i] = int((limits[2 * i + 1] - limits[2 * i]) / cell_size[i])\n",
      "            num_cells[i] = np.ceil((limits[2 * i + 1] - limits[2 * i]) / cell_size[i])\n")],
    "Limits and a cell size that does not divide them evenly.",
    "A cell more is made than fits, so cells are smaller than asked for.", '''
g = up4.Grid(limits=[0.0, 10.0, 0.0, 10.0, 0.0, 10.0], cell_size=[3.0, 3.0, 3.0])
assert g.made[1] == [3, 3, 3], g.made
''')
bug("c59_contour_index", "C59", P,
    [("            index,\n            colour_map=colour_map,\n        )\n        self._plotter._scalar_contour(",
      "            index or 0,\n            colour_map=colour_map,\n        )\n        self._plotter._scalar_contour(")],
    "A contour of a plane without an index.",
    "A plane without an index is no longer refused and goes on to the Rust side.", '''
p = up4.Plotter2D(RustGrid())
assert refused(lambda: p.scalar_contour(0, selection="plane"))
''')
bug("c59_index_zero", "C59", P,
    [("        if selection == \"plane\" and index is None:\n", "        if selection == \"plane\" and not index:\n")],
    "The plane at index zero.",
    "The first plane of a grid can no longer be drawn.", '''
p = up4.Plotter2D(RustGrid())
p.scalar_map(0, selection="plane", index=0)
assert p._plotter.calls
''')
bug("c59_parity_kind", "C59", P,
    [("            self._plotter._parity_contour_from_grid(\n", "            self._plotter._parity_map_from_grid(\n")],
    "A parity contour of scalar grids.",
    "A parity map is drawn instead of a parity contour.", '''
p = up4.Plotter2D(RustGrid())
p.parity_contour(RustGrid(), 0)
assert p._plotter.calls[0][0] == "_parity_contour_from_grid", p._plotter.calls
''')
bug("c59_style_layout", "C59", P,
    [("        unit_vector_plot = self._create_plot(style=style, layout=layout)\n",
      "        unit_vector_plot = self._create_plot(style, layout)\n")],
    "A unit vector plot with a style or layout.",
    "Style and layout are exchanged.", '''
p = up4.Plotter2D(RustVectorGrid())
f = p.unit_vector_plot(0, style={"a": 1}, layout={"b": 2})
assert f.styled == ({"a": 1}, {"b": 2}), f.styled
''')
bug("c59_minmax_either", "C59", P,
    [("        if scaling_mode == \"minmax\" and (min_size is None or max_size is None):\n",
      "        if scaling_mode == \"minmax\" and (min_size is None and max_size is None):\n")],
    "Scaling between two sizes of which one is left out.",
    "Arrows are drawn with a size missing.", '''
p = up4.Plotter2D(RustVectorGrid())
assert refused(lambda: p.quiver_plot(0, scaling_mode="minmax", min_size=1.0))
''')
bug("c59_scale_borders", "C59", P,
    [("    actual_width = paper_width - (2 * border_width)\n", "    actual_width = paper_width - border_width\n")],
    "A figure saved with a border.",
    "A saved figure is wider than the text by a border.", '''
f = Figure("")
up4.save_fig(f, "x.png")
assert abs(f.saved[1] - (170 / 25.4) / (700 / 600)) < 1e-9, f.saved
''')
bug("c59_map_missing", "C59", P,
    [("            \"red_yellow_blue\",\n", "")],
    "One of the colour maps.",
    "A colour map that exists is refused.", '''
p = up4.Plotter2D(RustGrid())
p.scalar_map(0, colour_map="red_yellow_blue")
assert p._plotter.calls
''')
bug("c59_sizes_exchanged", "C59", P,
    [("            min_size=min_size,\n            max_size=max_size,\n            colour_map=colour_map,\n        )\n        quiver_plot",
      "            min_size=max_size,\n            max_size=min_size,\n            colour_map=colour_map,\n        )\n        quiver_plot")],
    "Scaling of arrows between two sizes.",
    "The least and the greatest size are exchanged.", '''
p = up4.Plotter2D(RustVectorGrid())
p.quiver_plot(0, scaling_mode="minmax", min_size=1.0, max_size=2.0)
assert p._plotter.calls[0][2]["min_size"] == 1.0, p._plotter.calls
''')
