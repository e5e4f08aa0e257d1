BUGS = []


def bug(id, property, file, edits, needs, breaks, py="", test="", host=None):
    b = dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks)
    BUGS.append(dict(b, test=test, host=host) if host else dict(b, py=PRE + py))


PRE = '''
import numpy as np
import upppp_rust as u


def csv(name, rows):
    with open(name, "w") as f:
        f.write("t,x,y,z\\n")
        for r in rows:
            f.write(",".join(str(v) for v in r) + "\\n")


def tracer():
    csv("d.csv", [(0.1 * k, k, 2 * k, 3 * k) for k in range(1, 40)])
    u.Converter.csv("d.csv", "d.hdf5", vel=True)
    return u.Data("d.hdf5")


def particles(name="p.hdf5", kinds=(1, 1, 2), steps=4, prefix="a"):
    files = []
    for k in range(1, steps + 1):
        f = f"{prefix}_{k}.vtk"
        with open(f, "w") as o:
            n = len(kinds)
            o.write("polydata\\npoints " + " ".join(
                f"{1 + j + 0.1 * k} {2 + 2 * j} {3 + 3 * j * j}" for j in range(n)) + "\\n")
            o.write("field id " + " ".join(str(j + 1) for j in range(n)) + "\\n")
            o.write("field type " + " ".join(str(t) for t in kinds) + "\\n")
            o.write("field v " + " ".join(f"{10 + j} {20 + k} {30 + j + k}" for j in range(n)) + "\\n")
            o.write("field radius " + " ".join("0.5" for j in range(n)) + "\\n")
            o.write("field d " + " ".join("3.0" for j in range(n)) + "\\n")
        files.append(f)
    u.Converter.vtk(files, 0.1, name, filter=prefix + r"_(\\d+).vtk")
    return u.Data(name)
'''
PY = "src/pylib.rs"
GRID = "src/pylib/libgrid.rs"
PLOT = "src/pylib/libplot.rs"
CONV = "src/pylib/libconv.rs"

bug("c43_concentration_types", "C43", PY,
    [(".concentration_field(grid.grid.clone(), selector, type_a, type_b);",
      ".concentration_field(grid.grid.clone(), selector, type_b, type_a);")],
    "A recording with unequal numbers of two particle types.",
    "Data.concentration_field returns the concentration of the other type.", '''
d = particles()
g = u.RustGrid.cartesian3d([1, 1, 1], [0., 10., 0., 10., 0., 20.])
a = d.concentration_field(g, 1, 2).to_numpy()[0, 0, 0]
b = d.concentration_field(g, 2, 1).to_numpy()[0, 0, 0]
assert abs(a - 2 / 3) < 1e-9 and abs(b - 1 / 3) < 1e-9, (a, b)
''')

bug("c43_set_time_end", "C43", PY,
    [("if self.data.global_stats().max_time() < &min_time {",
      "if self.data.global_stats().max_time() <= &min_time {")],
    "A window that starts at the very last time of the recording.",
    "set_time refuses a window that holds the last timestep.", '''
d = tracer()
d.set_time(float(np.max(d.time())), 100.0)
''')

bug("c43_circulation_axis", "C43", PY,
    [("self.data.circulation_time_two_boundary(selector, axis, position)",
      "self.data.circulation_time_two_boundary(selector, axis, (position.0.min(position.1), position.0.max(position.1)))")],
    "Two boundaries given with the upper one first.",
    "circulation_time_two_boundary swaps boundaries that were given in descending order.", '''
csv("c.csv", [(0.1 * k, 5 * np.sin(k / 3.0), 1.0 + 0.001 * k, 2.0) for k in range(1, 120)])
u.Converter.csv("c.csv", "c.hdf5", vel=True)
d = u.Data("c.hdf5")
a = d.circulation_time_two_boundary((-1.0, 2.0), 0)
b = d.circulation_time_two_boundary((2.0, -1.0), 0)
assert a != b, (a, b)
''')

bug("c43_msd_field_window", "C43", PY,
    [("    fn msd_field<'py>(&mut self, _py: Python<'py>, grid: &PyGrid, time: f64) -> PyGrid {\n"
      "        print_debug!(\"Starting MSD Field function\");",
      "    fn msd_field<'py>(&mut self, _py: Python<'py>, grid: &PyGrid, time: f64) -> PyGrid {\n"
      "        print_debug!(\"Starting MSD Field function\");\n"
      "        self.selector.set_time(0.0, f64::MAX);")],
    "A time window selected before msd_field is called, and any analysis after it.",
    "msd_field forgets the time window that was selected, for itself and for later calls.", '''
d = tracer()
g = u.RustGrid.cartesian3d([3, 2, 4], [0., 40., 0., 80., 0., 120.])
d.set_time(0.5, 1.5)
a = np.nansum(d.numberfield(g).to_numpy())
d.msd_field(g, 0.2)
b = np.nansum(d.numberfield(g).to_numpy())
assert a == b, (a, b)
''')

bug("c44_negative_list", "C44", PY,
    [("_idx = *self.data.global_stats().timesteps() as isize + index;",
      "_idx = *self.data.global_stats().timesteps() as isize - 1 + index;", 2)],
    "A list of indices that holds a negative one.",
    "Negative indices in a list are off by one timestep.", '''
d = tracer()
n = len(d)
assert (d[[-2]][0] == d[n - 2]).all()
assert (d[[0, -3]][1] == d[-3]).all()
''')

bug("c44_list_velocity", "C44", PY,
    [("let v_y:f64  = velocity[[j,1]];", "let v_y:f64  = velocity[[j,2]];", 1)],
    "A list of indices, and velocities that differ along y and z.",
    "Rows of a list of timesteps carry the z velocity twice.", '''
d = particles()
a = d[[1, 2]]
assert (a[0] == d[1]).all() and (a[1] == d[2]).all(), (a[0], d[1])
''')

bug("c44_dimensions_key", "C44", PY,
    [('("zmin", dim[[0, 2]].to_object(py)),', '("zmin", dim[[0, 1]].to_object(py)),')],
    "A recording whose smallest y and z differ.",
    "dimensions() reports the smallest y as the smallest z.", '''
d = particles()
assert d.dimensions()["zmin"] == d.min_position()[2]
''')

bug("c45_cylinder_limits", "C45", GRID,
    [("[dim[[0, 1]], dim[[1, 1]]],", "[dim[[0, 0]], dim[[1, 1]]],", 2)],
    "A cylindrical grid made from a recording whose smallest x and y differ.",
    "cylindrical3d_from_data uses the smallest x as the lower y limit.", '''
d = particles()
lim = d.dimensions()
a = u.RustGrid.cylindrical3d_from_data(d, [2, 2, 2])
b = u.RustGrid.cylindrical3d([2, 2, 2], [lim[k] for k in ("xmin", "xmax", "ymin", "ymax", "zmin", "zmax")])
assert str(a).split("Data")[0] == str(b).split("Data")[0], (str(a), str(b))
''')

bug("c45_vector_plane", "C45", GRID,
    [("            self.grid.data[2]\n                .slice(axis, position)",
      "            self.grid.data[1]\n                .slice(axis, position)")],
    "A vector grid sliced at a position, where y and z components differ.",
    "slice_pos of a vector grid returns the y component in place of the z component.", '''
d = particles()
g = u.RustGrid.cartesian3d([1, 1, 2], [0., 10., 0., 10., 0., 20.])
v = d.vectorfield(g)
a = v.slice_pos(2, 4.0)
b = [c[:, :, 0] for c in v.to_numpy()]
assert all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b)), (a, b)
''')

bug("c45_plot_axes", "C45", GRID,
    [("            y = self.grid.get_xpositions().to_owned().to_vec();\n            x = self.grid.get_zpositions().to_owned().to_vec();",
      "            y = self.grid.get_xpositions().to_owned().to_vec();\n            x = self.grid.get_ypositions().to_owned().to_vec();")],
    "The quick plot along axis 1 of a grid with different y and z extents.",
    "Grid.plot(1) labels the z axis with y positions.", '''
d = particles()
g = u.RustGrid.cartesian3d([3, 3, 3], [0., 10., 0., 20., 0., 40.])
n = d.numberfield(g)
n.plot(1)
z = [round(v, 9) for v in n.zpositions()]
y = [round(v, 9) for v in n.ypositions()]
text = open("shown.txt").read()
import re
shown = [[round(float(v), 9) for v in re.search(k + r"=\\[([^\\]]*)\\]", text).group(1).split(",")] for k in (" x", " y")]
assert z in shown and y not in shown, (shown, z)
''')

bug("c46_gradient", "C46", PLOT,
    [('Some("purple_blue_green") => Some(colorous::PURPLE_BLUE_GREEN),',
      'Some("purple_blue_green") => Some(colorous::PURPLE_GREEN),')],
    "The colour map purple_blue_green asked for.",
    "The colour map purple_blue_green is drawn as purple_green.", '''
d = particles()
g = u.RustGrid.cartesian3d([2, 2, 2], [0., 10., 0., 20., 0., 40.])
p = u.RustPlotter2D._from_grid(d.numberfield(g))
p._scalar_map("grid", 1, "depth_average", None, "purple_blue_green")
a = p.plotting_string
p._scalar_map("grid", 1, "depth_average", None, "purple_green")
assert a != p.plotting_string
''')

bug("c46_half_node", "C46", PLOT,
    [("                let dy = unit_vector_plotter.y()[1] - unit_vector_plotter.y()[0];\n"
      "                unit_vector_plotter\n                    .bound_half_node(dx, dy)",
      "                let dy = unit_vector_plotter.x()[1] - unit_vector_plotter.x()[0];\n"
      "                unit_vector_plotter\n                    .bound_half_node(dx, dy)")],
    "Unit vectors bounded to half a cell, on cells that are flatter than wide.",
    "Unit vectors are bounded by the cell's width only, and overrun flat cells.", '''
import re
d = particles()
g = u.RustGrid.cartesian3d([2, 2, 2], [0., 200., 0., 10., 0., 40.])
p = u.RustPlotter2D._from_vector_grid(d.vectorfield(g))
def tip(mode):
    p._unit_vector_plot(2, "depth_average", None, mode)
    for l in p.plotting_string.splitlines():
        x, y = ([float(v) for v in w.split(",")] for w in re.findall(r" [xy]=\\[([^\\]]*)\\]", l))
        if x[0] == x[0] and x[1] == x[1] and x[1] != x[0]:
            return x[1] - x[0], y[1] - y[0]
a = tip("none")
b = tip("half_node")
# cells are 100 by 5
assert abs((b[0] / a[0]) / (b[1] / a[1]) - 20) < 1e-6, (a, b)
''')

bug("c46_contours", "C46", PLOT,
    [(".size((max - min) / n_contours.unwrap() as f64),",
      ".size(max / n_contours.unwrap() as f64),", 1)],
    "Contours of a field whose smallest value is not zero.",
    "The size of contours is taken from the largest value alone.", '''
import re
d = particles(kinds=(1,) * 3)
g = u.RustGrid.cartesian3d([2, 1, 1], [0., 5., 0., 20., 0., 40.])
n = d.velocityfield(g)
p = u.RustPlotter2D._from_grid(n)
p._scalar_contour("grid", 1, "depth_average", None, "viridis", 4)
m = re.search(r"start=([-\\d.e]+).*end=([-\\d.e]+).*size=([-\\d.e]+)", p.plotting_string)
a, b, s = map(float, m.groups())
assert abs(s - (b - a) / 4) < 1e-9 and a > 0, (a, b, s)
''')

bug("c46_parity_index", "C46", PLOT,
    [("ParityMap::from_grids_single_plane(ref_grid, comp_grid, axis, index)",
      "ParityMap::from_grids_single_plane(comp_grid, ref_grid, axis, index)")],
    "A parity map of one plane of two grids that differ.",
    "The parity map of a plane compares the grids the wrong way round.", '''
a = particles("a.hdf5")
b = particles("b.hdf5", kinds=(1, 1, 1, 1, 1, 1), prefix="b")
g = u.RustGrid.cartesian3d([2, 2, 2], [0., 10., 0., 20., 0., 140.])
p = u.RustPlotter2D._from_grid(a.velocityfield(g))
p._parity_map_from_grid(b.velocityfield(g), 1, "plane", 0)
x = p.plotting_string
q = u.RustPlotter2D._from_grid(b.velocityfield(g))
q._parity_map_from_grid(a.velocityfield(g), 1, "plane", 0)
f = open("x.txt", "w"); f.write(x); f.close()
import re
# reference minus comparison: where only the comparison has moved, the sign tells
v = [float(w) for w in re.search(r" z=\\[([^\\]]*)\\]", x).group(1).split(",")]
va = a.velocityfield(g).slice(1, 0)
vb = b.velocityfield(g).slice(1, 0)
want = sorted(w for w in (va - vb).flatten() if w == w)
r = sorted(w for w in v if w == w)
assert np.allclose(want, r), (want, r)
''')

bug("c47_diameter", "C47", CONV,
    [("                Some(diameter_field_name) => LegacyVTKConverter::new()\n                    .add_diameter_field(diameter_field_name)",
      "                Some(diameter_field_name) => LegacyVTKConverter::new()\n                    .add_radius_field(diameter_field_name)", 2)],
    "A folder of legacy files converted with a diameter field.",
    "Folders of legacy files take the diameters as radii.", host=CONV, test='''
use super::PyConverter;

#[test]
fn radius_is_half_the_diameter() {
    let d = std::env::temp_dir().join(format!("planted{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    for k in 1..3 {
        std::fs::write(d.join(format!("a_{k}.vtk")),
            "polydata\\npoints 1 2 3 4 5 6\\nfield id 1 2\\nfield type 1 1\\nfield v 1 1 1 2 2 2\\nfield d 3 5\\n").unwrap();
    }
    let out = d.join("o.hdf5");
    PyConverter::vtk_from_folder(d.to_str().unwrap(), 0.1, out.to_str().unwrap(), r"a_(\\d+).vtk",
        "v", "radius", "id", "type", Some("d"));
    let f = hdf5::File::open(&out).unwrap();
    let r: ndarray::Array1<f64> = f.group("timestep 0").unwrap().dataset("radius").unwrap().read_1d().unwrap();
    std::fs::remove_dir_all(&d).unwrap();
    assert_eq!(r.to_vec(), vec![1.5, 2.5]);
}
''')

bug("c47_polygons", "C47", CONV,
    [("let vtk_file_type = VTKType::PolyData;", "let vtk_file_type = VTKType::UnstructuredGrid;", 1)],
    "Files of polygons (.vtp) converted by name.",
    ".vtp files are read as unstructured grids.", '''
for k in (1, 2):
    open(f"a_{k}.vtp", "w").write("polydata\\npoints 1 2 3 4 5 6\\narray id 1 2\\narray type 1 1\\n"
                                  "array v 1 1 1 2 2 2\\narray radius 3 3\\n")
u.Converter.vtk(["a_1.vtp", "a_2.vtp"], 0.1, "v.hdf5", filter=r"a_(\\d+).vtp")
assert u.Data("v.hdf5")[0].shape == (2, 7)
''')

bug("c48_files_header", "C48", CONV,
    [("        times,\n        columns = vec![0,1,2,3],\n        delimiter = \",\",\n        header = true,",
      "        times,\n        columns = vec![0,1,2,3],\n        delimiter = \",\",\n        header = false,")],
    "csv_multi_files called without saying whether there is a header line.",
    "The header line of files is taken for a particle by default.", '''
names = []
for k in range(5):
    f = f"m{k}.csv"
    open(f, "w").write("9,9,9,9\\n" + "".join(f"{j},{j},{k},1.0\\n" for j in range(1, 4)))
    names.append(f)
u.Converter.csv_multi_files(names, "m.hdf5", [0.1 * k for k in range(5)], vel=True)
a = u.Data("m.hdf5")
u.Converter.csv_multi_files(names, "n.hdf5", [0.1 * k for k in range(5)], vel=True, header=True)
b = u.Data("n.hdf5")
assert a[1].shape == b[1].shape and np.array_equal(a[1], b[1], equal_nan=True), (a[1], b[1])
''')

bug("c48_mode", "C48", GRID,
    [('#[pyo3(signature = (pydata, cells, mode = "volume"))]', '#[pyo3(signature = (pydata, cells, mode = "length"))]')],
    "A cylindrical grid made from a recording without naming a mode.",
    "Cylindrical grids from data have rings of equal width by default, not of equal volume.", '''
d = particles()
a = u.RustGrid.cylindrical3d_from_data(d, [3, 3, 3])
b = u.RustGrid.cylindrical3d_from_data(d, [3, 3, 3], "volume")
assert (a.cell_positions()[0] == b.cell_positions()[0]).all()
''')
