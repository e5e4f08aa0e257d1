BUGS = []
P2D = "src/plotting/plotting_2d"


def bug(id, property, file, edits, needs, breaks, test, nth=None, host=None):
    BUGS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks,
                     test=test, nth=nth, host=host or file))


GRID = """
use super::*;
use crate::{CartesianGrid3D, Dim, GridFunctions3D, VectorGrid};
use ndarray::{Array3, Axis};

#[allow(dead_code)]
fn scalar(seed: f64) -> CartesianGrid3D {
    let cells = [2, 3, 4];
    let mut g = CartesianGrid3D::new(
        cells,
        Dim::ThreeD([[0.0, 2.0], [10.0, 13.0], [20.0, 24.0]]),
    );
    let d = Array3::from_shape_fn((2, 3, 4), |(i, j, k)| {
        seed + (i as f64) + 10.0 * (j as f64) + 100.0 * ((k * k) as f64)
    });
    g.set_weights(Array3::ones((2, 3, 4)));
    g.set_data(d);
    g
}
#[allow(dead_code)]
fn vectors(seed: f64) -> VectorGrid {
    let mut v = VectorGrid::new(Box::new(scalar(seed)));
    for k in 0..3 {
        v.data[k] = Box::new(scalar(seed + 0.3 * (k as f64)));
    }
    v
}
"""
bug("c38_map_plane_axis", "C38", f"{P2D}/scalar_map.rs",
    [("""        // select yz (0), xz (1) or xy (2) plane
        let x = if axis == 0 {
            grid.get_ypositions().to_owned()
        } else {
            grid.get_xpositions().to_owned()
        };
        let y = if axis == 0 || axis == 1 {
            grid.get_zpositions().to_owned()
        } else {
            grid.get_ypositions().to_owned()
        };
        let data = grid.collapse(axis);
""", """        // select yz (0), xz (1) or xy (2) plane
        let x = if axis == 0 {
            grid.get_ypositions().to_owned()
        } else {
            grid.get_xpositions().to_owned()
        };
        let y = if axis == 0 {
            grid.get_zpositions().to_owned()
        } else {
            grid.get_ypositions().to_owned()
        };
        let data = grid.collapse(axis);
""")], "a projection along y of a grid whose y and z axes differ",
    "rows of the map lie at y positions instead of z positions", GRID + """
#[test]
fn sides() {
    for axis in 0..3 {
        let g = scalar(1.0);
        let p = ScalarMap::from_grid_depth_averaged(Box::new(g.clone()), axis);
        assert_eq!(p.data.dim(), (p.x.len(), p.y.len()));
        assert_eq!(p.y[0] > 15.0, axis != 2);
    }
}
""")
bug("c38_contour_rows", "C38", f"{P2D}/scalar_contour.rs",
    [("for col in data_arr.columns() {", "for col in data_arr.rows() {", 3)],
    "a contour of the mean of a scalar grid", "the values of a contour are transposed", GRID + """
#[test]
fn rows() {
    let g = scalar(1.0);
    let c = g.collapse(0);
    let p = ScalarContour::from_grid_depth_averaged(Box::new(g.clone()), 0);
    assert_eq!(p.data.len(), p.y.len());
    for j in 0..p.y.len() {
        for i in 0..p.x.len() {
            assert!((p.data[j][i] - c[[i, j]]).abs() < 1e-9);
        }
    }
}
""")
bug("c38_quiver_component", "C38", f"{P2D}/quiver.rs",
    [("let j = if axis == 0 || axis == 1 { 2 } else { 1 };", "let j = if axis == 0 { 2 } else { 1 };", 2)],
    "arrows in a single plane across y", "the vertical component is that across the plane", GRID + """
#[test]
fn components() {
    for axis in 0..3 {
        let g = vectors(1.0);
        let p = QuiverPlot::from_vector_grid_single_plane(g.clone(), axis, 1);
        let k = if axis == 2 { 1 } else { 2 };
        let want = g.data[k].get_data().index_axis(Axis(axis), 1).to_owned();
        assert!(p.v.iter().zip(want.iter()).all(|(a, b)| (a - b).abs() < 1e-9));
    }
}
""")
bug("c39_bound_norm", "C39", f"{P2D}/quiver.rs",
    [("*sf = if n > max { max / n } else { 1. };", "*sf = if n > max { max / n } else { max.min(1.) };")],
    "an upper limit below one and an arrow already shorter", "arrows within the limit shrink too",
    GRID + """
#[test]
fn untouched() {
    let p = QuiverPlot::new(
        ndarray::array![0.0], ndarray::array![0.0], ndarray::array![[0.3]], ndarray::array![[0.4]],
        ndarray::array![[0.5]], ndarray::array![[0.5]],
    ).bound_max(0.8);
    assert!((p.u[[0, 0]] - 0.3).abs() < 1e-9 && (p.v[[0, 0]] - 0.4).abs() < 1e-9);
}
""")
bug("c39_unit_half_node", "C39", f"{P2D}/unit_vector.rs",
    [("        self.v *= 0.5 * dy / largest_norm;", "        self.v *= 0.5 * dx / largest_norm;")],
    "cells that are not square", "vertical components are scaled by the horizontal pitch", GRID + """
#[test]
fn pitch() {
    let p = UnitVectorPlot {
        x: ndarray::array![0.0], y: ndarray::array![0.0], u: ndarray::array![[0.6]],
        v: ndarray::array![[0.8]], norm: ndarray::array![[1.0]], true_norm: ndarray::array![[1.0]],
    }.bound_half_node(1.0, 3.0);
    assert!((p.u[[0, 0]] - 0.3).abs() < 1e-9 && (p.v[[0, 0]] - 1.2).abs() < 1e-9);
}
""")
bug("c40_parity_component", "C40", f"{P2D}/parity_plot.rs",
    [("let comp_v = comparison_grid.data[j].collapse(axis);", "let comp_v = comparison_grid.data[i].collapse(axis);")],
    "two vector fields, depth averaged", "values of different components are paired", GRID + """
#[test]
fn pairs() {
    let p = ParityPlot::from_vector_grids_depth_averaged(vectors(1.0), vectors(1.0), 1);
    assert!(p.reference_data.iter().zip(&p.comparison_data).all(|(a, b)| (a - b).abs() < 1e-9));
}
""")
bug("c40_percent_base", "C40", f"{P2D}/parity_contour.rs",
    [("let delta = (&self.reference_data - &self.comparison_data) / &self.reference_data * 100.;",
      "let delta = (&self.reference_data - &self.comparison_data) / &self.comparison_data * 100.;")],
    "two fields that differ", "percentages refer to the other grid", GRID + """
#[test]
fn percent() {
    let p = ParityContour::from_grids_depth_averaged(
        Box::new(scalar(10.0)), Box::new(scalar(5.0)), 2,
    ).delta_as_percent();
    for (k, d) in p.delta.iter().enumerate() {
        let r = p.reference_data.iter().nth(k).unwrap();
        let c = p.comparison_data.iter().nth(k).unwrap();
        assert!((d - (r - c) / r * 100.0).abs() < 1e-9);
    }
}
""")
