C = "src/grid/cartesian_grid.rs"
Y = "src/grid/cylindrical_grid.rs"
V = "src/grid/vector_grid.rs"
BUGS = []


def bug(id, property, file, edits, needs, breaks, test, nth=None):
    BUGS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks,
                     test=test, nth=nth))


bug("c05_trajectory_weight", "C05", C,
    [("self.weight[(cell_id[0], cell_id[1], cell_id[2])] += fraction;",
      "self.weight[(cell_id[0], cell_id[1], cell_id[2])] += fraction * value;")],
    "trajectory values other than one", "the weight of a trajectory grows with its value", """
#[test]
fn trajectory_weights_sum_to_one() {
    let mut g = cart(3);
    g.add_trajectory_value([1.0; 3], [9.0; 3], 4.0);
    assert!(near(g.get_weights().sum(), 1.0));
    assert!(near(g.get_data().sum(), 4.0));
}
""")
bug("c05_insert_accumulates", "C05", Y,
    [("        self.data[(cell_id[0], cell_id[1], cell_id[2])] = value;",
      "        self.data[(cell_id[0], cell_id[1], cell_id[2])] =\n"
      "            value + self.data[(cell_id[0], cell_id[1], cell_id[2])].max(0.0);")],
    "inserting into a cell that already holds a positive value",
    "an insert adds to what is there", """
#[test]
fn insert_replaces() {
    let mut g = cyl(3);
    g.insert([5.0; 3], 2.0);
    g.insert([5.0; 3], 3.0);
    assert!(near(g.get_value([5.0; 3]), 3.0));
}
""")
bug("c06_inside_two_axes", "C06", C,
    [("            .zip(pos.iter())\n            .map(|(lim, pos)| pos >= &lim[0] && pos <= &lim[1])\n            .all(|value| value)",
      "            .zip(pos.iter())\n            .map(|(lim, pos)| pos >= &lim[0] && pos < &lim[1])\n            .all(|value| value)")],
    "a position exactly on an upper limit", "the upper limits are outside", """
#[test]
fn upper_limit_is_inside() {
    let g = cart(4);
    assert!(g.is_inside([10.0, 5.0, 5.0]));
    assert_eq!(g.cell_id([10.0, 5.0, 5.0]).unwrap()[0], 3);
}
""")
bug("c06_nan_height", "C06", C,
    [("if pos[0].is_nan() || pos[1].is_nan() || pos[2].is_nan() {\n            return false;\n        }\n        self.limits\n            .iter()\n            .zip(pos.iter())\n            .map(|(lim, pos)| pos >= &lim[0] && pos <= &lim[1])",
      "self.limits\n            .iter()\n            .zip(pos.iter())\n            .map(|(lim, pos)| !(pos < &lim[0] || pos > &lim[1]))"),
     ("        self.limits\n            .iter()", "        self.limits\n            .iter()", 1)],
    "a position with an unknown coordinate", "unknown positions are inside", """
#[test]
fn unknown_is_outside() {
    assert!(!cart(4).is_inside([1.0, 1.0, f64::NAN]));
}
""")
bug("c07_divide_twice", "C07", V,
    [("        self.data[2].divide_by_weight();", "        self.data[1].divide_by_weight();")],
    "the third component of a vector field", "one component is normalised twice, one never", """
#[test]
fn every_component_is_normalised() {
    use crate::grid::VectorGrid;
    let mut v = VectorGrid::new(cart(2));
    for _ in 0..2 {
        v.add_value([1.0; 3], 6.0);
    }
    v.divide_by_weight();
    for k in 0..3 {
        assert!(near(v.data()[k].get_data()[[0, 0, 0]], 6.0));
    }
}
""")
bug("c07_outlier_mode", "C07", V,
    [("        self.data[1].outlier_removal(threshold, mode);",
      "        self.data[1].outlier_removal(threshold, mode.min(1));")],
    "outlier removal by neighbours on a vector grid", "one component is treated in another mode", """
#[test]
fn components_share_the_mode() {
    use crate::grid::VectorGrid;
    let mut v = VectorGrid::new(cart(3));
    v.add_value([5.0; 3], 9.0);
    v.outlier_removal(1.0, 2);
    for k in 0..3 {
        assert!(near(v.data()[k].get_data()[[1, 1, 1]], 0.0));
    }
}
""")
bug("c08_scalar_weights", "C08", C,
    [("        self.data = &self.data / other;\n    }\n\n    fn divide_by_weight",
      "        self.data = &self.data / other;\n        self.weight = &self.weight / other;\n    }\n\n    fn divide_by_weight")],
    "weights read after a division by a number", "the number of samples is divided too", """
#[test]
fn samples_stay() {
    let mut g = cart(2);
    g.add_value([1.0; 3], 6.0);
    g.divide_by_scalar(3.0);
    assert!(near(g.get_weights().sum(), 1.0));
    assert!(near(g.get_data().sum(), 2.0));
}
""")
bug("c08_set_weights_volume", "C08", Y,
    [("        if self.weight.shape() == weights.shape() {", "        if self.weight.len() == weights.len() {")],
    "weights of another shape with the same number of cells", "a wrong shape is accepted", """
#[test]
fn shape_is_checked() {
    use ndarray::Array3;
    assert!(panics(|| cyl(4).set_weights(Array3::zeros((2, 4, 8)))));
}
""")
bug("c13_collapse_weight_nan", "C13", C,
    [("            result = result + &data_arr * &weight;\n            result_weight += &weight;\n        }\n        result /= &result_weight;\n\n        result",
      "            result = result + &data_arr * &weight;\n            result_weight += &weight.mapv(|w| if w > 0. { w } else { 1. });\n        }\n        result /= &result_weight;\n\n        result")],
    "empty cells along the projected axis", "empty cells dilute the mean", """
#[test]
fn empty_cells_do_not_count() {
    let mut g = cart(2);
    g.add_value([1.0; 3], 6.0);
    assert!(near(g.collapse(2)[[0, 0]], 6.0));
}
""")
bug("c13_slice_rows", "C13", Y,
    [("            self.data.slice(s![.., cell_id, ..]).to_owned()",
      "            self.data.slice(s![.., cell_id, ..]).reversed_axes().to_owned()", 2)],
    "a cut along the angle of a cylinder with values that are not symmetric",
    "rows and columns of the cut are swapped", """
#[test]
fn cut_keeps_its_axes() {
    let mut g = cyl(3);
    g.add_to_cell([2, 1, 0], 7.0);
    assert!(near(g.slice_idx(1, 1)[[2, 0]], 7.0));
}
""")
bug("c18_keep_equal", "C18", C,
    [("                .mapv(|x| if x > threshold { threshold } else { x });",
      "                .mapv(|x| if x.abs() > threshold { threshold } else { x });")],
    "negative values below minus the threshold", "low values are replaced too", """
#[test]
fn low_values_stay() {
    let mut g = cart(2);
    g.add_to_cell([0, 0, 0], -5.0);
    g.outlier_removal(2.0, 1);
    assert!(near(g.get_data()[[0, 0, 0]], -5.0));
}
""")
bug("c18_neighbour_twice", "C18", C,
    [("                        (idx.0, idx.1 + 1, idx.2 + 1),\n                        (idx.0 + 1,",
      "                        (idx.0, idx.1 + 1, idx.2),\n                        (idx.0 + 1,")],
    "outlier removal by neighbours with values that differ", "one neighbour counts twice, one never", """
#[test]
fn all_neighbours_count() {
    let mut g = cart(3);
    g.add_to_cell([1, 1, 1], 100.0);
    g.add_to_cell([1, 2, 2], 26.0);
    g.outlier_removal(50.0, 2);
    assert!(near(g.get_data()[[1, 1, 1]], 1.0));
}
""")
bug("c27_height_offset", "C27", Y,
    [("cellidz as f64 * zcellsize + zcellsize + lim[2][0]", "cellidz as f64 * zcellsize + zcellsize + lim[2][0].abs()")],
    "a cylinder that starts below zero", "heights are shifted", """
#[test]
fn heights_start_at_the_bottom() {
    use crate::grid::{CylindricalGrid3D, Dim, GridFunctions3D};
    let g = CylindricalGrid3D::new([2; 3], Dim::ThreeD([[0.0, 2.0], [0.0, 2.0], [-4.0, 4.0]]), "volume");
    assert!(near(g.get_zpositions()[1], 4.0));
}
""")
bug("c27_outer_radius", "C27", Y,
    [("            if x > y {\n                x\n            } else {\n                y\n            }",
      "            (x + y) / 2.0")],
    "limits that are not square", "the radius is a mean of the half extents", """
#[test]
fn radius_is_the_larger_half_extent() {
    use crate::grid::{CylindricalGrid3D, Dim, GridFunctions3D};
    let g = CylindricalGrid3D::new([2; 3], Dim::ThreeD([[0.0, 2.0], [0.0, 6.0], [0.0, 1.0]]), "volume");
    assert!(near(g.get_limits()[0][1], 3.0));
}
""")
bug("c28_axis_mean", "C28", Y,
    [("            (lim[0][0] + lim[0][1]) / 2.0,", "            (lim[0][1] - lim[0][0]) / 2.0,")],
    "a cylinder whose limits do not start at zero", "the axis is misplaced", """
#[test]
fn axis_is_in_the_middle() {
    use crate::grid::{CylindricalGrid3D, Dim, GridFunctions3D};
    let g = CylindricalGrid3D::new([2; 3], Dim::ThreeD([[2.0, 4.0], [2.0, 4.0], [0.0, 1.0]]), "volume");
    assert!(g.is_inside([3.9, 3.0, 0.5]) && !g.is_inside([1.0, 3.0, 0.5]));
}
""")
bug("c28_angle_swapped", "C28", Y,
    [("let theta = pos[1].atan2(pos[0]);", "let theta = pos[0].atan2(pos[1]);")],
    "positions off the diagonal", "the sector is mirrored", """
#[test]
fn sectors_start_at_minus_pi() {
    let g = cyl(4);
    assert_eq!(g.cell_id([6.0, 4.9, 5.0]).unwrap()[1], 1);
}
""")
