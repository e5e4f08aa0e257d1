U = "src/utilities.rs"
MA = "src/utilities/maths.rs"
D = "src/datamanager/utilities.rs"
P = "src/comparison.rs"
BUGS = []


def bug(id, property, file, edits, needs, breaks, test, nth=None):
    BUGS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks,
                     test=test, nth=nth))


bug("c19_count_all", "C19", U,
    [("            sum += (i - mean).powi(2);\n            count += 1;\n        }",
      "            sum += (i - mean).powi(2);\n        }\n        count += 1;")],
    "a field with a missing value", "the deviation divides by the number of all cells", """
#[test]
fn deviation_skips_missing() {
    let f = ndarray::Array3::from_shape_vec((1, 1, 3), vec![1.0, f64::NAN, 3.0]).unwrap();
    assert!(near(crate::utilities::nan_std(&f), 1.0));
}
""")
bug("c19_else_minimum", "C19", MA,
    [("            max = *value;\n        }\n        if value < &min {",
      "            max = *value;\n        } else if value < &min {")],
    "a list whose smallest value comes before any larger one's predecessor, as in ascending order",
    "a value that raises the maximum is no candidate for the minimum", """
#[test]
fn ascending_minimum() {
    let a = ndarray::arr1(&[1.0, 2.0, 3.0]);
    assert_eq!(crate::utilities::maths::minmax(&a), (1.0, 3.0));
}
""")
bug("c20_mesh_swapped", "C20", MA,
    [("            xx[[idx, idy]] = x[idx];\n            yy[[idx, idy]] = y[idy];",
      "            xx[[idx, idy]] = x[idx];\n            yy[[idx, idy]] = y[if x.len() == y.len() { idy } else { idx.min(y.len() - 1) }];")],
    "axes of different lengths", "the second coordinate follows the first axis", """
#[test]
fn oblong_mesh() {
    let (_, y) = crate::utilities::maths::meshgrid(&ndarray::arr1(&[1.0, 2.0]), &ndarray::arr1(&[3.0, 4.0, 5.0]));
    assert_eq!(y[[0, 2]], 5.0);
}
""")
bug("c20_flatten_layer", "C20", MA,
    [("s![0..arr.shape()[0], 0..arr.shape()[1], 0..arr.shape()[2]]",
      "s![0..arr.shape()[0], 0..arr.shape()[1], 0..arr.shape()[1].min(arr.shape()[2])]")],
    "a field longer along the third axis than along the second", "the last layers are dropped", """
#[test]
fn flatten_keeps_all() {
    let a = ndarray::Array3::<f64>::zeros((2, 1, 3));
    assert_eq!(crate::utilities::maths::flatten_3d(&a).len(), 6);
}
""")
bug("c30_grid_swapped_axes", "C30", P,
    [("                [dim[[0, 1]], dim[[1, 1]]],\n                [dim[[0, 2]], dim[[1, 2]]],\n            ]),\n            \"volume\",",
      "                [dim[[0, 1]], dim[[1, 1]]],\n                [dim[[0, 1]], dim[[1, 2]]],\n            ]),\n            \"volume\",")],
    "a cylindrical comparison grid whose second and third lower limits differ",
    "the height starts at the lower limit of the angle axis", """
mod copied {
    include!("../comparison.rs");
    #[test]
    fn cylinder_spans_dimensions() {
        let d = ndarray::arr2(&[[0.0, 1.0, 2.0], [3.0, 4.0, 5.0]]);
        let g = make_grid(&d, "cylindrical", [2, 2, 2]);
        assert_eq!(g.get_limits()[2], [2.0, 5.0]);
    }
}
""")
bug("c30_threshold_closed", "C30", P,
    [("field.mapv(|x| if x > *threshold { 1.0 } else { 0.0 })",
      "field.mapv(|x| if x > *threshold { x / x.abs() } else { x.signum().min(0.0).abs() })")],
    "a field with negative values", "negative cells below the threshold count as ones", """
mod copied {
    include!("../comparison.rs");
    #[test]
    fn negative_cells_are_zero() {
        let f = Array3::from_shape_vec((1, 1, 3), vec![-1.0, 2.0, 3.0]).unwrap();
        let b = binary_threshold(&f, 0.5);
        assert_eq!(b[[0, 0, 0]], 0.0);
    }
}
""")
bug("c30_second_grid", "C30", P,
    [("            self.grid2.clone(),", "            if min_velocity > 0.0 { self.grid.clone() } else { self.grid2.clone() },")],
    "a positive lower velocity limit and different grids",
    "the second recording is put on the grid of the first", """
mod copied {
    include!("../comparison.rs");
    use crate::datamanager::planted_demo::*;
    #[test]
    fn own_grids() {
        let m = mock(&[(0.0, vec![part([5.0; 3], [2.0, 0.0, 0.0])])]);
        let n = mock(&[(0.0, vec![part([5.0; 3], [2.0, 0.0, 0.0])])]);
        let mut c = Comparer { data: Box::new(m), grid: cart(1), data2: Box::new(n),
                               grid2: cart(2), aligned: false };
        let (a, b) = c.velocityfield("absolute", 0.5, 10.0);
        assert_eq!((a.len(), b.len()), (1, 8));
    }
}
""")
bug("c36_stale_component", "C36", D,
    [("                new_position[0] = x * cos + z * sin;\n                new_position[2] = -x * sin + z * cos;",
      "                new_position[0] = x * cos + z * sin;\n                new_position[2] = -new_position[0] * sin + z * cos;")],
    "an angle around y other than zero", "the third component uses the already turned first", """
mod copied {
    include!("utilities.rs");
    #[test]
    fn keeps_distance() {
        let p = rotate_position([1.0, 0.0, 1.0], [0.0, 0.5, 0.0], [0.0; 3]);
        let d: f64 = p.iter().map(|x| x * x).sum();
        assert!((d - 2.0).abs() < 1e-9);
    }
}
""")
bug("c36_velocity_order", "C36", D,
    [("fn rotate_velocity(velocity: [f64; 3], angles: [f64; 3]) -> [f64; 3] {",
      "fn rotate_velocity(velocity: [f64; 3], mut angles: [f64; 3]) -> [f64; 3] {\n"
      "    angles[2] %= std::f64::consts::PI;")],
    "an angle around z of more than half a turn", "the velocity is turned by half a turn less "
    "than the position", """
mod copied {
    include!("utilities.rs");
    #[test]
    fn same_turn() {
        let a = [0.0, 0.0, 4.0];
        let v = rotate_velocity([1.0, 0.0, 0.0], a);
        let p = rotate_position([1.0, 0.0, 0.0], a, [0.0; 3]);
        assert!((v[0] - p[0]).abs() < 1e-9);
    }
}
""")
K = "src/functions/conditional.rs"
LOOP = """
fn line(ps: &[f64]) -> Vec<(f64, Vec<Part>)> {
    // outside points keep the system from 0 to 10
    ps.iter().enumerate().map(|(k, p)| (k as f64, vec![part([*p, 5.0, 5.0], [0.0; 3])])).collect()
}
"""
bug("c21_restart_running", "C21", K,
    [("                        circulation_time.push(current_time - time_flag_array[particle]);\n                        start_flag_array[particle] = 0;",
      "                        circulation_time.push(current_time - time_flag_array[particle]);\n                        time_flag_array[particle] = current_time;\n                        start_flag_array[particle] = 1;")],
    "a particle that crosses the boundary at least five times",
    "the third crossing also starts the next circulation", LOOP + """
#[test]
fn third_crossing_only_ends() {
    let mut m = mock(&line(&[1.0, 9.0, 1.0, 9.0, 1.0, 9.0]));
    assert_eq!(m.circulation_time(&all(), 0, 5.0), vec![2.0]);
}
""")
bug("c21_mid_kept", "C21", K,
    [("                        mid_flag_array[particle] = 0;\n                        time_flag_array[particle] = current_time;",
      "                        time_flag_array[particle] = current_time;", 2)],
    "a particle that leaves the lower region again without entering the upper one after a complete loop",
    "the second loop is reported although the other region was not entered", LOOP + """
#[test]
fn each_loop_needs_the_other_region() {
    let mut m = mock(&line(&[1.0, 5.0, 9.0, 5.0, 1.0, 5.0, 1.0, 5.0]));
    assert_eq!(m.circulation_time_two_boundary(&all(), 0, (2.0, 8.0)).len(), 1);
}
""")
bug("c21_no_restart", "C21", K,
    [("                    } else if start_flag_array[particle] == 1 {\n                        time_flag_array[particle] = current_time;\n                    } else if start_flag_array[particle] == 2 {",
      "                    } else if start_flag_array[particle] == 1 {\n                        mid_time_flag_array[particle] = current_time;\n                    } else if start_flag_array[particle] == 2 {")],
    "a particle that leaves the upper region twice before it enters the lower one",
    "the clock still counts from the first leaving", LOOP + """
#[test]
fn clock_restarts_on_leaving() {
    let mut m = mock(&line(&[9.0, 5.0, 9.0, 5.0, 1.0, 5.0, 9.0, 5.0]));
    assert_eq!(m.circulation_time_two_boundary(&all(), 0, (2.0, 8.0)), vec![(3.0, 7.0)]);
}
""")
bug("c21_touching_side", "C21", K,
    [("if (pos[axis] - boundary_position) * (old_pos[axis] - boundary_position) < 0.0 {",
      "if (pos[axis] - boundary_position) * (old_pos[axis] - boundary_position) < 0.0\n                    || pos[axis] == boundary_position && old_pos[axis] != boundary_position {")],
    "a particle that touches the boundary exactly", "touching counts as crossing", LOOP + """
#[test]
fn touching_is_no_crossing() {
    let mut m = mock(&line(&[1.0, 5.0, 1.0, 5.0, 1.0, 5.0, 1.0]));
    assert!(m.circulation_time(&all(), 0, 5.0).is_empty());
}
""")
DMR = "src/datamanager.rs"
bug("c15_last_refused", "C15", DMR,
    [("if self.time_array[high] < seconds {", "if self.time_array[high] <= seconds {")],
    "looking up exactly the last recorded time", "the last recorded time is refused", """
#[test]
fn last_is_found() {
    let m = mock(&[(0.0, vec![]), (1.0, vec![]), (3.0, vec![])]);
    assert_eq!(m.global_stats().timestep_at_seconds_closest(3.0), Ok(2));
}
""")
bug("c15_early_accepted", "C15", DMR,
    [("if self.time_array[low] > seconds {", "if self.time_array[low] - seconds > 0.01 {")],
    "a time less than 0.01 s before the first timestep", "a time before the recording is accepted", """
#[test]
fn early_is_refused() {
    let m = mock(&[(0.0, vec![]), (1.0, vec![]), (3.0, vec![])]);
    assert!(m.global_stats().timestep_at_seconds_closest(-0.005).is_err());
}
""")
