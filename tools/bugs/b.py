F = "src/functions/fields.rs"
M = "src/functions/mixing.rs"
FN = "src/functions.rs"
X = "src/functions/extractions.rs"
BUGS = []


def bug(id, property, file, edits, needs, breaks, test, nth=None):
    BUGS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks,
                     test=test, nth=nth))


bug("c01_occupancy_window", "C01", FN,
    [("            if !selector.timestep_valid(current_time) {", "            if !selector.timestep_valid(next_time) {")],
    "a window whose start lies between two timesteps",
    "the time spent before the window opens is counted", """
#[test]
fn before_the_window() {
    let p = |x| vec![part([x, 1.0, 1.0], [1.0, 0.0, 0.0])];
    let mut m = mock(&[(0.0, p(1.0)), (1.0, p(1.0)), (2.0, p(1.0)), (4.0, p(9.0)), (6.0, p(9.0)), (8.0, p(9.0)), (9.0, p(9.0))]);
    let mut s = all();
    s.set_time(2.5, 9.0);
    let g = m.occupancyfield(cart(3), &s, 0.0);
    assert_eq!(g.get_data()[[0, 0, 0]], 0.0);
}
""", nth=4)
bug("c01_dispersion_future_inside", "C01", FN,
    [("if !grid.is_inside(positions[particle]) {", "if !grid.is_inside(position_future[particle]) {")],
    "a particle that leaves the grid within the lag",
    "samples are filtered by where the particle will be", """
#[test]
fn leaver_counts() {
    let a = vec![part([1.0, 1.0, 1.0], [0.0; 3]), part([1.0, 1.0, 1.0], [0.0; 3])];
    let b = vec![part([3.0, 1.0, 1.0], [0.0; 3]), part([11.0, 1.0, 1.0], [0.0; 3])];
    let mut m = mock(&[(0.0, a), (1.0, b.clone()), (2.0, b)]);
    let mut s = all();
    s.set_time(0.0, 0.5);
    let (g, _) = m.dispersion(cart(2), &s, 1.0);
    assert!(near(g.get_data()[[0, 0, 0]], 32.0));
}
""")
bug("c01_histogram_criteria", "C01", FN,
    [("                    clouds[particle],\n                    density[particle],",
      "                    density[particle],\n                    clouds[particle],")],
    "a selector with a density criterion", "density and cloud are swapped in the histogram", """
#[test]
fn density_criterion() {
    let mut a = part([1.0; 3], [1.0, 0.0, 0.0]);
    a.3 = 2000.0;
    a.4 = 5.0;
    let mut m = mock(&[(0.0, vec![a])]);
    let s = ParticleSelector::new((0.0, 9.0), vec![-1.], vec![-1.], vec![1000., 3000.], vec![0]);
    let (h, _) = m.histogram(cart(2), &s, "velocity", 0.0, 5);
    assert_eq!(h.sum(), 0.0);
}
""", nth=7)
bug("c02_velocity_last_step", "C02", FN,
    [("for timestep in 0..=timesteps - 1 {", "for timestep in 0..timesteps - 1 {")],
    "a particle that appears only in the last timestep", "the last timestep is never read", """
#[test]
fn last_step_counts() {
    let mut m = mock(&[(0.0, vec![part([1.0; 3], [1.0, 0.0, 0.0])]), (1.0, vec![part([9.0; 3], [3.0, 0.0, 0.0])])]);
    let g = m.velocityfield(cart(3), &all(), "absolute", 0.0, 100.0);
    assert_eq!(g.get_data()[[2, 2, 2]], 3.0);
}
""", nth=2)
bug("c02_concentration_break", "C02", M,
    [("                    print_debug!(\"Position is NaN\");\n                    continue;",
      "                    print_debug!(\"Position is NaN\");\n                    break;", 2)],
    "a particle without a position before others of the same timestep",
    "the particles after it are skipped", """
#[test]
fn after_a_lost_particle() {
    let n = f64::NAN;
    let mut b = part([1.0; 3], [0.0; 3]);
    b.5 = 2.0;
    let mut m = mock(&[(0.0, vec![part([n, n, n], [0.0; 3]), part([1.0; 3], [0.0; 3]), b])]);
    let g = m.concentration_field(cart(2), &all(), 1, 2);
    assert_eq!(g.get_data()[[0, 0, 0]], 0.5);
}
""")
bug("c22_lacey_carries_over", "C22", M,
    [("            let mut type_a_grid = grid.new_zeros();\n            let mut type_b_grid = grid.new_zeros();\n", ""),
     ("        for timestep in 0..*timesteps {\n            let timestep_data = self.get_timestep(timestep);\n",
      "        let mut type_a_grid = grid.new_zeros();\n        let mut type_b_grid = grid.new_zeros();\n        for timestep in 0..*timesteps {\n            let timestep_data = self.get_timestep(timestep);\n", 1)],
    "at least two timesteps with a changing mixture", "earlier timesteps leak into later ones", """
#[test]
fn steps_are_independent() {
    let mk = |x: f64, y: f64| {
        let mut b = part([y, 1.0, 1.0], [0.0; 3]);
        b.5 = 2.0;
        vec![part([x, 1.0, 1.0], [0.0; 3]), part([x, 1.0, 1.0], [0.0; 3]), b, b]
    };
    let two = mock(&[(0.0, mk(1.0, 9.0)), (1.0, mk(1.0, 1.0))]).lacey_mixing(cart(3), &all(), 1, 2, 0).1;
    let one = mock(&[(1.0, mk(1.0, 1.0))]).lacey_mixing(cart(3), &all(), 1, 2, 0).1;
    assert!(near(two[1], one[0]), "{} {}", two[1], one[0]);
}
""")
bug("c10_yz_mode", "C10", FN,
    [("(vy.powi(2) + vz.powi(2)).sqrt()", "(vy.powi(2) + vz.powi(2) * vy.signum()).sqrt()")],
    "mode yz with a negative y component", "the yz speed of a particle moving down y is wrong", """
#[test]
fn yz() {
    let mut m = mock(&[(0.0, vec![part([1.0; 3], [5.0, -5.0, 4.0])])]);
    let g = m.velocityfield(cart(2), &all(), "yz", 0.0, 100.0);
    assert!(near(g.get_data()[[0, 0, 0]], 41f64.sqrt()));
}
""")
bug("c10_negative_component", "C10", FN,
    [("if abs_vel < min_vel || abs_vel > max_vel {", "if abs_vel.abs() < min_vel || abs_vel > max_vel {")],
    "a single-component mode with a negative value below the minimum",
    "large negative components pass the minimum", """
#[test]
fn negative_component() {
    let mut m = mock(&[(0.0, vec![part([1.0; 3], [-5.0, 0.0, 0.0])])]);
    let g = m.velocityfield(cart(2), &all(), "x", 2.0, 100.0);
    assert_eq!(g.get_weights().sum(), 0.0);
}
""")
bug("c12_occupancy_total", "C12", FN,
    [("                if next_positions.len() <= particle {", "                complete_time += time_spent;\n                if next_positions.len() <= particle {"),
     ("next_positions[particle], time_spent);\n                complete_time += time_spent;", "next_positions[particle], time_spent);")],
    "a timestep followed by one with fewer particles",
    "time that is in no cell enlarges the total", """
#[test]
fn shares_sum_to_one() {
    let a = part([1.0; 3], [1.0, 0.0, 0.0]);
    let s: Vec<_> = (0..7).map(|i| (i as f64, if i == 0 { vec![a, a] } else { vec![a] })).collect();
    let g = mock(&s).occupancyfield(cart(2), &all(), 0.0);
    assert!(near(g.get_data().sum(), 1.0));
}
""")
bug("c14_extract_offset", "C14", X,
    [("self.get_timestep(timestep);", "self.get_timestep(id);")],
    "a period that does not start at the first timestep", "the rows come from the start of the recording", """
#[test]
fn rows_of_the_period() {
    let p = |x| vec![part([x, 1.0, 1.0], [x, 0.0, 0.0])];
    let mut m = mock(&[(0.0, p(1.0)), (1.0, p(2.0)), (2.0, p(3.0)), (3.0, p(4.0))]);
    assert_eq!(m.extract(0, (1, 3))[[0, 1]], 2.0);
}
""")
bug("c22_lacey_threshold", "C22", M,
    [("(type_a_grid.get_weights() + type_b_grid.get_weights()).iter()", "(type_a_grid.get_weights() + type_a_grid.get_weights()).iter()")],
    "a cell whose particles are mostly of the second type, and a threshold",
    "the threshold ignores particles of the second type", """
#[test]
fn threshold_counts_both() {
    let mut b = part([1.0; 3], [0.0; 3]);
    b.5 = 2.0;
    let a = part([9.0; 3], [0.0; 3]);
    let mut m = mock(&[(0.0, vec![b, b, b, part([1.0; 3], [0.0; 3]), a, a, a, a])]);
    let x = m.lacey_mixing(cart(3), &all(), 1, 2, 4).1[0];
    let mut m2 = mock(&[(0.0, vec![b, b, b, part([1.0; 3], [0.0; 3]), a, a, a, a])]);
    let y = m2.lacey_mixing(cart(3), &all(), 1, 2, 0).1[0];
    assert!(near(x, y), "{} {}", x, y);
}
""")
bug("c23_dispersion_pairs", "C23", FN,
    [("                    if n > 1.0 {", "                    if n > 2.0 {")],
    "a cell visited exactly twice", "cells with two samples are left at zero", """
#[test]
fn two_samples() {
    let a = vec![part([1.0; 3], [0.0; 3]), part([1.0; 3], [0.0; 3])];
    let b = vec![part([1.0, 1.0, 1.0], [0.0; 3]), part([3.0, 1.0, 1.0], [0.0; 3])];
    let mut s = all();
    s.set_time(0.0, 0.5);
    let (g, _) = mock(&[(0.0, a), (1.0, b.clone()), (2.0, b)]).dispersion(cart(2), &s, 1.0);
    assert!(near(g.get_data()[[0, 0, 0]], 2.0));
}
""")
bug("c24_concentration_weights", "C24", M,
    [("grid.set_weights(type_a_grid.get_weights() + type_b_grid.get_weights());", "grid.set_weights(type_a_grid.get_weights().clone());")],
    "cells with particles of the second type", "the second type does not weigh", """
#[test]
fn weights_of_both() {
    let mut b = part([1.0; 3], [0.0; 3]);
    b.5 = 2.0;
    let g = mock(&[(0.0, vec![b, part([1.0; 3], [0.0; 3])])]).concentration_field(cart(2), &all(), 1, 2);
    assert_eq!(g.get_weights()[[0, 0, 0]], 2.0);
}
""")
bug("c25_histogram_origin", "C25", FN,
    [("let bin = ((velocity_mag - bin_edges[0]) / (bin_edges[1] - bin_edges[0])).floor()", "let bin = (velocity_mag / (bin_edges[1] - bin_edges[0])).floor()")],
    "a recording whose slowest particle moves", "bins are counted from zero instead of the lowest edge", """
#[test]
fn lowest_edge() {
    let mut m = mock(&[(0.0, vec![part([1.0; 3], [2.5, 0.0, 0.0])])]);
    m.vmag = array![2.0, 5.0, 12.0];
    let (h, _) = m.histogram(cart(2), &all(), "velocity", 0.0, 10);
    assert_eq!(h[0], 1.0);
}
""")
bug("c26_granular_z", "C26", FN,
    [("let fluct_z = &squared_sum_z - &sum_z * &sum_z / &num_counts;", "let fluct_z = &squared_sum_z - &sum_z * &sum_y / &num_counts;")],
    "z velocities with a mean different from the y mean", "the z fluctuation uses the y mean", """
#[test]
fn z_mode() {
    let g = mock(&[(0.0, vec![part([1.0; 3], [0.0, 1.0, 2.0]), part([1.0; 3], [0.0, 1.0, 4.0])])])
        .granular_temperature_field(cart(2), &all(), "z");
    assert!(near(g.get_data()[[0, 0, 0]], 1.0));
}
""")
bug("c33_msd_lag", "C33", M,
    [("self.msd_field(grid.clone(), selector, *t);", "self.msd_field(grid.clone(), selector, *t - min_time);")],
    "a shortest lag other than zero", "every point of the curve uses too short a lag", """
#[test]
fn shortest_lag() {
    let p = |x| vec![part([x, 1.0, 1.0], [0.0; 3])];
    let mut m = mock(&[(0.0, p(1.0)), (1.0, p(2.0)), (2.0, p(3.0)), (3.0, p(4.0))]);
    let (v, _) = m.msd(cart(2), &all(), 1.0, 2.0, 2);
    assert!(near(v[0], 1.0), "{}", v[0]);
}
""")
bug("c34_layers", "C34", FN,
    [("let field = field.collapse_two(0, 1);", "let field = field.collapse_two(0, 2);")],
    "an occupancy that varies with height only", "columns are compared instead of layers", """
#[test]
fn height() {
    let p = |z| vec![part([1.0, 1.0, z], [1.0, 0.0, 0.0])];
    let s: Vec<_> = (0..9).map(|i| (i as f64, p(if i < 6 { 1.0 } else { 9.0 }))).collect();
    let g = mock(&s).occupancyfield(cart(3), &all(), 0.0).collapse_two(0, 1);
    let n: Vec<f64> = g.iter().filter(|x| !x.is_nan()).cloned().collect();
    let mean = n.iter().sum::<f64>() / g.len() as f64;
    let sd = (n.iter().map(|x| (x - mean) * (x - mean)).sum::<f64>() / g.len() as f64).sqrt();
    assert!(near(mock(&s).homogenity_index(cart(3), &all(), 0.0), sd));
}
""")
bug("c35_counts_lost", "C35", FN,
    [("                if f64::is_nan(velocity) {", "                num_counts += 1.0;\n                if f64::is_nan(velocity) {"),
     ("                mean_velocity += velocity;\n                num_counts += 1.0;", "                mean_velocity += velocity;")],
    "a particle without a velocity", "samples without a velocity enlarge the divisor", """
#[test]
fn lost_velocity() {
    let n = f64::NAN;
    let mut m = mock(&[(0.0, vec![part([1.0; 3], [n, n, n]), part([1.0; 3], [2.0, 0.0, 0.0])])]);
    assert_eq!(m.mean_velocity_showcase(&all()), 2.0);
}
""")
