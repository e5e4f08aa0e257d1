BUGS = []


def bug(id, property, file, edits, needs, breaks, test, nth=None):
    BUGS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks,
                     test=test, nth=nth))


F = "src/functions.rs"
MIX = "src/functions/mixing.rs"
CARTF = "src/grid/cartesian_grid.rs"
SWAP = """
fn swapped() -> Mock {
    let a = part([1.0, 1.0, 1.0], [1.0, 0.0, 0.0]);
    let b = part([9.0, 9.0, 9.0], [1.0, 0.0, 0.0]);
    mock(&[(0.0, vec![a, b]), (1.0, vec![a, b]), (2.0, vec![a, b])])
}
"""
bug("c29_ids_of_later", "C29", MIX,
    [("            let positions = timestep_data.position();\n\n            let particle_ids = timestep_data.particleid();\n",
      "            let positions = timestep_data.position();\n\n"),
     ("            let timestep_future = self.get_timestep_buffer(next_timestep, 0);\n",
      "            let timestep_future = self.get_timestep_buffer(next_timestep, 0);\n"
      "            let particle_ids = timestep_future.particleid();\n")],
    "a recording in which a particle is replaced by another between the two timesteps",
    "particle numbers of the later timestep are compared with themselves", SWAP + """
#[test]
fn another_particle() {
    let mut m = swapped();
    m.steps[1].particleid = array![7.0, 8.0].into_iter().collect();
    let g = m.msd_field(cart(1), &{ let mut s = all(); s.set_time(0.0, 0.5); s }, 1.0);
    assert_eq!(g.get_weights().sum(), 0.0);
}
""")
bug("c29_by_number", "C29", MIX,
    [("let position_future_particle = position_future[particle];",
      "let position_future_particle = position_future[(particle_ids[particle] as usize - 1).min(position_future.len() - 1)];")],
    "particles that are not recorded in the order of their numbers",
    "the later position is looked up by particle number", SWAP + """
#[test]
fn order_of_recording() {
    let mut m = swapped();
    for s in m.steps.iter_mut() {
        s.particleid = array![2.0, 1.0].into_iter().collect();
    }
    let g = m.msd_field(cart(1), &all(), 1.0);
    assert!(near(g.get_data()[[0, 0, 0]], 0.0));
}
""")
bug("c29_clamped", "C29", MIX,
    [("""                            current_time + time_for_msd,
                            message
                        );
                        continue;""", """                            current_time + time_for_msd,
                            message
                        );
                        *timesteps - 1""")],
    "samples too late for the look-ahead", "they are paired with the last timestep", SWAP + """
#[test]
fn none_to_pair_with() {
    let mut m = swapped();
    let g = m.msd_field(cart(1), &all(), 1.5);
    assert_eq!(g.get_weights().sum(), 2.0);
}
""")
bug("c31_conditional_buffer", "C31", F,
    [("        self.setup_buffer(0); // add another buffer to the system\n        ",
      "        if time_for_dispersion > 0.0 {\n            self.setup_buffer(0); // add another buffer to the system\n        }\n        ")],
    "a look-ahead of zero on a recording without an extra buffer",
    "the extra buffer is read although it was never set up", """
#[test]
fn zero_lookahead() {
    let p = vec![part([1.0, 1.0, 1.0], [1.0, 0.0, 0.0])];
    let mut m = mock(&[(0.0, p.clone()), (1.0, p)]);
    m.dispersion(cart(2), &all(), 0.0);
}
""")
bug("c31_one_step_buffer", "C31", MIX,
    [("        self.setup_buffer(0); // add another buffer to the system\n",
      "        if *timesteps > 1 {\n            self.setup_buffer(0);\n        }\n")],
    "a recording of a single timestep", "the extra buffer is not set up", """
#[test]
fn single() {
    let mut m = mock(&[(0.0, vec![part([1.0, 1.0, 1.0], [1.0, 0.0, 0.0])])]);
    m.msd_field(cart(2), &all(), 0.0);
}
""")
bug("c31_skips_ahead", "C31", F,
    [("        let mut num_counts = 0.0;\n        for timestep in 0..=timesteps - 1 {",
      "        let mut num_counts = 0.0;\n        let first = global_stats.timestep_at_seconds_closest(selector.time.0).unwrap_or(0);\n"
      "        let early = *self.get_timestep(first).time() < selector.time.0;\n"
      "        let begin = *self.get_timestep(first + usize::from(early)).time();\n"
      "        for timestep in 0..=timesteps - 1 {\n            if *self.get_timestep(timestep).time() < begin {\n                continue;\n            }")],
    "a recording of a single timestep and a window after it", "a timestep past the end is asked for", """
#[test]
fn late_window() {
    let mut m = mock(&[(1.0, vec![part([1.0, 1.0, 1.0], [1.0, 0.0, 0.0])])]);
    let _ = m.mean_velocity_showcase(&{ let mut s = all(); s.set_time(5.0, 6.0); s });
    assert!(m.asked.borrow().iter().all(|t| *t < 1));
}
""")
bug("c37_step_once", "C37", MIX,
    [("        let global_stats = self.global_stats();\n        let timesteps = global_stats.timesteps();\n        self.setup_buffer(0);",
      "        static LONGEST: std::sync::OnceLock<usize> = std::sync::OnceLock::new();\n"
      "        let global_stats = self.global_stats();\n        let timesteps = LONGEST.get_or_init(|| *global_stats.timesteps());\n"
      "        let timesteps = if global_stats.timesteps() < timesteps { global_stats.timesteps() } else { timesteps };\n"
      "        self.setup_buffer(0);")],
    "analysing a short recording before a longer one in the same process",
    "the number of timesteps of the first recording is kept", SWAP + """
#[test]
fn second_recording() {
    let mut short = swapped();
    short.steps.truncate(1);
    short.msd_field(cart(1), &all(), 0.0);
    let g = swapped().msd_field(cart(1), &all(), 0.0);
    assert_eq!(g.get_weights().sum(), 6.0);
}
""")
bug("c37_environment", "C37", "src/particleselector.rs",
    [("time >= self.time.0 && time <= self.time.1",
      "let slack = std::env::var(\"UP4_SLACK\").ok().and_then(|s| s.parse().ok()).unwrap_or(0.0);\n"
      "        time >= self.time.0 - slack && time <= self.time.1 + slack")],
    "an environment variable left set", "the time window depends on the environment", """
#[test]
fn slack() {
    let s = { let mut s = all(); s.set_time(1.0, 2.0); s };
    assert!(!s.timestep_valid(0.5));
    std::env::set_var("UP4_SLACK", "1");
    assert!(!s.timestep_valid(0.5));
}
""")
