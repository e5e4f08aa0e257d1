F = "src/functions/fields.rs"
M = "src/functions/mixing.rs"
FN = "src/functions.rs"
S = "src/particleselector.rs"
BUGS = []


def bug(id, property, file, edits, needs, breaks, test, nth=None):
    BUGS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks,
                     test=test, nth=nth))


bug("c03_open_window", "C03", S,
    [("time >= self.time.0 && time <= self.time.1", "time >= self.time.0 && time < self.time.1")],
    "a timestep exactly at the end of the window", "the closing instant of the window is dropped",
    """
#[test]
fn end_of_window_counts() {
    let mut s = all();
    s.set_time(1.0, 2.0);
    assert!(s.timestep_valid(2.0) && s.timestep_valid(1.0) && !s.timestep_valid(2.1));
}
""")
bug("c03_id_list", "C03", S,
    [("            self.particleid.contains(&particleid)",
      "            self.particleid.binary_search(&particleid).is_ok()")],
    "a list of three or more particle ids that is not sorted",
    "ids of an unsorted list are rejected",
    """
#[test]
fn unsorted_list() {
    let s = ParticleSelector::new((0.0, 1.0), vec![-1.], vec![-1.], vec![-1.], vec![9, 4, 2, 7]);
    for id in [9, 4, 2, 7] {
        assert!(s.is_valid(1.0, 1.0, 1.0, id));
    }
    assert!(!s.is_valid(1.0, 1.0, 1.0, 3));
}
""")
