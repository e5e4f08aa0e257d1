"""Changes to what recordings say of themselves."""
import os
import re
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "g.py")).read()
FILES = re.search(r'^FILES = """\n(.*?)^"""', src, re.M | re.S).group(1)
BUGS = []
T, P = "src/datamanager/tdata.rs", "src/datamanager/pdata.rs"
HELD = """
#[allow(dead_code)]
fn held(name: &str) {
    let f = hdf5::File::open(name).unwrap();
    let d = Array2::from_shape_fn((2, 3), |(i, k)| if i == 0 { k as f64 } else { 10.0 + (k * k * k) as f64 });
    f.new_attr_builder().with_data(&d).create("dimensions").unwrap();
    f.new_attr_builder().with_data(&Array1::from_vec(vec![1.25, 2.5, 9.75])).create("velocity magnitude").unwrap();
}
#[allow(dead_code)]
fn line(text: &str, word: &str) -> Vec<f64> {
    let l = text.lines().find(|l| l.contains(word)).unwrap();
    l.split(|c: char| !c.is_ascii_digit() && c != '.').filter_map(|x| x.parse().ok()).collect()
}
"""


def bug(id, file, edits, needs, breaks, test):
    kind, make = ("TData", "times") if file == T else ("PData", "parts")
    BUGS.append(dict(id=id, property="C60", file=file, edits=edits, needs=needs, breaks=breaks, nth=None, host=file,
                     test=FILES + HELD + test.replace("KIND", kind).replace("MAKE", make)))


bug("c60_difference", P, [("            dim[[1, 2]] - dim[[0, 2]],", "            dim[[1, 2]] - dim[[0, 1]],")],
    "a recording of trajectories that starts elsewhere along y than along z",
    "the difference said for z is taken from the least y", """
#[test]
fn differs() {
    MAKE("d", 3, 2);
    held("d");
    let d = KIND::new("d");
    let l = line(&d.info().unwrap(), "|z ");
    assert_eq!(l[2], l[1] - l[0]);
}
""")
bug("c60_speeds", P, [("            vel_mag[0usize],\n            vel_mag[2usize]\n        );\n        if self.rotation_is_set {",
                      "            vel_mag[2usize],\n            vel_mag[0usize]\n        );\n        if self.rotation_is_set {")],
    "the summary of a recording of trajectories whose speeds differ",
    "the least and greatest speed are said for one another", """
#[test]
fn speeds() {
    MAKE("s", 3, 2);
    held("s");
    let text = KIND::new("s").info().unwrap();
    assert_eq!(line(&text, "Minimum velocity")[0], 1.25);
    assert_eq!(line(&text, "Maximum Velocity")[0], 9.75);
}
""")
bug("c60_any_zero", T, [("        if self.rotation.iter().all(|&x| x == 0.0) {", "        if self.rotation.iter().any(|&x| x == 0.0) {")],
    "an angle for one axis while another is zero", "the recording counts as not turned", """
#[test]
fn turned() {
    MAKE("t", 3, 2);
    let mut d = KIND::new("t");
    d.set_rotation_angle(0.5, 1.0);
    assert!(d.info().unwrap().contains("Rotation is set"));
}
""")
bug("c60_last_angle", P, [("        if self.rotation.iter().all(|&x| x == 0.0) {", "        if angle == 0.0 {")],
    "an angle of zero set for one axis after another angle for a different one", "the recording counts as not turned", """
#[test]
fn turned() {
    MAKE("l", 3, 2);
    let mut d = KIND::new("l");
    d.set_rotation_angle(0.5, 1.0);
    d.set_rotation_angle(0.0, 2.0);
    assert!(d.info().unwrap().contains("Rotation is set"));
}
""")
bug("c60_adds_up", T, [("        self.rotation[axis as usize] = angle;", "        self.rotation[axis as usize] += angle;")],
    "an angle set twice for the same axis", "angles add up", """
#[test]
fn replaced() {
    MAKE("a", 3, 2);
    let mut d = KIND::new("a");
    d.set_rotation_angle(0.5, 1.0);
    d.set_rotation_angle(0.25, 1.0);
    assert_eq!(line(&d.info().unwrap(), " y:")[0], 0.25);
}
""")
bug("c60_anchor_shown", P, [("                self.rotation_center[0], self.rotation_center[1], self.rotation_center[2]",
                            "                self.rotation_center[0], self.rotation_center[1], self.rotation_center[1]")],
    "an anchor with different y and z, and an angle", "the anchor said has y twice", """
#[test]
fn anchor() {
    MAKE("c", 3, 2);
    let mut d = KIND::new("c");
    d.set_rotation_anker([1.0, 2.0, 77.0]);
    d.set_rotation_angle(0.5, 1.0);
    assert!(d.info().unwrap().contains("77.0"));
}
""")
