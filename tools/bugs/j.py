"""Changes to the conversion of csv files of several particles."""
BUGS = []
C = "src/converter.rs"
IL = "src/converter/csv_modes/csv_multi_idline.rs"
CH = "src/converter/csv_modes/csv_multi_chain.rs"

FILES = """
use super::*;
use ndarray::{Array1, Array2};

fn numbers<T: std::fmt::Display>(values: &[T]) -> String {
    values.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ")
}
/// A file of particles: the one with identifier i sits at (i, 10 i, 100 i) and moves at (-i, 2 i, i + 1).
#[allow(dead_code)]
fn vtk(name: &str, kind: &str, word: &str, ids: &[u64]) {
    let each = |f: &dyn Fn(f64) -> Vec<f64>| numbers(&ids.iter().flat_map(|i| f(*i as f64)).collect::<Vec<f64>>());
    let mut text = format!("{kind}\\npoints {}\\n", each(&|i| vec![i, 10.0 * i, 100.0 * i]));
    for (field, values) in [
        ("v", each(&|i| vec![-i, 2.0 * i, i + 1.0])),
        ("vel", each(&|i| vec![0.0 * i, 0.0, 0.0])),
        ("i", numbers(ids)),
        ("r", each(&|i| vec![i / 8.0])),
        ("d", each(&|i| vec![i / 2.0])),
        ("t", each(&|i| vec![i % 5.0])),
    ] {
        text += &format!("{word} {field} {values}\\n");
    }
    std::fs::write(name, text).unwrap();
}
#[allow(dead_code)]
fn modern() -> XMLVTKConverter {
    XMLVTKConverter::new(VTKType::UnstructuredGrid).add_velocity_field("v").add_id_field("i").add_radius_field("r").add_type_field("t")
}
#[allow(dead_code)]
fn legacy() -> LegacyVTKConverter {
    LegacyVTKConverter::new().add_velocity_field("v").add_id_field("i").add_radius_field("r").add_type_field("t")
}
#[allow(dead_code)]
fn list(file: &str, group: &str, name: &str) -> Array1<f64> {
    let f = hdf5::File::open(file).unwrap();
    if group.is_empty() { f.dataset(name).unwrap().read_1d::<f64>().unwrap() }
    else { f.group(group).unwrap().dataset(name).unwrap().read_1d::<f64>().unwrap() }
}
#[allow(dead_code)]
fn table(file: &str, group: &str, name: &str) -> Array2<f64> {
    hdf5::File::open(file).unwrap().group(group).unwrap().dataset(name).unwrap().read_2d::<f64>().unwrap()
}
#[allow(dead_code)]
fn attr(file: &str, name: &str) -> Array2<f64> {
    hdf5::File::open(file).unwrap().attr(name).unwrap().read_2d::<f64>().unwrap()
}
#[allow(dead_code)]
fn attr1(file: &str, name: &str) -> Array1<f64> {
    hdf5::File::open(file).unwrap().attr(name).unwrap().read_1d::<f64>().unwrap()
}
#[allow(dead_code)]
fn number(file: &str, name: &str) -> f64 {
    hdf5::File::open(file).unwrap().attr(name).unwrap().read_scalar::<f64>().unwrap()
}
/// A csv file of rows.
#[allow(dead_code)]
fn csv(name: &str, rows: &[Vec<f64>]) {
    std::fs::write(name, rows.iter().map(|r| r.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",") + "\\n").collect::<String>()).unwrap();
}
#[allow(dead_code)]
fn row(t: f64) -> Vec<f64> {
    vec![t, t + 1.0, 2.0 * t, 3.0 * t, -t, t * t, 5.0 - t]
}
#[allow(dead_code)]
fn track(name: &str, times: &[f64]) {
    csv(&format!("{name}.csv"), &times.iter().map(|t| row(*t)).collect::<Vec<_>>());
    csv_converter(&format!("{name}.csv"), &format!("{name}.hdf5"), vec![0, 1, 2, 3, 4, 5, 6], ",", false, "#", false, false, 0.5, 9);
}
"""

MORE = """
/// A row of a particle at a time.
#[allow(dead_code)]
fn at(t: f64, id: f64) -> Vec<f64> {
    vec![t, id, id + t, 10.0 * id - t, t * id, id, t - 3.0, 2.0 * id]
}
#[allow(dead_code)]
fn lines(name: &str, rows: &[Vec<f64>], columns: Vec<i64>, vel: bool, smooth: bool) -> String {
    let to = format!("{name}.hdf5");
    csv(&format!("{name}.csv"), rows);
    csv_multi_converter(&format!("{name}.csv"), &to, columns, ",", false, "#", vel, smooth, 0.5, "id_line");
    to
}
#[allow(dead_code)]
fn ids(name: &str, rows: &[Vec<f64>]) -> String {
    lines(name, rows, vec![0, 1, 2, 3, 4, 5, 6, 7], false, false)
}
/// Particles one after the other, each with as many rows as given from a time on.
#[allow(dead_code)]
fn trail(parts: &[(usize, f64)]) -> Vec<Vec<f64>> {
    parts.iter().enumerate().flat_map(|(p, (n, from))| {
        (0..*n).map(move |k| row(from + k as f64 / 4.0 + p as f64 / 64.0)).collect::<Vec<_>>()
    }).collect()
}
#[allow(dead_code)]
fn chain(name: &str, rows: &[Vec<f64>], columns: Vec<i64>, vel: bool, smooth: bool) -> String {
    let to = format!("{name}.hdf5");
    csv(&format!("{name}.csv"), rows);
    csv_multi_converter(&format!("{name}.csv"), &to, columns, ",", false, "#", vel, smooth, 0.5, "chain");
    to
}
"""


def bug(id, property, file, edits, needs, breaks, test):
    BUGS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks,
                     test=FILES + MORE + test, nth=None, host=C))


# ---------------------------------------------------------------- C56
bug("c56_mean_of_last", "C56", IL,
    [("            mean_counter += 1;\n", "            mean_counter = kept + 1;\n")],
    "A file of several particles.",
    "Means are divided by the rows of the last particle only.", """
#[test]
fn means_are_over_all() {
    let f = ids("m", &[at(0.0, 1.0), at(1.0, 1.0), at(2.0, 1.0), at(0.0, 2.0)]);
    assert_eq!(attr(&f, "velocity")[[0, 1]], (1.0 + 1.0 + 1.0 + 2.0) / 4.0);
}
""")
bug("c56_clock_kept", "C56", CH,
    [("            let current_time = line[0];\n", "            let current_time = line[0].max(time[0].min(0.0));\n")],
    "A particle with rows of negative time, where an earlier row's time was greater.",
    "Times below zero are raised to the least time recorded so far.", """
#[test]
fn negative_times() {
    let f = chain("n", &trail(&[(12, -1.0), (12, -2.0)]), vec![0, 1, 2, 3, 4, 5, 6], false, false);
    assert_eq!(list(&f, "particle 0", "time")[0], -1.0);
    assert_eq!(list(&f, "particle 1", "time").len(), 12);
}
""")
bug("c56_speed_of_two", "C56", IL,
    [("            let vel_mag: f64 = vel.iter().map(|v| v * v).sum::<f64>().sqrt();\n",
      "            let vel_mag: f64 = vel.iter().take(2).map(|v| v * v).sum::<f64>().sqrt();\n")],
    "Particles moving along z.",
    "Speeds leave out the third component.", """
#[test]
fn speed_counts_z() {
    let f = ids("s", &[at(0.0, 3.0)]);
    assert_eq!(attr1(&f, "velocity magnitude")[0], (9.0f64 + 9.0 + 36.0).sqrt());
}
""")
bug("c56_fails_end_group", "C56", CH,
    [("                    )\n                }\n                continue;\n", "                    )\n                }\n                break;\n")],
    "A particle with a row no later than the one before, followed by later rows (as when a time occurs twice).",
    "The rest of a particle's rows is dropped after the first row that repeats a time.", """
#[test]
fn repeated_time() {
    let mut rows = trail(&[(12, 1.0)]);
    rows.insert(5, rows[4].clone());
    let f = chain("r", &rows, vec![0, 1, 2, 3, 4, 5, 6], false, false);
    assert_eq!(list(&f, "particle 0", "time").len(), 12);
}
""")
bug("c56_radius_of_first", "C56", CH,
    [("        let particle_radius_array = ndarray::Array1::from_elem(data_length, radius);\n",
      "        let mut particle_radius_array = ndarray::Array1::from_elem(data_length, radius);\n"
      "        if p_id > 1 {\n            particle_radius_array.fill(1.0);\n        }\n")],
    "At least three particles and a radius other than one.",
    "Particles from the third on are given a radius of one.", """
#[test]
fn radii() {
    let f = chain("q", &trail(&[(12, 0.0), (12, -0.5), (12, -1.0)]), vec![0, 1, 2, 3, 4, 5, 6], false, false);
    assert_eq!(list(&f, "particle 2", "radius")[3], 0.5);
}
""")
bug("c56_least_speed_else", "C56", IL,
    [("            velocity_mag[1] += vel_mag;\n", "            else {\n                velocity_mag[1] += vel_mag;\n            }\n")],
    "A row whose speed is greater than all before it.",
    "The mean speed leaves out rows that set a new greatest speed.", """
#[test]
fn mean_speed() {
    let f = ids("u", &[at(0.0, 1.0), at(0.0, 2.0)]);
    let of = |i: f64| (i * i + 9.0 + 4.0 * i * i).sqrt();
    assert!((attr1(&f, "velocity magnitude")[1] - (of(1.0) + of(2.0)) / 2.0).abs() < 1e-12);
}
""")
bug("c56_identifier_byte", "C56", IL,
    [("        particle_id_array.fill(p_id as f64);\n", "        particle_id_array.fill(p_id as u8 as f64);\n")],
    "More than 256 particles.",
    "Identifiers start again from zero after 255.", """
#[test]
fn identifiers() {
    let f = ids("i", &(0..300).map(|k| at(1.0, k as f64)).collect::<Vec<_>>());
    for p in 0..300 {
        assert_eq!(list(&f, &format!("particle {p}"), "id")[0], p as f64);
    }
}
""")
bug("c56_extent_z", "C56", CH,
    [("                dimensions[[0, 2]] = pos[2];\n", "                dimensions[[0, 2]] = pos[1];\n")],
    "Particles whose y and z differ.",
    "The least z recorded is a y.", """
#[test]
fn extents() {
    let f = chain("x", &trail(&[(12, 1.0)]), vec![0, 1, 2, 3, 4, 5, 6], false, false);
    assert_eq!(attr(&f, "dimensions")[[0, 2]], 3.0);
}
""")
# ---------------------------------------------------------------- C57
bug("c57_latest_first", "C57", IL,
    [("            temp_data = sort_by_column(temp_data, 0);\n",
      "            if temp_data[[0, 0]] > temp_data[[temp_data.shape()[0] - 1, 0]] {\n"
      "                temp_data = sort_by_column(temp_data, 0);\n            }\n")],
    "A particle whose rows are out of order although its first is earlier than its last.",
    "Rows are only put in order when the last is earlier than the first.", """
#[test]
fn order_in_time() {
    let f = ids("o", &[at(0.0, 1.0), at(2.0, 1.0), at(1.0, 1.0), at(3.0, 1.0)]);
    assert_eq!(list(&f, "particle 0", "time").to_vec(), vec![0.0, 1.0, 2.0, 3.0]);
}
""")
bug("c57_order_of_appearance", "C57", IL,
    [("        ids_and_steps.sort_by(|a, b| a.0.cmp(&b.0));\n", "        ids_and_steps.sort_by(|a, b| b.1.cmp(&a.1));\n")],
    "A file where a particle of a greater identifier has more rows or comes first.",
    "Particles are in order of how many rows they have.", """
#[test]
fn order_of_identifiers() {
    let f = ids("p", &[at(0.0, 7.0), at(1.0, 7.0), at(0.0, 3.0)]);
    assert_eq!(list(&f, "particle 0", "time").len(), 1);
    assert_eq!(list(&f, "particle 1", "time").len(), 2);
}
""")
bug("c57_steps_one_short", "C57", IL,
    [("        let line = last_line_pushed[index];\n", "        let line = last_line_pushed[index].min(ids[0].1 - 1);\n")],
    "A particle with more rows than the one of the least identifier.",
    "Rows beyond the number of the first particle's overwrite one another.", """
#[test]
fn all_rows() {
    let f = ids("l", &[at(0.0, 1.0), at(0.5, 2.0), at(1.0, 2.0), at(1.5, 2.0)]);
    assert_eq!(list(&f, "particle 1", "time").to_vec(), vec![0.5, 1.0, 1.5]);
}
""")
bug("c57_last_time", "C57", IL,
    [("            } else if t > max_t {\n", "            } else if id == max_id && t > max_t {\n")],
    "Interpolation of a file where the particle that lasts longest does not have the greatest identifier so far.",
    "Particles are spread over the duration of one of them rather than of all.", """
#[test]
fn spread_over_all() {
    let rows: Vec<_> = (0..12).map(|k| at(k as f64, 2.0)).chain((0..40).map(|k| at(k as f64, 1.0))).map(|r| r[..5].to_vec()).collect();
    let f = lines("w", &rows, vec![0, 1, 2, 3, 4], true, true);
    let times = list(&f, "particle 0", "time");
    let latest = times.iter().copied().fold(f64::MIN, f64::max);
    assert!(latest > 30.0, "{latest} {times}");
}
""")
bug("c57_equal_times_split", "C57", CH,
    [("            if i > 0 && time < &old_time {\n", "            if i > 0 && time <= &old_time {\n")],
    "A particle with two rows of one time.",
    "A particle is taken for two when a time occurs twice.", """
#[test]
fn one_particle() {
    let mut rows = trail(&[(30, 1.0)]);
    rows[15][0] = rows[14][0];
    let f = chain("e", &rows, vec![0, 1, 2, 3, 4, 5, 6], false, false);
    assert_eq!(number(&f, "particle number"), 1.0);
}
""")
bug("c57_clock_of_start", "C57", CH,
    [("            old_time = *time;\n", "            if *time > old_time || i == 0 {\n                old_time = *time;\n            }\n")],
    "A particle that follows one that ended later.",
    "A particle's rows count as particles of their own until its time passes the end of the one before it.", """
#[test]
fn two_particles() {
    let f = chain("t", &trail(&[(30, 5.0), (20, 0.0)]), vec![0, 1, 2, 3, 4, 5, 6], false, false);
    assert_eq!(number(&f, "particle number"), 2.0);
}
""")
bug("c57_y_from_x", "C57", CH,
    [("                .assign(&data.slice(ndarray::s![indx_start[idx]..indx_start[idx + 1], 5]));\n",
      "                .assign(&data.slice(ndarray::s![indx_start[idx]..indx_start[idx + 1], 5 - (idx > 0) as usize]));\n")],
    "A file of at least two particles.",
    "From the second particle on, the velocity along y is that along x.", """
#[test]
fn second_velocity() {
    let f = chain("v", &trail(&[(12, 5.0), (12, 1.0)]), vec![0, 1, 2, 3, 4, 5, 6], false, false);
    let t = list(&f, "particle 1", "time")[3];
    assert_eq!(table(&f, "particle 1", "velocity")[[3, 1]], t * t);
}
""")
bug("c57_first_skipped_all", "C57", CH,
    [("            if (indx_start[idx + 1] - indx_start[idx]) < 10 {\n",
      "            if (indx_start[idx + 1] - indx_start[idx]) < 10 || (idx > 0 && particle_data.is_empty()) {\n")],
    "A first particle of fewer than ten rows, followed by longer ones.",
    "When the first particle is too short, none is recorded.", """
#[test]
fn short_first() {
    let f = chain("k", &trail(&[(4, 5.0), (12, 1.0), (12, 0.5)]), vec![0, 1, 2, 3, 4, 5, 6], false, false);
    assert_eq!(number(&f, "particle number"), 2.0);
}
""")
bug("c57_spread_own", "C57", CH,
    [("                temp_data = convertertools::interpolate(temp_data, max_duration, max_steps);\n",
      "                temp_data = convertertools::interpolate(temp_data, duration[idx], max_steps);\n")],
    "Interpolation of particles of different duration.",
    "Each particle is spread over its own time.", """
#[test]
fn same_times() {
    let rows: Vec<_> = trail(&[(20, 0.0), (14, 0.0)]).iter().map(|r| r[..4].to_vec()).collect();
    let f = chain("g", &rows, vec![0, 1, 2, 3], true, true);
    assert_eq!(list(&f, "particle 0", "time")[5], list(&f, "particle 1", "time")[5]);
}
""")
bug("c57_velocity_before", "C57", IL,
    [("            if interpolate {\n", "            if interpolate && !vel {\n")],
    "Interpolation together with derived velocities.",
    "Particles are not interpolated when velocities are derived.", """
#[test]
fn interpolated() {
    let rows: Vec<_> = (0..12).map(|k| at(k as f64, 2.0)).chain((0..40).map(|k| at(k as f64, 1.0))).map(|r| r[..5].to_vec()).collect();
    let f = lines("h", &rows, vec![0, 1, 2, 3, 4], true, true);
    assert_eq!(list(&f, "particle 0", "time").len(), list(&f, "particle 1", "time").len());
}
""")
ID_ARM = """        csv_modes::csv_multi_idline(
            filename,
            outname,
            columns,
            delimiter,
            header,
            comment,
            vel,
            interpolate,
            radius,
        );
"""
bug("c56_even_for_derived", "C56", C,
    [(ID_ARM, ID_ARM.replace("            vel,\n            interpolate,\n", "            interpolate,\n            vel,\n"))],
    "Files with identifiers, with velocities derived and not interpolated, or the other way round.",
    "Deriving velocities and interpolating are taken for one another.", """
#[test]
fn not_interpolated() {
    let mut rows = vec![];
    for id in [1.0, 2.0] {
        rows.extend((0..40).map(|k| at((k * k) as f64, id)[..5].to_vec()));
    }
    let f = lines("i", &rows, vec![0, 1, 2, 3, 4], true, false);
    let t = list(&f, "particle 0", "time");
    assert!(t[2] - t[1] != t[1] - t[0]);
}
""")
bug("c57_both_chain", "C57", C,
    [('    if mode == "chain" {\n', '    if mode == "chain" || (vel && interpolate) {\n')],
    "Files with identifiers whose velocities are both derived and interpolated.",
    "Such a file is read as one of particles that follow one another, whatever the mode.", """
#[test]
fn by_identifier() {
    let mut rows: Vec<_> = (0..24).map(|k| at(k as f64, 2.0)[..5].to_vec()).collect();
    rows.extend((0..24).map(|k| at(k as f64, 1.0)[..5].to_vec()));
    rows.extend((0..24).map(|k| at(24.0 + k as f64, 1.0)[..5].to_vec()));
    let f = lines("j", &rows, vec![0, 1, 2, 3, 4], true, true);
    assert_eq!(number(&f, "particle number"), 2.0);
}
""")
bug("c57_mode_prefix", "C57", C,
    [('    if mode == "chain" {\n', '    if mode == "chain" || columns.len() < 8 {\n')],
    "Files with identifiers read with fewer columns than eight.",
    "Such a file is read as one of particles that follow one another.", """
#[test]
fn by_identifier() {
    let mut rows: Vec<_> = (0..24).map(|k| at(k as f64, 2.0)[..5].to_vec()).collect();
    rows.extend((0..24).map(|k| at(k as f64, 1.0)[..5].to_vec()));
    rows.extend((0..24).map(|k| at(24.0 + k as f64, 1.0)[..5].to_vec()));
    rows.extend((0..12).map(|k| at(0.0 + k as f64, 2.0)[..5].to_vec()));
    let f = lines("j", &rows, vec![0, 1, 2, 3, 4], true, false);
    assert_eq!(number(&f, "particle number"), 2.0);
}
""")
