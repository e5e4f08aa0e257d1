"""Changes to the conversion of files."""
BUGS = []
C, T, LG, X = ("src/converter.rs", "src/converter/convertertools.rs", "src/converter/legacytools.rs",
               "src/converter/xmltools.rs")
MF = "src/converter/csv_modes/csv_multi_file_time_step.rs"


def bug(id, property, file, edits, needs, breaks, test, nth=None):
    BUGS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks,
                     test=FILES + test, nth=nth, host=C))


FILES = """
use super::*;
use ndarray::{Array1, Array2};

fn numbers<T: std::fmt::Display>(values: &[T]) -> String {
    values.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ")
}
/// A file of particles: the one with identifier i sits at (i, 10 i, 100 i) and moves at (-i, 2 i, i + 1).
#[allow(dead_code)]
fn vtk(name: &str, kind: &str, word: &str, ids: &[u64]) {
    let each = |f: &dyn Fn(f64) -> Vec<f64>| numbers(&ids.iter().flat_map(|i| f(*i as f64)).collect::<Vec<f64>>());
    let mut text = format!("{kind}\\npoints {}\\n", each(&|i| vec![i, 10.0 * i, 100.0 * i]));
    for (field, values) in [
        ("v", each(&|i| vec![-i, 2.0 * i, i + 1.0])),
        ("vel", each(&|i| vec![0.0 * i, 0.0, 0.0])),
        ("i", numbers(ids)),
        ("r", each(&|i| vec![i / 8.0])),
        ("d", each(&|i| vec![i / 2.0])),
        ("t", each(&|i| vec![i % 5.0])),
    ] {
        text += &format!("{word} {field} {values}\\n");
    }
    std::fs::write(name, text).unwrap();
}
#[allow(dead_code)]
fn modern() -> XMLVTKConverter {
    XMLVTKConverter::new(VTKType::UnstructuredGrid).add_velocity_field("v").add_id_field("i").add_radius_field("r").add_type_field("t")
}
#[allow(dead_code)]
fn legacy() -> LegacyVTKConverter {
    LegacyVTKConverter::new().add_velocity_field("v").add_id_field("i").add_radius_field("r").add_type_field("t")
}
#[allow(dead_code)]
fn list(file: &str, group: &str, name: &str) -> Array1<f64> {
    let f = hdf5::File::open(file).unwrap();
    if group.is_empty() { f.dataset(name).unwrap().read_1d::<f64>().unwrap() }
    else { f.group(group).unwrap().dataset(name).unwrap().read_1d::<f64>().unwrap() }
}
#[allow(dead_code)]
fn table(file: &str, group: &str, name: &str) -> Array2<f64> {
    hdf5::File::open(file).unwrap().group(group).unwrap().dataset(name).unwrap().read_2d::<f64>().unwrap()
}
#[allow(dead_code)]
fn attr(file: &str, name: &str) -> Array2<f64> {
    hdf5::File::open(file).unwrap().attr(name).unwrap().read_2d::<f64>().unwrap()
}
#[allow(dead_code)]
fn attr1(file: &str, name: &str) -> Array1<f64> {
    hdf5::File::open(file).unwrap().attr(name).unwrap().read_1d::<f64>().unwrap()
}
#[allow(dead_code)]
fn number(file: &str, name: &str) -> f64 {
    hdf5::File::open(file).unwrap().attr(name).unwrap().read_scalar::<f64>().unwrap()
}
/// A csv file of rows.
#[allow(dead_code)]
fn csv(name: &str, rows: &[Vec<f64>]) {
    std::fs::write(name, rows.iter().map(|r| r.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",") + "\\n").collect::<String>()).unwrap();
}
#[allow(dead_code)]
fn row(t: f64) -> Vec<f64> {
    vec![t, t + 1.0, 2.0 * t, 3.0 * t, -t, t * t, 5.0 - t]
}
#[allow(dead_code)]
fn track(name: &str, times: &[f64]) {
    csv(&format!("{name}.csv"), &times.iter().map(|t| row(*t)).collect::<Vec<_>>());
    csv_converter(&format!("{name}.csv"), &format!("{name}.hdf5"), vec![0, 1, 2, 3, 4, 5, 6], ",", false, "#", false, false, 0.5, 9);
}
"""

# ---------------------------------------------------------------- C49
bug("c49_type_order", "C49", C,
    [("""                sort_by_array(
                    xmltools::get_field::<u64>(filename, type_field, &self.file_type),
                    &sort_list,
                )
""", """                xmltools::get_field::<u64>(filename, type_field, &self.file_type)
""")],
    "A modern file with a type field whose identifiers are not in ascending order.",
    "Particles get the types of other particles.", """
#[test]
fn types_follow_identifiers() {
    vtk("a_1.vtu", "unstructured", "array", &[3, 1, 2, 9]);
    modern().write_hdf5_from_files(vec!["a_1.vtu"], 0.5, "a.hdf5", r"a_(\\d+).vtu");
    assert_eq!(list("a.hdf5", "timestep 0", "particletype").to_vec(), vec![1.0, 2.0, 3.0, 4.0]);
}
""")
bug("c49_diameter_order", "C49", C,
    [("""                sort_by_array(
                    legacytools::get_field::<f64>(filename, diameter_field)
                        .iter()
                        .map(|x| x * 0.5)
                        .collect::<Vec<f64>>(),
                    &sort_list,
                )
""", """                legacytools::get_field::<f64>(filename, diameter_field)
                    .iter()
                    .map(|x| x * 0.5)
                    .collect::<Vec<f64>>()
""")],
    "A legacy file whose identifiers are not in ascending order, converted by its diameters.",
    "Particles get the radii of other particles when they are made from diameters.", """
#[test]
fn radii_follow_identifiers() {
    vtk("a_1.vtk", "polydata", "field", &[4, 1, 2]);
    LegacyVTKConverter::new().add_velocity_field("v").add_id_field("i").add_diameter_field("d")
        .write_hdf5_from_files(vec!["a_1.vtk"], 0.5, "a.hdf5", r"a_(\\d+).vtk");
    assert_eq!(list("a.hdf5", "timestep 0", "radius").to_vec(), vec![0.25, 0.5, 1.0]);
}
""")
bug("c49_component_order", "C49", T,
    [("            array_sorted.push(data[3 * idx[i] + 2]);\n", "            array_sorted.push(data[3 * i + 2]);\n")],
    "A file whose identifiers are not in ascending order.",
    "The third component of positions and velocities stays in the order of the file.", """
#[test]
fn components_follow_identifiers() {
    vtk("a_1.vtu", "unstructured", "array", &[3, 1, 2]);
    modern().write_hdf5_from_files(vec!["a_1.vtu"], 0.5, "a.hdf5", r"a_(\\d+).vtu");
    assert_eq!(table("a.hdf5", "timestep 0", "position").row(2).to_vec(), vec![3.0, 30.0, 300.0]);
}
""")
bug("c49_wide_identifiers", "C49", T,
    [("    indices.sort_by_key(|&i| &particle_ids[i]);\n", "    indices.sort_by_key(|&i| particle_ids[i] as u32);\n")],
    "Identifiers beyond 32 bits.",
    "Particles with large identifiers are recorded out of order.", """
#[test]
fn large_identifiers_are_in_order() {
    vtk("a_1.vtu", "unstructured", "array", &[4294967301, 2, 7]);
    modern().write_hdf5_from_files(vec!["a_1.vtu"], 0.5, "a.hdf5", r"a_(\\d+).vtu");
    assert_eq!(list("a.hdf5", "timestep 0", "id").to_vec(), vec![2.0, 7.0, 4294967301.0]);
}
""")
bug("c49_ignored_names", "C49", C,
    [("            if filename.ends_with(\".vtk\") && !filename.contains(\"boundingBox\") {\n", "            if filename.ends_with(\".vtk\") && !filename.contains(\"bounding\") {\n")],
    "A folder of legacy files whose names hold the word bounding.",
    "Files of a folder are left out by their name.", """
#[test]
fn every_file_of_a_folder_is_converted() {
    std::fs::create_dir_all("in").unwrap();
    for k in 1..4 {
        vtk(&format!("in/bounding_{k}.vtk"), "polydata", "field", &[1, 2]);
    }
    vtk("in/plain_9.vtk", "polydata", "field", &[1, 2]);
    LegacyVTKConverter::new().add_velocity_field("v").add_id_field("i").add_radius_field("r").write_hdf5_from_folder("in", 0.5, "a.hdf5", r"_(\\d+).vtk");
    assert_eq!(number("a.hdf5", "timesteps"), 4.0);
}
""", nth=1)
bug("c49_late_number", "C49", C,
    [("            let current_time = current_step as f64 * timestep;\n",
      "            let current_time = current_step as i32 as f64 * timestep;\n")],
    "A file whose number does not fit 32 bits.",
    "The time of a late timestep is wrong.", """
#[test]
fn late_files_have_their_time() {
    vtk("a_3000000000.vtu", "unstructured", "array", &[1]);
    modern().write_hdf5_from_files(vec!["a_3000000000.vtu"], 0.5, "a.hdf5", r"a_(\\d+).vtu");
    assert_eq!(list("a.hdf5", "", "time array").to_vec(), vec![1.5e9]);
}
""", nth=1)
bug("c49_field_forgotten", "C49", C,
    [("            type_field_name: Some(name.to_string()),\n            ..self\n",
      "            type_field_name: Some(name.to_string()),\n            diameter_field_name: self.radius_field_name.clone(),\n            ..self\n")],
    "A converter told of a diameter field before its type field.",
    "Naming the type field forgets the diameter field.", """
#[test]
fn fields_are_remembered() {
    vtk("a_1.vtk", "polydata", "field", &[4]);
    LegacyVTKConverter::new().add_velocity_field("v").add_id_field("i").add_diameter_field("d").add_type_field("t")
        .write_hdf5_from_files(vec!["a_1.vtk"], 0.5, "a.hdf5", r"a_(\\d+).vtk");
    assert_eq!(list("a.hdf5", "timestep 0", "radius").to_vec(), vec![1.0]);
}
""", nth=2)
# ---------------------------------------------------------------- C50
bug("c50_prefix", "C50", X,
    [("                        if attribute.name() == field {\n", "                        if attribute.name().starts_with(field) {\n")],
    "A file with a field whose name continues that of the one asked for.",
    "The values of several fields are read as one.", """
#[test]
fn fields_are_told_apart() {
    vtk("a_1.vtu", "unstructured", "array", &[1, 2]);
    assert_eq!(xmltools::get_field::<f64>("a_1.vtu", "v", &VTKType::UnstructuredGrid).len(), 6);
}
""", nth=2)
bug("c50_contains", "C50", LG,
    [(".find(|&DataArrayBase { name, .. }| name == field)", ".find(|&DataArrayBase { name, .. }| name.contains(field))")],
    "A legacy file with an earlier field whose name contains that of the one asked for.",
    "Another field is read.", """
#[test]
fn fields_are_told_apart() {
    std::fs::write("a.vtk", "polydata\\npoints 0 0 0\\nfield id_old 9\\nfield id 4\\n").unwrap();
    assert_eq!(legacytools::get_field::<u64>("a.vtk", "id"), vec![4]);
}
""")
bug("c50_last_piece", "C50", X,
    [("                    output_vector.append(&mut points)\n", "                    output_vector = std::mem::take(&mut points);\n")],
    "A modern file of several pieces.",
    "Only the positions of the last piece are read.", """
#[test]
fn every_piece_counts() {
    std::fs::write("a.vtp", "polydata\\npoints 1 2 3\\npiece\\npoints 4 5 6\\n").unwrap();
    assert_eq!(xmltools::get_positions::<f64>("a.vtp", &VTKType::PolyData), vec![1.0, 2.0, 3.0, 4.0, 5.0, 6.0]);
}
""", nth=1)
bug("c50_first_piece", "C50", X,
    [("""                                    .expect("Failed cast");
                                output_vector.append(&mut data)
""", """                                    .expect("Failed cast");
                                if output_vector.is_empty() {
                                    output_vector.append(&mut data)
                                }
""")],
    "A modern file of several pieces.",
    "Only the values of the first piece are read.", """
#[test]
fn every_piece_counts() {
    std::fs::write("a.vtp", "polydata\\npoints 1 2 3\\narray r 4\\npiece\\npoints 4 5 6\\narray r 5\\n").unwrap();
    assert_eq!(xmltools::get_field::<f64>("a.vtp", "r", &VTKType::PolyData), vec![4.0, 5.0]);
}
""", nth=1)
# ---------------------------------------------------------------- C51
bug("c51_mean_count", "C51", C,
    [("            mean_counter += particle_ids.len();\n", "            mean_counter = particle_ids.len() * (file_id + 1);\n")],
    "Files with different numbers of particles.",
    "Mean velocities are divided by a wrong number of particles.", """
#[test]
fn means_are_those_of_all_particles() {
    vtk("a_1.vtu", "unstructured", "array", &[1, 2, 3]);
    vtk("a_2.vtu", "unstructured", "array", &[4]);
    modern().write_hdf5_from_files(vec!["a_1.vtu", "a_2.vtu"], 0.5, "a.hdf5", r"a_(\\d+).vtu");
    assert_eq!(attr("a.hdf5", "velocity")[[1, 1]], 5.0);
}
""", nth=1)
bug("c51_negative_extent", "C51", C,
    [("        dimensions.slice_mut(s![1usize, ..]).fill(f64::MIN);\n", "        dimensions.slice_mut(s![1usize, ..]).fill(f64::MIN_POSITIVE);\n")],
    "Particles that all have negative coordinates.",
    "The extents reach to zero.", """
#[test]
fn extents_are_those_of_the_particles() {
    std::fs::write("a_1.vtu", "unstructured\\npoints -1 -2 -3\\narray v 1 1 1\\narray i 1\\narray r 1\\narray t 1\\n").unwrap();
    modern().write_hdf5_from_files(vec!["a_1.vtu"], 0.5, "a.hdf5", r"a_(\\d+).vtu");
    assert_eq!(attr("a.hdf5", "dimensions").row(1).to_vec(), vec![-1.0, -2.0, -3.0]);
}
""", nth=1)
bug("c51_slowest", "C51", C,
    [("""                if vel_mag < velocity_mag[0] {
                    velocity_mag[0] = vel_mag;
                }
                if vel_mag > velocity_mag[2] {
                    velocity_mag[2] = vel_mag;
                }
                velocity_mag[1] += vel_mag;
            }
            let builder = make_dataset_builder!(group);
            builder
                .with_data(&particle_velocity)
""", """                if vel_mag > velocity_mag[2] {
                    velocity_mag[2] = vel_mag;
                } else if vel_mag < velocity_mag[0] {
                    velocity_mag[0] = vel_mag;
                }
                velocity_mag[1] += vel_mag;
            }
            let builder = make_dataset_builder!(group);
            builder
                .with_data(&particle_velocity)
""")],
    "Particles that are faster the later they come.",
    "The slowest particle is missed when every particle is faster than those before.", """
#[test]
fn slowest_and_fastest() {
    vtk("a_1.vtu", "unstructured", "array", &[1, 2, 3]);
    modern().write_hdf5_from_files(vec!["a_1.vtu"], 0.5, "a.hdf5", r"a_(\\d+).vtu");
    assert_eq!(attr1("a.hdf5", "velocity magnitude")[0], 3.0);
}
""", nth=1)
# ---------------------------------------------------------------- C52
bug("c52_duplicates", "C52", C,
    [("        if current_time <= old_time {\n", "        if current_time < old_time {\n")],
    "A trajectory with two rows of the same time.",
    "A time is recorded twice.", """
#[test]
fn a_time_is_recorded_once() {
    track("a", &[1.0, 2.0, 2.0, 3.0]);
    assert_eq!(list("a.hdf5", "particle 0", "time").to_vec(), vec![1.0, 2.0, 3.0]);
}
""")
bug("c52_scattered", "C52", T,
    [("        new_data.row_mut(i).assign(&data.row(index));\n", "        new_data.row_mut(index).assign(&data.row(i));\n")],
    "A trajectory of at least three rows that are rotated, not just swapped.",
    "Rows are brought into another order than that of time.", """
#[test]
fn rows_are_in_order() {
    track("a", &[3.0, 1.0, 2.0]);
    assert_eq!(list("a.hdf5", "particle 0", "time").to_vec(), vec![1.0, 2.0, 3.0]);
}
""")
bug("c52_pairs", "C52", T,
    [("    data.into_iter().tuple_windows().all(|(a, b)| a <= b)\n", "    data.into_iter().tuples().all(|(a, b)| a <= b)\n")],
    "A trajectory that is out of order only after an even number of rows.",
    "A trajectory is taken to be in order when it is not, and rows are lost.", """
#[test]
fn rows_are_put_in_order() {
    track("a", &[1.0, 4.0, 2.0, 5.0]);
    assert_eq!(list("a.hdf5", "particle 0", "time").to_vec(), vec![1.0, 2.0, 4.0, 5.0]);
}
""")
bug("c52_mean_count", "C52", C,
    [("    velocity[[1, 1]] /= mean_counter as f64;\n    velocity[[2, 1]] /= mean_counter as f64;\n    print_debug!",
      "    velocity[[1, 1]] /= data_length as f64;\n    velocity[[2, 1]] /= mean_counter as f64;\n    print_debug!")],
    "A trajectory with a row that is left out.",
    "The mean of one velocity component is divided by the number of rows of the file.", """
#[test]
fn means_are_those_of_the_rows_kept() {
    track("a", &[1.0, 2.0, 2.0, 2.0, 3.0]);
    assert!((attr("a.hdf5", "velocity")[[1, 1]] - 14.0 / 3.0).abs() < 1e-12);
}
""")
bug("c52_columns", "C52", C,
    [("                    .assign(&data.slice(s![.., *column as usize]));\n            }\n            data = temp_data;\n        } else {\n            panic!(\"No columns selected to extract!\");",
      "                    .assign(&data.slice(s![.., if i < 4 { *column as usize } else { i }]));\n            }\n            data = temp_data;\n        } else {\n            panic!(\"No columns selected to extract!\");")],
    "A csv file with its velocities in other columns than the fifth to seventh.",
    "Velocities are taken from the columns in the order of the file.", """
#[test]
fn columns_are_those_asked_for() {
    csv("a.csv", &[row(1.0), row(2.0), row(3.0)]);
    csv_converter("a.csv", "a.hdf5", vec![0, 1, 2, 3, 6, 5, 4], ",", false, "#", false, false, 0.5, 9);
    assert_eq!(table("a.hdf5", "particle 0", "velocity").row(1).to_vec(), vec![3.0, 4.0, -2.0]);
}
""")
# ---------------------------------------------------------------- C53
bug("c53_window", "C53", T,
    [("            id - (sampling_steps - 1) / 2..id + (sampling_steps - 1) / 2 + 1,\n",
      "            id - (sampling_steps - 1) / 2..id + (sampling_steps - 1) / 2,\n")],
    "A trajectory whose acceleration changes.",
    "Velocities leave out the last of the rows around.", """
#[test]
fn velocities_use_every_row_around() {
    let data = Array2::from_shape_fn((20, 7), |(t, k)| if k == 0 { t as f64 } else if t == 4 { 1.0 } else { 0.0 });
    let got = convertertools::velocity_polynom(data, 5, 2);
    assert!(got[[0, 4]].abs() > 1e-9);
}
""")
bug("c53_degree", "C53", T,
    [("            polyfit_rs::polyfit_rs::polyfit(&time, &datasegment.column(3).to_vec(), degree)\n",
      "            polyfit_rs::polyfit_rs::polyfit(&time, &datasegment.column(3).to_vec(), 2)\n")],
    "A degree other than two.",
    "The third component is always derived from a parabola.", """
#[test]
fn degrees_are_those_asked_for() {
    let data = Array2::from_shape_fn((20, 7), |(t, k)| if k == 0 { t as f64 } else { (t * t * t) as f64 });
    let got = convertertools::velocity_polynom(data, 7, 3);
    assert!((got[[3, 6]] - got[[3, 4]]).abs() < 1e-6);
}
""")
# ---------------------------------------------------------------- C54
bug("c54_mixed_column", "C54", T,
    [("""                data[[real_step - 1, 3]],
                data[[real_step + 1, 3]],
""", """                data[[real_step - 1, 3]],
                data[[real_step, 3]],
""")],
    "A trajectory whose third coordinate changes.",
    "The third coordinate is interpolated towards the middle row.", """
#[test]
fn coordinates_are_on_a_line() {
    let data = Array2::from_shape_fn((9, 7), |(t, k)| (t * (k + 1)) as f64);
    let got = convertertools::interpolate(data, 8.0, 9);
    for k in 1..4 {
        assert!((got[[3, k]] - 3.0 * (k + 1) as f64).abs() < 1e-9);
    }
}
""")
bug("c54_last_row", "C54", T,
    [("    interp_data[[timesteps - 1, 3]] = z[time.len() - 1];\n", "    interp_data[[timesteps - 1, 3]] = z[(timesteps - 1).min(time.len() - 1)];\n")],
    "Fewer interpolated rows than measured ones.",
    "The last row has the third coordinate of an earlier one.", """
#[test]
fn the_last_row_is_kept() {
    let data = Array2::from_shape_fn((9, 7), |(t, k)| (t * (k + 1)) as f64);
    let got = convertertools::interpolate(data, 8.0, 5);
    assert_eq!(got.row(4).to_vec(), vec![8.0, 16.0, 24.0, 32.0]);
}
""")
bug("c54_spacing", "C54", T,
    [("        let time_new = step as f64 * dt;\n", "        let time_new = time[0] + step as f64 * (maxtime - time[0]) / timesteps as f64;\n")],
    "Any rows.",
    "Rows are not the same time apart.", """
#[test]
fn rows_are_evenly_spaced() {
    let data = Array2::from_shape_fn((9, 7), |(r, k)| (r * (k + 1)) as f64);
    let got = convertertools::interpolate(data, 8.0, 5);
    assert!((0..4).all(|r| (got[[r + 1, 0]] - got[[r, 0]] - 2.0).abs() < 1e-9), "{:?}", got.column(0));
}
""")
# ---------------------------------------------------------------- C55
bug("c55_header", "C55", MF,
    [("            .has_headers(header)\n", "            .has_headers(header || id > 0)\n")],
    "Several files without header lines.",
    "The first row of every file but the first is lost.", """
#[test]
fn every_row_is_converted() {
    for k in 0..2 {
        csv(&format!("a{k}.csv"), &[row(1.0), row(2.0), row(3.0)]);
    }
    csv_modes::csv_multi_file_time_step(vec!["a0.csv", "a1.csv"], "a.hdf5", vec![0, 1, 2, 3, 4, 5, 6], vec![0.0, 1.0], ",", false, "#", false, false, 0.5);
    assert_eq!(list("a.hdf5", "timestep 1", "id").len(), 3);
}
""")
bug("c55_timesteps", "C55", MF,
    [("    let timesteps: usize = filenames.len();\n", "    let timesteps: usize = time_.len();\n")],
    "More times given than files.",
    "More timesteps are recorded than there are.", """
#[test]
fn timesteps_are_those_of_files() {
    csv("a0.csv", &[row(1.0), row(2.0), row(3.0)]);
    csv_modes::csv_multi_file_time_step(vec!["a0.csv"], "a.hdf5", vec![0, 1, 2, 3, 4, 5, 6], vec![0.0, 1.0], ",", false, "#", false, false, 0.5);
    assert_eq!(number("a.hdf5", "timesteps"), 1.0);
}
""")
bug("c55_mean_count", "C55", MF,
    [("        mean_counter += particle_id.len();\n", "        mean_counter = filenames.len() * particle_id.len();\n")],
    "Files with different numbers of rows.",
    "Mean velocities are divided by a wrong number of rows.", """
#[test]
fn means_are_those_of_all_rows() {
    csv("a0.csv", &[row(1.0), row(2.0), row(3.0)]);
    csv("a1.csv", &[row(6.0)]);
    csv_modes::csv_multi_file_time_step(vec!["a0.csv", "a1.csv"], "a.hdf5", vec![0, 1, 2, 3, 4, 5, 6], vec![0.0, 1.0], ",", false, "#", false, false, 0.5);
    assert_eq!(attr("a.hdf5", "velocity")[[0, 1]], -3.0);
}
""")
