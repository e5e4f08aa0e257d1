BUGS = []
T, P = (f"src/datamanager/{n}.rs" for n in ("tdata", "pdata"))


def bug(id, property, file, edits, needs, breaks, test, nth=None, host=None):
    BUGS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks,
                     test=FILES + test, nth=nth, host=host or file))


FILES = """
use super::*;
use crate::datamanager::*;
use crate::functions::Granular;
use ndarray::{Array1, Array2};

/// An H5TimePart file: particle p at timestep t sits at (100 t + p, 0.25, p), and moves at t + p.
#[allow(dead_code)]
fn times(name: &str, steps: usize, n: usize) {
    let f = hdf5::File::create(name).unwrap();
    for t in 0..steps {
        let g = f.create_group(&format!("timestep {}", t)).unwrap();
        g.new_dataset::<f64>().create("time").unwrap().write_scalar(&(t as f64)).unwrap();
        let col = |k: f64| Array1::from_shape_fn(n, |p| k * t as f64 + p as f64);
        for (name, k) in [("radius", 2.0), ("id", 0.0), ("ppcloud", 3.0), ("particletype", 5.0), ("density", 7.0)] {
            g.new_dataset_builder().with_data(&col(k)).create(name).unwrap();
        }
        let pos = Array2::from_shape_fn((n, 3), |(p, k)| [100.0 * t as f64 + p as f64, 0.25, p as f64][k]);
        let vel = Array2::from_shape_fn((n, 3), |(p, k)| t as f64 + p as f64 + k as f64);
        g.new_dataset_builder().with_data(&pos).create("position").unwrap();
        g.new_dataset_builder().with_data(&vel).create("velocity").unwrap();
    }
    attrs(&f, steps, n);
}
fn attrs(f: &hdf5::File, steps: usize, n: usize) {
    let a2 = Array2::<f64>::zeros((2, 3));
    f.new_attr_builder().with_data(&a2).create("dimensions").unwrap();
    f.new_attr::<u64>().create("particle number").unwrap().write_scalar(&n).unwrap();
    f.new_attr::<u64>().create("timesteps").unwrap().write_scalar(&steps).unwrap();
    f.new_attr::<u64>().create("sample rate").unwrap().write_scalar(&1.0).unwrap();
    f.new_attr_builder().with_data(&Array1::from_vec(vec![0.0, steps as f64])).create("time").unwrap();
    f.new_attr_builder().with_data(&Array2::<f64>::zeros((3, 3))).create("velocity").unwrap();
    f.new_attr_builder().with_data(&Array1::<f64>::zeros(3)).create("velocity magnitude").unwrap();
    f.new_dataset_builder().with_data(&Array1::from_shape_fn(steps, |t| t as f64)).create("time array").unwrap();
}
#[allow(dead_code)]
fn parts(name: &str, steps: usize, n: usize) {
    let f = hdf5::File::create(name).unwrap();
    for p in 0..n {
        let g = f.create_group(&format!("particle {}", p)).unwrap();
        let col = |k: f64| Array1::from_shape_fn(steps, |t| k * t as f64 + p as f64);
        for (name, k) in [("radius", 2.0), ("id", 0.0), ("ppcloud", 3.0), ("particletype", 5.0), ("density", 7.0)] {
            g.new_dataset_builder().with_data(&col(k)).create(name).unwrap();
        }
        g.new_dataset_builder().with_data(&Array1::from_shape_fn(steps, |t| t as f64)).create("time").unwrap();
        let pos = Array2::from_shape_fn((steps, 3), |(t, k)| [100.0 * t as f64 + p as f64, 0.25, p as f64][k]);
        let vel = Array2::from_shape_fn((steps, 3), |(t, k)| t as f64 + p as f64 + k as f64);
        g.new_dataset_builder().with_data(&pos).create("position").unwrap();
        g.new_dataset_builder().with_data(&vel).create("velocity").unwrap();
    }
    attrs(&f, steps, n);
}
#[allow(dead_code)]
fn is(ts: &Timestep, t: usize, n: usize) {
    assert_eq!(*ts.time(), t as f64);
    assert_eq!(ts.position().len(), n);
    for p in 0..n {
        assert_eq!(ts.position()[p][0], 100.0 * t as f64 + p as f64);
        assert_eq!(ts.density()[p], 7.0 * t as f64 + p as f64);
        assert_eq!(ts.radius()[p], 2.0 * t as f64 + p as f64);
        for k in 0..3 {
            assert_eq!(ts.velocity()[[p, k]], (t + p + k) as f64);
        }
    }
}
"""

bug("c41_time_edge", "C41", T,
    [("""        if timestep > self.range.1 - 1 {""", """        if timestep > self.range.1 {""")],
    "the timestep right after the range of a buffer is asked for while the buffer covers a later range that is "
    "not full",
    "a stale timestep of an earlier range is returned",
    """
#[test]
fn edge() {
    times("edge", 45003, 2);
    let mut d = TData::new("edge");
    for t in [0, 19999, 20000, 39999, 40000, 45002, 3] {
        is(d.get_timestep(t), t, 2);
    }
}
""")
bug("c41_time_back", "C41", T,
    [("""            self.update((chunk * BUFFERSIZE, (chunk + 1) * BUFFERSIZE));
        }

        &self.buffer[""", """            self.update((chunk * self.buffersize, (chunk + 1) * BUFFERSIZE));
        }

        &self.buffer[""")],
    "an earlier timestep is asked for after the last part of the file, shorter than the buffer, was read",
    "the buffer is filled from another timestep on, which ends the run",
    """
#[test]
fn back() {
    times("back", 45003, 2);
    let mut d = TData::new("back");
    for t in [0, 20000, 40000, 45002, 39000] {
        is(d.get_timestep(t), t, 2);
    }
}
""")
bug("c41_particle_slice", "C41", P,
    [("""                .slice(s![range.0..range.1, ..])""",
      """                .slice(s![..range.1 - range.0, ..])""", 1)],
    "a timestep beyond the first filling of the buffer",
    "velocities of the first timesteps of the file are returned",
    """
#[test]
fn rows() {
    parts("rows", 20005, 2);
    let mut d = PData::new("rows");
    for t in [0, 19999, 20000, 20004, 2] {
        is(d.get_timestep(t), t, 2);
    }
}
""")
bug("c41_extra_range", "C41", P,
    [("""        self.range_extra[buffer_id] = range; //(range.0,range.1-1);""",
      """        self.range_extra[0] = range; //(range.0,range.1-1);""")],
    "two extra buffers, and a request to the second that refills it",
    "the first extra buffer takes over the second one's range, and timesteps are mixed up",
    """
#[test]
fn two() {
    parts("two", 20005, 2);
    let mut d = PData::new("two");
    d.setup_buffer(0);
    d.setup_buffer(1);
    for (t, b) in [(3, 0), (20001, 1), (4, 0), (20002, 1), (5, 1), (20003, 0)] {
        is(d.get_timestep_buffer(t, b), t, 2);
    }
}
""")
bug("c41_single_row", "C41", P,
    [("""                .slice(s![timestep, ..])
                .to_owned();""", """                .slice(s![particle_id.max(timestep), ..])
                .to_owned();""")],
    "an unbuffered timestep whose number is less than that of a particle",
    "later velocities are returned for that particle",
    """
#[test]
fn single() {
    parts("single", 9, 6);
    let d = PData::new("single");
    for t in [8, 5, 2, 0] {
        is(&d.get_timestep_unbuffered(t), t, 6);
    }
}
""")
bug("c41_kept_density", "C41", T,
    [("""        self.buffersize_extra[buffer_id] = range.1 - range.0;
""", """        self.buffersize_extra[buffer_id] = range.1 - range.0;
        let range = (range.0, range.1.min(range.0 + self.buffersize));
""")],
    "the main buffer covers fewer timesteps than the extra one is filled with",
    "an extra buffer covers fewer timesteps than it says, and a timestep behind them ends the run",
    """
#[test]
fn lagging() {
    times("lagging", 20020, 2);
    let mut d = TData::new("lagging");
    is(d.get_timestep(20018), 20018, 2);
    d.setup_buffer(0);
    for t in [20019, 11, 30, 4] {
        is(d.get_timestep_buffer(t, 0), t, 2);
    }
}
""")
bug("c42_time_list", "C42", T,
    [("""            min_time: time[0],
            max_time: time[1],""", """            min_time: time_array[0],
            max_time: time[1],""")],
    "a file whose recorded first time is not that of its first timestep",
    "the first time of the list is reported as the recorded first time",
    """
#[test]
fn first() {
    times("first", 5, 2);
    let f = hdf5::File::open("first").unwrap();
    f.new_attr_builder().with_data(&Array1::from_vec(vec![-0.5, 4.5])).create("time").unwrap();
    let d = TData::new("first");
    assert_eq!(*d.global_stats().min_time(), -0.5);
    assert_eq!(*d.global_stats().max_time(), 4.5);
}
""")
bug("c42_velocity", "C42", P,
    [("""            min_time: time[0],
            max_time: time[1],
            sample_rate,
            velocity,""", """            min_time: time[0],
            max_time: time[1],
            sample_rate,
            velocity: velocity.reversed_axes(),""")],
    "a file whose extremes of the velocity are not symmetric in components and kind",
    "minimum, mean and maximum are mixed up with the components",
    """
#[test]
fn extremes() {
    parts("extremes", 5, 2);
    let f = hdf5::File::open("extremes").unwrap();
    let v = Array2::from_shape_fn((3, 3), |(i, k)| (3 * i + k) as f64);
    f.new_attr_builder().with_data(&v).create("velocity").unwrap();
    let d = PData::new("extremes");
    assert_eq!(*d.global_stats().velocity(), v);
}
""")
