// In-memory recordings for the demonstrations; compiled as a module of the crate.
#![allow(unused, dead_code)]
use super::*;
use crate::comparison::*;
use crate::functions::conditional::*;
use crate::functions::extractions::*;
use crate::functions::mixing::*;
use crate::functions::*;
use crate::grid::*;
use crate::grid::Dim;
use crate::particleselector::*;
use crate::utilities::*;
use ndarray::{array, Array, Array1, Array2, Array3};

pub struct Mock {
    pub steps: Vec<Timestep>,
    pub asked: std::cell::RefCell<Vec<usize>>,
    pub dims: Array2<f64>,
    pub vmag: Array1<f64>,
    pub ready: Vec<usize>,
}

// one particle: position, velocity, radius, clouds, density, type
#[derive(Clone, Copy)]
pub struct Part(pub [f64; 3], pub [f64; 3], pub f64, pub f64, pub f64, pub f64);

pub fn part(p: [f64; 3], v: [f64; 3]) -> Part {
    Part(p, v, 1.0, 0.0, 1000.0, 1.0)
}

// steps: (time, particles)
pub fn mock(steps: &[(f64, Vec<Part>)]) -> Mock {
    let steps: Vec<Timestep> = steps
        .iter()
        .map(|(t, ps)| Timestep {
            time: *t,
            position: ps.iter().map(|p| p.0).collect(),
            velocity: Array2::from_shape_fn((ps.len(), 3), |(i, k)| ps[i].1[k]),
            radius: ps.iter().map(|p| p.2).collect(),
            particleid: (0..ps.len()).map(|i| (i + 1) as f64).collect(),
            clouds: ps.iter().map(|p| p.3).collect(),
            density: ps.iter().map(|p| p.4).collect(),
            ptype: ps.iter().map(|p| p.5).collect(),
        })
        .collect();
    Mock {
        steps,
        asked: Default::default(),
        dims: array![[0.0, 0.0, 0.0], [10.0, 10.0, 10.0]],
        vmag: array![0.0, 1.0, 10.0],
        ready: vec![],
    }
}

impl DataManager for Mock {
    fn get_timestep(&mut self, timestep: usize) -> &Timestep {
        self.asked.borrow_mut().push(timestep);
        &self.steps[timestep]
    }
    fn global_stats(&self) -> GlobalStats {
        let times: Array1<f64> = self.steps.iter().map(|s| s.time).collect();
        GlobalStats {
            dimensions: self.dims.clone(),
            nparticles: self.steps.iter().map(|s| s.position.len()).max().unwrap_or(0),
            ntimesteps: self.steps.len(),
            min_time: times[0],
            max_time: times[times.len() - 1],
            sample_rate: 1.0,
            velocity: array![[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [10.0, 10.0, 10.0]],
            velocity_mag: self.vmag.clone(),
            time_array: times,
        }
    }
    fn stats(&self) {}
    fn get_timestep_unbuffered(&self, timestep: usize) -> Timestep {
        self.asked.borrow_mut().push(timestep);
        self.steps[timestep].clone()
    }
    fn setup_buffer(&mut self, id: usize) {
        self.ready.push(id);
    }
    fn get_timestep_buffer(&mut self, timestep: usize, id: usize) -> &Timestep {
        assert!(self.ready.contains(&id), "buffer {} was not set up", id);
        self.asked.borrow_mut().push(timestep);
        &self.steps[timestep]
    }
    fn info(&self) -> Result<String, &'static str> {
        Ok(String::new())
    }
    fn set_rotation_angle(&mut self, _angle: f64, _axis: f64) {}
    fn set_rotation_anker(&mut self, _point: [f64; 3]) {}
}
impl Manager for Mock {}

pub fn cart(n: usize) -> Box<dyn GridFunctions3D> {
    Box::new(CartesianGrid3D::new(
        [n, n, n],
        Dim::ThreeD([[0.0, 10.0], [0.0, 10.0], [0.0, 10.0]]),
    ))
}
pub fn cyl(n: usize) -> Box<dyn GridFunctions3D> {
    Box::new(CylindricalGrid3D::new(
        [n, n, n],
        Dim::ThreeD([[0.0, 10.0], [0.0, 10.0], [0.0, 10.0]]),
        "volume",
    ))
}
pub fn all() -> ParticleSelector {
    ParticleSelector::default()
}
pub fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}
pub fn panics<R>(f: impl FnOnce() -> R) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}
