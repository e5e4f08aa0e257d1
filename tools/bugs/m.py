"""Changes to what grids say of themselves."""
import os
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "h.py")).read()
scope = {"__file__": __file__}
exec(src.split("PY = ")[0], scope)
PRE, BUGS = scope["PRE"], []
READ = '''
import re


def line(text, word):
    l = [l for l in text.lower().split("\\n") if word in l]
    assert len(l) == 1, (word, text)
    l = l[0].split(word, 1)[1]
    return [float(x) if x != "nan" else x for x in re.findall(r"-?[0-9.]+(?:e-?[0-9]+)?|nan", l)]


def near(a, b):
    assert len(a) == len(b) and all(abs(x - y) < 1e-6 for x, y in zip(a, b)), (a, b)


g = u.RustGrid.cartesian3d([3, 2, 4], [0., 40., 0., 80., 0., 120.])
d = tracer()
'''


def py(id, file, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property="C61", file=file, edits=edits, needs=needs, breaks=breaks, py=PRE + READ + demo))


def rs(id, file, edits, needs, breaks, test):
    BUGS.append(dict(id=id, property="C61", file=file, edits=edits, needs=needs, breaks=breaks, nth=None, test=test))


L = "src/pylib/libgrid.rs"
CART, CYL, VEC = "src/grid/cartesian_grid.rs", "src/grid/cylindrical_grid.rs", "src/grid/vector_grid.rs"
STR = "    fn __str__(&self) -> PyResult<String> {\n        Ok(format!(\n            \"Grid3D"
py("c61_limits_turned", L, [("""            self.grid.get_limits()[1],
            self.grid.get_limits()[2],
            nan_mean(self.grid.get_data()), 
            nan_std(self.grid.get_data()),
            self.grid.get_data().min_skipnan(),
            self.grid.get_data().max_skipnan()
        ))
    }

    /// Return the cell id""", """            self.grid.get_limits()[2],
            self.grid.get_limits()[1],
            nan_mean(self.grid.get_data()), 
            nan_std(self.grid.get_data()),
            self.grid.get_data().min_skipnan(),
            self.grid.get_data().max_skipnan()
        ))
    }

    /// Return the cell id""")],
   "the representation of a grid whose y and z limits differ", "the limits of y and z are said for one another", """
near(line(repr(g), "ylim"), [0, 80])
near(line(repr(g), "zlim"), [0, 120])
""")
py("c61_vector_extremes", L, [("""            self.grid.get_data().std(1.),
            self.grid.get_data().min_skipnan(),
            self.grid.get_data().max_skipnan()
        ))
    }
    fn __repr__""", """            self.grid.get_data().std(1.),
            self.grid.get_data().max_skipnan(),
            self.grid.get_data().min_skipnan()
        ))
    }
    fn __repr__""")],
   "the text of a field of vectors that is not the same everywhere", "the least and the greatest value are said for one another", """
v = str(d.vectorfield(g))
assert line(v, "min") <= line(v, "max"), v
assert line(v, "min") != line(v, "max"), v
""")
py("c61_data_is_weight", L, [("""            nan_mean(self.grid.get_data()), 
            nan_std(self.grid.get_data()),
            self.grid.get_data().min_skipnan(),
            self.grid.get_data().max_skipnan()
        ))
    }
    fn __repr__""", """            nan_mean(self.grid.get_weights()), 
            nan_std(self.grid.get_data()),
            self.grid.get_data().min_skipnan(),
            self.grid.get_data().max_skipnan()
        ))
    }
    fn __repr__""")],
   "the text of a grid whose values are not its weights", "the mean of the weights is said for that of the values", """
n = d.velocityfield(g)
a = n.to_numpy()
near(line(str(n), "mean"), [float(np.nanmean(a))])
""")
LINE = """
fn line(text: &str, word: &str) -> Vec<f64> {
    let l = text.lines().find(|l| l.contains(word)).unwrap();
    l.split(word).nth(1).unwrap().split(|c: char| !c.is_ascii_digit() && c != '.' && c != '-' && c != 'e')
        .filter_map(|x| x.parse().ok()).collect()
}
fn values(n: usize) -> Array3<f64> {
    Array3::from_shape_fn((n, n, n), |(i, j, k)| (1 + i + 2 * j + 5 * k) as f64)
}
"""
rs("c61_mean_with_gaps", CYL, [("""            self.limits[2],
            nan_mean(&self.data),
            nan_std(&self.data),
            self.data.min_skipnan(),
            self.data.max_skipnan()
        )
    }
}

impl std::ops::Index""", """            self.limits[2],
            self.data.mean().unwrap_or(f64::NAN),
            nan_std(&self.data),
            self.data.min_skipnan(),
            self.data.max_skipnan()
        )
    }
}

impl std::ops::Index""")],
   "a cylindrical grid with an empty cell that is printed", "the mean said is no number as soon as one cell is empty", LINE + """
#[test]
fn gaps_do_not_count() {
    let mut g = crate::grid::CylindricalGrid3D::new([2; 3], Dim::ThreeD([[0.0, 2.0], [0.0, 6.0], [0.0, 3.0]]), "volume");
    let mut v = values(2);
    v[[1, 1, 1]] = f64::NAN;
    g.set_data(v.clone());
    let mean = (v.iter().filter(|x| !x.is_nan()).sum::<f64>()) / 7.0;
    let said = line(&format!("{}", g), "Mean:");
    assert!(said.len() == 1 && near(said[0], mean));
}
""")
rs("c61_debug_extremes", CART, [("""            nan_std(&self.data),
            self.data.min_skipnan(),
            self.data.max_skipnan()
        )
    }
}

impl std::fmt::Display""", """            nan_std(&self.data),
            self.data.iter().fold(0.0f64, |a, &b| a.min(b)),
            self.data.max_skipnan()
        )
    }
}

impl std::fmt::Display""")],
   "a grid that is printed for debugging, with no value below one", "the least value said is never above zero", LINE + """
#[test]
fn least_is_least() {
    let mut g = crate::grid::CartesianGrid3D::new([2; 3], Dim::ThreeD([[0.0, 2.0], [0.0, 6.0], [0.0, 3.0]]));
    g.set_data(values(2));
    assert!(near(line(&format!("{:?}", g), "Min:")[0], 1.0));
    assert!(near(line(&format!("{}", g), "Min:")[0], 1.0));
}
""")
rs("c61_second_component", VEC, [("""            self.data[1]
                .get_data()
                .mean()
                .expect("Unable to calculate mean of data"),
            self.data[2]
                .get_data()
                .mean()
                .expect("Unable to calculate mean of data"),
        )
    }
}

impl GridFunctions3D""", """            self.data[2]
                .get_data()
                .mean()
                .expect("Unable to calculate mean of data"),
            self.data[1]
                .get_data()
                .mean()
                .expect("Unable to calculate mean of data"),
        )
    }
}

impl GridFunctions3D""")],
   "a field of vectors that is printed", "the means of the second and third component are said for one another", LINE + """
#[test]
fn components_in_turn() {
    let mut v = crate::grid::VectorGrid::new(cart(2));
    for (k, d) in v.data.iter_mut().enumerate() {
        d.set_data(values(2).mapv(|x| x * (1 + k) as f64));
    }
    let text = format!("{}", v);
    let mean = values(2).mean().unwrap();
    for k in 0..3 {
        assert!(near(line(&text, &format!("Dim {}:", k + 1))[0], mean * (1 + k) as f64));
    }
}
""")
