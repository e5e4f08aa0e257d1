//! Signatures of the part of plotly that up4 names (see ../../hdf5/src/lib.rs).

pub trait Trace: 'static {
    fn to_json(&self) -> String;
}

macro_rules! setters {
    ($($name:ident($($t:ty)?)),* $(,)?) => { $(
        pub fn $name(self: Box<Self>, $(_v: $t)?) -> Box<Self> { self }
    )* };
}
macro_rules! plain {
    ($($name:ident($($t:ty)?)),* $(,)?) => { $(
        pub fn $name(self, $(_v: $t)?) -> Self { self }
    )* };
}

macro_rules! trace {
    ($t:ident<$($g:ident $(= $d:ty)?),*>($($a:ident: $v:ty),*) { $($body:tt)* }) => {
        #[derive(Debug, Clone)]
        pub struct $t<$($g $(= $d)?),*> { $($a: $v),* }
        impl<$($g: Clone + 'static),*> $t<$($g),*> {
            pub fn new($($a: $v),*) -> Box<Self> {
                Box::new($t { $($a),* })
            }
            setters!(name(&str), show_legend(bool), opacity(f64), text_array(Vec<String>),
                     hover_text(&str), x_axis(&str), y_axis(&str), visible(common::Visible));
            $($body)*
        }
        impl<$($g: Clone + 'static),*> Trace for $t<$($g),*> {
            fn to_json(&self) -> String {
                String::new()
            }
        }
    };
}

trace!(Scatter<X, Y>(x: Vec<X>, y: Vec<Y>) {
    setters!(mode(common::Mode), fill(common::Fill), line(common::Line), marker(common::Marker));
    pub fn fill_color<C: color::Color>(self: Box<Self>, _c: C) -> Box<Self> {
        self
    }
});
trace!(HeatMap<X, Y, Z>(x: Vec<X>, y: Vec<Y>, z: Vec<Z>) {
    setters!(color_scale(common::ColorScale), show_scale(bool), reverse_scale(bool),
             color_bar(common::ColorBar), zmin(Z), zmax(Z), zmid(Z), transpose(bool),
             zauto(bool), auto_color_scale(bool));
});
trace!(Contour<Z, X = f64, Y = f64>(x: Vec<X>, y: Vec<Y>, z: Vec<Z>) {
    setters!(color_scale(common::ColorScale), show_scale(bool), auto_contour(bool),
             n_contours(usize), contours(contour::Contours), line(common::Line), transpose(bool),
             reverse_scale(bool), zmin(Z), zmax(Z), color_bar(common::ColorBar));
});

pub mod color {
    pub trait Color: std::fmt::Debug {}
    impl Color for String {}
    impl Color for &str {}
    #[derive(Debug, Clone, Copy)]
    pub enum NamedColor {
        Black,
        White,
        Red,
        Green,
        Blue,
        Gray,
        Grey,
    }
    impl Color for NamedColor {}
    #[derive(Debug, Clone, Copy)]
    pub struct Rgb;
    impl Rgb {
        pub fn new(_r: u8, _g: u8, _b: u8) -> Rgb {
            Rgb
        }
    }
    impl Color for Rgb {}
}

pub mod common {
    use crate::color::Color;
    #[derive(Debug, Clone)]
    pub enum Mode {
        Lines,
        Markers,
        LinesMarkers,
        Text,
        None,
    }
    #[derive(Debug, Clone)]
    pub enum Visible {
        True,
        False,
        LegendOnly,
    }
    #[derive(Debug, Clone)]
    pub enum Fill {
        ToZeroY,
        ToZeroX,
        ToNextY,
        ToNextX,
        ToSelf,
        ToNext,
        None,
    }
    #[derive(Debug, Clone)]
    pub enum MarkerSymbol {
        Circle,
        CircleOpen,
        Square,
        Diamond,
        Cross,
        X,
    }
    #[derive(Debug, Clone)]
    pub enum DashType {
        Solid,
        Dot,
        Dash,
    }
    #[derive(Debug, Clone)]
    pub enum ColorScalePalette {
        Greys,
        Viridis,
        Jet,
    }
    #[derive(Debug, Clone)]
    pub struct ColorScaleElement(pub f64, pub String);
    #[derive(Debug, Clone)]
    pub enum ColorScale {
        Palette(ColorScalePalette),
        Vector(Vec<ColorScaleElement>),
    }
    #[derive(Debug, Clone, Default)]
    pub struct ColorBar;
    impl ColorBar {
        pub fn new() -> Self {
            ColorBar
        }
    }
    #[derive(Debug, Clone, Default)]
    pub struct Line;
    impl Line {
        pub fn new() -> Self {
            Line
        }
        pub fn color<C: Color>(self, _c: C) -> Self {
            self
        }
        plain!(width(f64), dash(DashType), color_scale(ColorScale));
    }
    #[derive(Debug, Clone, Default)]
    pub struct Marker;
    impl Marker {
        pub fn new() -> Self {
            Marker
        }
        pub fn color<C: Color>(self, _c: C) -> Self {
            self
        }
        plain!(symbol(MarkerSymbol), opacity(f64), size(usize), cmin(f64), cmax(f64), cmid(f64),
               color_scale(ColorScale), color_bar(ColorBar), show_scale(bool), line(Line),
               reverse_scale(bool), cauto(bool));
    }
}

pub mod contour {
    #[derive(Debug, Clone, Default)]
    pub struct Contours;
    impl Contours {
        pub fn new() -> Self {
            Contours
        }
        plain!(start(f64), end(f64), size(f64), show_lines(bool), show_labels(bool),
               coloring(Coloring), value(f64));
    }
    #[derive(Debug, Clone)]
    pub enum Coloring {
        Fill,
        HeatMap,
        Lines,
        None,
    }
}

pub mod traces {
    pub mod heat_map {
        pub use crate::HeatMap;
    }
}

pub mod layout {
    #[derive(Debug, Clone, Default)]
    pub struct Template;
    #[derive(Debug, Clone, Default)]
    pub struct Axis;
    impl Axis {
        pub fn new() -> Self {
            Axis
        }
    }
    #[derive(Debug, Clone, Default)]
    pub struct Layout;
    impl Layout {
        pub fn new() -> Self {
            Layout
        }
        plain!(x_axis(Axis), y_axis(Axis), show_legend(bool), width(usize), height(usize),
               title(&str));
        pub fn template<T: AsRef<Template>>(self, _t: T) -> Self {
            self
        }
    }
    impl AsRef<Template> for Template {
        fn as_ref(&self) -> &Template {
            self
        }
    }
    pub mod themes {
        use super::Template;
        pub static PLOTLY_WHITE: std::sync::LazyLock<Template> =
            std::sync::LazyLock::new(Template::default);
    }
}

pub use layout::Layout;

#[derive(Default)]
pub struct Plot {
    traces: Vec<Box<dyn Trace>>,
}
impl Plot {
    pub fn new() -> Plot {
        Plot::default()
    }
    pub fn add_trace(&mut self, trace: Box<dyn Trace>) {
        self.traces.push(trace);
    }
    pub fn add_traces(&mut self, traces: Vec<Box<dyn Trace>>) {
        self.traces.extend(traces);
    }
    pub fn set_layout(&mut self, _layout: Layout) {}
    pub fn use_local_plotly(&mut self) {}
    pub fn show(&self) {}
    pub fn to_json(&self) -> String {
        String::new()
    }
    pub fn to_html(&self) -> String {
        String::new()
    }
}
