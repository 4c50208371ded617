//! Stand-in for the plotly crate: traces keep what they were given, so that a monitor can read it.
use std::any::Any;

/// what can be plotted
pub trait Datum: Clone + 'static {
    fn json(&self) -> String;
}
macro_rules! plain {
    ($($t:ty),*) => {$(impl Datum for $t { fn json(&self) -> String { self.to_string() } })*};
}
plain!(i32, i64, u32, u64, usize, bool);
impl Datum for f64 {
    fn json(&self) -> String {
        if self.is_finite() { format!("{self:?}") } else { "null".into() }
    }
}
impl Datum for f32 {
    fn json(&self) -> String {
        if self.is_finite() { format!("{self:?}") } else { "null".into() }
    }
}
impl Datum for String {
    fn json(&self) -> String { text(self) }
}
impl Datum for &'static str {
    fn json(&self) -> String { text(self) }
}
impl<T: Datum> Datum for Vec<T> {
    fn json(&self) -> String { list(self) }
}
fn text(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
}
fn list<T: Datum>(v: &[T]) -> String {
    format!("[{}]", v.iter().map(|x| x.json()).collect::<Vec<_>>().join(","))
}

#[derive(Default)]
struct Object(Vec<String>);
impl Object {
    fn raw(mut self, k: &str, v: impl Into<String>) -> Self {
        self.0.push(format!("{}:{}", text(k), v.into()));
        self
    }
    fn opt<T>(self, k: &str, v: &Option<T>, f: impl Fn(&T) -> String) -> Self {
        match v {
            Some(v) => self.raw(k, f(v)),
            None => self,
        }
    }
    fn end(self) -> String {
        format!("{{{}}}", self.0.join(","))
    }
}

pub trait Trace: Any {
    fn to_json(&self) -> String;
    fn as_any(&self) -> &dyn Any;
    fn clone_box(&self) -> Box<dyn Trace>;
}
impl Clone for Box<dyn Trace> {
    fn clone(&self) -> Self {
        self.as_ref().clone_box()
    }
}
macro_rules! trace {
    ($name:ident<$($g:ident),*>) => {
        impl<$($g: Datum),*> Trace for $name<$($g),*> {
            fn to_json(&self) -> String { self.json() }
            fn as_any(&self) -> &dyn Any { self }
            fn clone_box(&self) -> Box<dyn Trace> { Box::new(self.clone()) }
        }
    };
}
/// setters that take and return a box
macro_rules! boxed {
    ($($name:ident: $t:ty),* $(,)?) => {$(
        pub fn $name(mut self: Box<Self>, v: $t) -> Box<Self> { self.$name = Some(v.into()); self }
    )*};
}
macro_rules! plain_set {
    ($($name:ident: $t:ty),* $(,)?) => {$(
        pub fn $name(mut self, v: $t) -> Self { self.$name = Some(v.into()); self }
    )*};
}

pub mod color {
    /// a colour as it is written
    #[derive(Clone, Debug, PartialEq)]
    pub struct Tint(pub String);
    pub trait Color {
        fn tint(&self) -> Tint;
    }
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum NamedColor { Black, White, Grey, Gray, Red, Green, Blue }
    impl Color for NamedColor {
        fn tint(&self) -> Tint { Tint(format!("{self:?}").to_lowercase()) }
    }
    impl Color for String {
        fn tint(&self) -> Tint { Tint(self.clone()) }
    }
    impl Color for &str {
        fn tint(&self) -> Tint { Tint(self.to_string()) }
    }
}
use color::{Color, Tint};

pub mod common {
    use super::color::{Color, Tint};
    use super::*;
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum Mode { Lines, Markers, Text, LinesMarkers, None }
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum Fill { ToSelf, ToNext, None }
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum MarkerSymbol { Cross, Circle, Square, Diamond, X }
    #[derive(Clone, Debug, PartialEq)]
    pub struct ColorScaleElement(pub f64, pub String);
    #[derive(Clone, Debug, PartialEq)]
    pub enum ColorScale { Vector(Vec<ColorScaleElement>) }
    impl ColorScale {
        pub(crate) fn json(&self) -> String {
            let ColorScale::Vector(v) = self;
            format!("[{}]", v.iter().map(|e| format!("[{:?},{}]", e.0, text(&e.1))).collect::<Vec<_>>().join(","))
        }
    }
    #[derive(Clone, Debug, Default, PartialEq)]
    pub struct ColorBar {}
    impl ColorBar {
        pub fn new() -> Self { Default::default() }
    }
    #[derive(Clone, Debug, Default, PartialEq)]
    pub struct Line { pub color: Option<Tint>, pub width: Option<f64> }
    impl Line {
        pub fn new() -> Self { Default::default() }
        pub fn color<C: Color>(mut self, c: C) -> Self { self.color = Some(c.tint()); self }
        plain_set!(width: f64);
        pub(crate) fn json(&self) -> String {
            Object::default().opt("color", &self.color, |c| text(&c.0)).opt("width", &self.width, |w| w.json()).end()
        }
    }
    #[derive(Clone, Debug, Default, PartialEq)]
    pub struct Marker {
        pub cmin: Option<f64>, pub cmax: Option<f64>, pub color_bar: Option<ColorBar>, pub color_scale: Option<ColorScale>,
        pub show_scale: Option<bool>, pub size: Option<usize>, pub symbol: Option<MarkerSymbol>, pub color: Option<Tint>,
    }
    impl Marker {
        pub fn new() -> Self { Default::default() }
        pub fn color<C: Color>(mut self, c: C) -> Self { self.color = Some(c.tint()); self }
        plain_set!(cmin: f64, cmax: f64, color_bar: ColorBar, color_scale: ColorScale, show_scale: bool, size: usize, symbol: MarkerSymbol);
        pub(crate) fn json(&self) -> String {
            Object::default()
                .opt("cmin", &self.cmin, |v| v.json()).opt("cmax", &self.cmax, |v| v.json())
                .opt("colorbar", &self.color_bar, |_| "{}".into())
                .opt("colorscale", &self.color_scale, |v| v.json())
                .opt("showscale", &self.show_scale, |v| v.json()).opt("size", &self.size, |v| v.json())
                .opt("symbol", &self.symbol, |v| text(&format!("{v:?}").to_lowercase()))
                .opt("color", &self.color, |c| text(&c.0))
                .end()
        }
    }
}
use common::{ColorBar, ColorScale, Fill, Line, Marker, Mode};

pub mod traces {
    pub mod heat_map { pub use crate::HeatMap; }
    pub mod contour { pub use crate::{contour::Contours, Contour}; }
    pub mod scatter { pub use crate::Scatter; }
}

#[derive(Clone, Debug)]
pub struct Scatter<X: Datum, Y: Datum> {
    pub x: Vec<X>, pub y: Vec<Y>, pub mode: Option<Mode>, pub show_legend: Option<bool>, pub fill: Option<Fill>,
    pub fill_color: Option<Tint>, pub line: Option<Line>, pub marker: Option<Marker>, pub name: Option<String>,
}
impl<X: Datum, Y: Datum> Scatter<X, Y> {
    pub fn new(x: Vec<X>, y: Vec<Y>) -> Box<Self> {
        Box::new(Scatter { x, y, mode: None, show_legend: None, fill: None, fill_color: None, line: None, marker: None, name: None })
    }
    boxed!(mode: Mode, show_legend: bool, fill: Fill, line: Line, marker: Marker, name: &str);
    pub fn fill_color<C: Color>(mut self: Box<Self>, c: C) -> Box<Self> { self.fill_color = Some(c.tint()); self }
    fn json(&self) -> String {
        Object::default().raw("type", "\"scatter\"").raw("x", list(&self.x)).raw("y", list(&self.y))
            .opt("mode", &self.mode, |m| text(&format!("{m:?}").to_lowercase()))
            .opt("showlegend", &self.show_legend, |v| v.json())
            .opt("fill", &self.fill, |f| text(&format!("{f:?}").to_lowercase()))
            .opt("fillcolor", &self.fill_color, |c| text(&c.0))
            .opt("line", &self.line, |l| l.json()).opt("marker", &self.marker, |m| m.json())
            .opt("name", &self.name, |n| text(n))
            .end()
    }
}
trace!(Scatter<X, Y>);

#[derive(Clone, Debug)]
pub struct HeatMap<X: Datum, Y: Datum, Z: Datum> {
    pub x: Option<Vec<X>>, pub y: Option<Vec<Y>>, pub z: Vec<Z>, pub color_scale: Option<ColorScale>, pub color_bar: Option<ColorBar>,
    pub show_scale: Option<bool>, pub transpose: Option<bool>, pub zmin: Option<f64>, pub zmax: Option<f64>, pub name: Option<String>,
}
impl<X: Datum, Y: Datum, Z: Datum> HeatMap<X, Y, Z> {
    pub fn new(x: Vec<X>, y: Vec<Y>, z: Vec<Z>) -> Box<Self> {
        Box::new(HeatMap { x: Some(x), y: Some(y), z, color_scale: None, color_bar: None, show_scale: None, transpose: None, zmin: None, zmax: None, name: None })
    }
    boxed!(color_scale: ColorScale, color_bar: ColorBar, show_scale: bool, transpose: bool, zmin: f64, zmax: f64, name: &str);
    fn json(&self) -> String {
        Object::default().raw("type", "\"heatmap\"").opt("x", &self.x, |x| list(x)).opt("y", &self.y, |y| list(y)).raw("z", list(&self.z))
            .opt("colorscale", &self.color_scale, |c| c.json()).opt("showscale", &self.show_scale, |v| v.json())
            .opt("transpose", &self.transpose, |v| v.json()).opt("zmin", &self.zmin, |v| v.json()).opt("zmax", &self.zmax, |v| v.json())
            .end()
    }
}
trace!(HeatMap<X, Y, Z>);

pub mod contour {
    #[derive(Clone, Debug, Default, PartialEq)]
    pub struct Contours { pub start: Option<f64>, pub end: Option<f64>, pub size: Option<f64> }
    impl Contours {
        pub fn new() -> Self { Default::default() }
        plain_set!(start: f64, end: f64, size: f64);
        pub(crate) fn json(&self) -> String {
            use crate::Datum;
            crate::Object::default().opt("start", &self.start, |v| v.json()).opt("end", &self.end, |v| v.json()).opt("size", &self.size, |v| v.json()).end()
        }
    }
}
use contour::Contours;

#[derive(Clone, Debug)]
pub struct Contour<Z: Datum, X: Datum = f64, Y: Datum = f64> {
    pub x: Option<Vec<X>>, pub y: Option<Vec<Y>>, pub z: Vec<Z>, pub color_scale: Option<ColorScale>, pub contours: Option<Contours>,
    pub auto_contour: Option<bool>, pub n_contours: Option<usize>, pub transpose: Option<bool>,
}
impl<Z: Datum, X: Datum, Y: Datum> Contour<Z, X, Y> {
    pub fn new(x: Vec<X>, y: Vec<Y>, z: Vec<Z>) -> Box<Self> {
        Box::new(Contour { x: Some(x), y: Some(y), z, color_scale: None, contours: None, auto_contour: None, n_contours: None, transpose: None })
    }
    boxed!(color_scale: ColorScale, contours: Contours, auto_contour: bool, n_contours: usize, transpose: bool);
    fn json(&self) -> String {
        Object::default().raw("type", "\"contour\"").opt("x", &self.x, |x| list(x)).opt("y", &self.y, |y| list(y)).raw("z", list(&self.z))
            .opt("colorscale", &self.color_scale, |c| c.json()).opt("contours", &self.contours, |c| c.json())
            .opt("autocontour", &self.auto_contour, |v| v.json()).opt("ncontours", &self.n_contours, |v| v.json())
            .opt("transpose", &self.transpose, |v| v.json())
            .end()
    }
}
impl<Z: Datum, X: Datum, Y: Datum> Trace for Contour<Z, X, Y> {
    fn to_json(&self) -> String { self.json() }
    fn as_any(&self) -> &dyn Any { self }
    fn clone_box(&self) -> Box<dyn Trace> { Box::new(self.clone()) }
}

pub mod layout {
    #[derive(Clone, Debug, Default)]
    pub struct Template {}
    #[derive(Clone, Debug, Default)]
    pub struct Layout { pub template: Option<Template> }
    impl Layout {
        pub fn new() -> Self { Default::default() }
        pub fn template<T: std::borrow::Borrow<Template>>(mut self, t: T) -> Self { self.template = Some(t.borrow().clone()); self }
    }
    pub mod themes {
        use super::Template;
        pub static PLOTLY_WHITE: std::sync::LazyLock<Template> = std::sync::LazyLock::new(Template::default);
    }
}
pub use layout::Layout;

#[derive(Clone, Default)]
pub struct Plot { pub traces: Vec<Box<dyn Trace>>, pub layout: Layout }
impl Plot {
    pub fn new() -> Self { Default::default() }
    pub fn use_local_plotly(&mut self) {}
    pub fn add_trace(&mut self, t: Box<dyn Trace>) { self.traces.push(t) }
    pub fn add_traces(&mut self, t: Vec<Box<dyn Trace>>) { self.traces.extend(t) }
    pub fn set_layout(&mut self, l: Layout) { self.layout = l }
    pub fn layout(&self) -> &Layout { &self.layout }
    /// what would be opened in a browser is written to the file named by UP4_STUB_PLOTLY_SHOW
    pub fn show(&self) {
        if let Some(path) = std::env::var_os("UP4_STUB_PLOTLY_SHOW") {
            std::fs::write(path, self.to_json()).expect("stub plotly: cannot write the figure");
        }
    }
    pub fn to_json(&self) -> String {
        format!("{{\"data\":[{}],\"layout\":{{}},\"config\":{{}}}}", self.traces.iter().map(|t| t.to_json()).collect::<Vec<_>>().join(","))
    }
}
