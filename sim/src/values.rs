//! Value and name generators. Every value is a pure function of a numeric argument.
use crate::rng::Rng;
use svgdom::*;

pub const ELEMENTS: &str = include_str!("../data/elements.txt");
pub const ATTRIBUTES: &str = include_str!("../data/attributes.txt");

pub struct Tables {
    /// Every known SVG element except `style`, by its identifier.
    pub elems: Vec<ElementId>,
    /// Every known SVG attribute a normal-form document may carry.
    pub attrs: Vec<AttributeId>,
    /// Attributes that can hold links.
    pub link_attrs: Vec<AttributeId>,
}

pub fn tables() -> Tables {
    let elems = ELEMENTS.lines().filter(|s| !s.is_empty() && *s != "style")
        .filter_map(ElementId::from_str).collect();
    let attrs = ATTRIBUTES.lines()
        .filter(|s| !s.is_empty() && !["id", "class", "style", "xmlns"].contains(s))
        .filter_map(AttributeId::from_str).collect();
    use AttributeId as A;
    Tables {
        elems,
        attrs,
        link_attrs: vec![A::Href, A::Fill, A::Stroke, A::ClipPath, A::Filter, A::Marker,
                         A::MarkerStart, A::MarkerMid, A::MarkerEnd, A::Mask],
    }
}

pub fn num(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => r.below(10) as f64,
        1 => -(r.below(10) as f64),
        2 => r.below(1_000_000) as f64,
        3 => (r.below(2000) as f64 - 1000.0) / 1000.0,
        4 => (r.below(200) as f64 - 100.0) / 10.0,
        5 => (r.below(20_000_000) as f64 - 10_000_000.0) / 1000.0,
        6 => r.below(100) as f64 / 100.0,
        _ => (r.below(2000) as f64 - 1000.0) / 8.0,
    }
}

pub fn pos_num(r: &mut Rng) -> f64 {
    let n = num(r).abs();
    if n == 0.0 { 1.0 } else { n }
}

pub fn unit(r: &mut Rng) -> LengthUnit {
    use LengthUnit::*;
    *r.pick(&[None, None, Em, Ex, Px, In, Cm, Mm, Pt, Pc, Percent])
}

pub fn length(r: &mut Rng) -> Length { let n = num(r); Length::new(n, unit(r)) }

pub fn color(r: &mut Rng) -> Color {
    if r.chance(1, 3) {
        let d = |r: &mut Rng| { let x = r.below(16) as u8; x * 17 };
        Color::new(d(r), d(r), d(r))
    } else {
        Color::new(r.below(256) as u8, r.below(256) as u8, r.below(256) as u8)
    }
}

pub fn angle(r: &mut Rng) -> Angle {
    let n = num(r);
    Angle::new(n, *r.pick(&[AngleUnit::Degrees, AngleUnit::Gradians, AngleUnit::Radians]))
}

pub fn path(r: &mut Rng) -> Path {
    let mut v = vec![PathSegment::MoveTo { abs: r.chance(1, 2), x: num(r), y: num(r) }];
    let n = if r.chance(1, 40) { r.range(60, 150) } else { r.below(6) };
    for _ in 0..n {
        let abs = r.chance(1, 2);
        v.push(match r.below(10) {
            0 => PathSegment::MoveTo { abs, x: num(r), y: num(r) },
            1 | 2 => PathSegment::LineTo { abs, x: num(r), y: num(r) },
            3 => PathSegment::HorizontalLineTo { abs, x: num(r) },
            4 => PathSegment::VerticalLineTo { abs, y: num(r) },
            5 => PathSegment::CurveTo { abs, x1: num(r), y1: num(r), x2: num(r), y2: num(r), x: num(r), y: num(r) },
            6 => PathSegment::SmoothCurveTo { abs, x2: num(r), y2: num(r), x: num(r), y: num(r) },
            7 => PathSegment::Quadratic { abs, x1: num(r), y1: num(r), x: num(r), y: num(r) },
            8 => PathSegment::SmoothQuadratic { abs, x: num(r), y: num(r) },
            _ => PathSegment::EllipticalArc { abs, rx: pos_num(r), ry: pos_num(r), x_axis_rotation: num(r),
                    large_arc: r.chance(1, 2), sweep: r.chance(1, 2), x: num(r), y: num(r) },
        });
    }
    if r.chance(1, 3) {
        v.push(PathSegment::ClosePath { abs: r.chance(1, 2) });
    }
    Path(v)
}

pub fn transform(r: &mut Rng) -> Transform {
    let tiny = |r: &mut Rng| (r.below(41) as f64 - 20.0) / 10_000.0;
    let mut t = match r.below(7) {
        5 => Transform::new(1.0 + tiny(r), 0.0, 0.0, 1.0 + tiny(r), 0.0, 0.0),
        6 => Transform::new(1.0, tiny(r), tiny(r), 1.0, tiny(r), tiny(r)),
        0 => Transform::new_translate(num(r), num(r)),
        1 => Transform::new_scale(num(r), num(r)),
        2 => Transform::new_rotate(r.below(360) as f64),
        _ => Transform::new(num(r), num(r), num(r), num(r), num(r), num(r)),
    };
    if t.is_default() { t.e = 3.0; }
    t
}

pub fn aspect(r: &mut Rng) -> AspectRatio {
    use Align::*;
    AspectRatio {
        defer: r.chance(1, 3),
        align: *r.pick(&[None, XMinYMin, XMidYMin, XMaxYMin, XMinYMid, XMidYMid, XMaxYMid, XMinYMax, XMidYMax, XMaxYMax]),
        slice: r.chance(1, 3),
    }
}

const WORDS: &[&str] = &["a", "b2", "Zeta", "x-y", "q_q", "0", "12px", "a&b", "<b>", "\"q\"", "'s'", "&amp;", "&#38;",
    "é", "日本", "😀", "a>b", "%", "#", "url(x)", "]]>", "--", "=", "/", "\\", "{}", ";", "&lt;", "a\tb", "a\nb", "a\r\nb", "\u{a0}m", "&quot;", "&", "<", "inherited", "nonesuch"];

/// How long a list is: short mostly, sometimes long.
pub fn many(r: &mut Rng, hi: usize) -> usize { if r.chance(1, 40) { r.range(20, 120) } else { r.range(1, hi) } }

/// An attribute string: any XML characters inside, no surrounding white space.
pub fn string(r: &mut Rng) -> String {
    let mut s = String::new();
    let n = if r.chance(1, 50) { *r.pick(&[12, 40, 150, 600]) } else { r.range(0, 3) };
    for i in 0..n {
        if i > 0 && r.chance(2, 3) { s.push(' '); if r.chance(1, 6) { s.push(' '); } }
        s.push_str(r.pick(WORDS));
    }
    s.trim().to_string()
}

/// A string that no typed reading of an attribute would take for something else.
pub fn word(r: &mut Rng) -> String {
    let mut s = String::from(*r.pick(&["w", "Qz", "é", "zz<", "k&", "ü\"", "m'"]));
    s.push_str(&string(r));
    s.trim().to_string()
}

/// Free-form values for any attribute name (API level, not necessarily reloadable).
pub fn any_value(arg: u32) -> AttributeValue {
    let mut r = Rng::from2(arg as u64, 77);
    let r = &mut r;
    match r.below(16) {
        0 => AttributeValue::None,
        1 => AttributeValue::Inherit,
        2 => AttributeValue::CurrentColor,
        3 => AttributeValue::AspectRatio(aspect(r)),
        4 => AttributeValue::Color(color(r)),
        5 => AttributeValue::Length(length(r)),
        6 => AttributeValue::LengthList(LengthList((0..many(r, 3)).map(|_| length(r)).collect())),
        7 => AttributeValue::Angle(angle(r)),
        8 => AttributeValue::NumberList(NumberList((0..many(r, 3)).map(|_| num(r)).collect())),
        9 => AttributeValue::Path(path(r)),
        10 => AttributeValue::Points(Points((0..many(r, 3)).map(|_| (num(r), num(r))).collect())),
        11 => AttributeValue::Transform(transform(r)),
        12 => AttributeValue::ViewBox(ViewBox::new(num(r), num(r), pos_num(r), pos_num(r))),
        13 if r.chance(1, 4) => AttributeValue::String((*r.pick(&["none", "inherit", "currentColor", "#fff", "10", "1 2", " x ", " ", "auto", "\u{feff}z\u{feff}"])).into()),
        13 | 14 => AttributeValue::String(string(r)),
        _ => AttributeValue::Number(num(r)),
    }
}

/// A well-typed value for `aid` on an element `eid`: what a loaded document could hold there.
fn fraction(r: &mut Rng) -> f64 {
    match r.below(8) { 0 => 0.0, 1 => 1.0, _ => r.below(1001) as f64 / 1000.0 }
}
pub fn typed_value(aid: AttributeId, eid: ElementId, arg: u32) -> AttributeValue {
    use AttributeId as A;
    use ElementId as E;
    use AttributeValue as V;
    let mut r = Rng::from2(arg as u64, 99);
    let r = &mut r;
    let inh = r.chance(1, 6);
    match aid {
        A::Href if r.chance(1, 6) => V::String(format!("#{}{}", MISSING, salt())),
        A::ClipPath | A::Filter | A::Marker | A::MarkerEnd | A::MarkerMid | A::MarkerStart | A::Mask | A::Stroke if r.chance(1, 6) =>
            V::String(format!("url(#{}{})", MISSING, salt())),
        A::Href => loop {
            let s = string(r);
            if !s.starts_with('#') { break V::String(s); }
        },
        A::X | A::Y | A::Dx | A::Dy => match eid {
            E::AltGlyph | E::Text | E::Tref | E::Tspan =>
                V::LengthList(LengthList((0..many(r, 3)).map(|_| length(r)).collect())),
            _ => V::Length(length(r)),
        },
        A::X1 | A::Y1 | A::X2 | A::Y2 | A::R | A::Rx | A::Ry | A::Cx | A::Cy | A::Fx | A::Fy | A::RefX | A::RefY
        | A::Width | A::Height | A::MarkerWidth | A::MarkerHeight | A::StartOffset => V::Length(length(r)),
        A::Offset => V::Length(Length::new(num(r), *r.pick(&[LengthUnit::None, LengthUnit::Percent]))),
        A::StrokeDashoffset | A::StrokeWidth => if inh { V::Inherit } else { V::Length(length(r)) },
        A::StrokeMiterlimit => if inh { V::Inherit } else { V::Number(num(r)) },
        A::Opacity | A::FillOpacity | A::FloodOpacity | A::StrokeOpacity | A::StopOpacity =>
            if inh { V::Inherit } else { V::Number(fraction(r)) },
        A::K1 | A::K2 | A::K3 | A::K4 => V::Number(fraction(r)),
        A::StrokeDasharray => match r.below(4) {
            0 => V::None,
            1 => V::Inherit,
            _ => V::LengthList(LengthList((0..many(r, 4)).map(|_| length(r)).collect())),
        },
        A::Fill if [E::Set, E::Animate, E::AnimateColor, E::AnimateMotion, E::AnimateTransform].contains(&eid) =>
            V::String(string(r)),
        A::Fill | A::Stroke => match r.below(6) {
            0 => V::None,
            1 => V::Inherit,
            2 => V::CurrentColor,
            _ => V::Color(color(r)),
        },
        A::ClipPath | A::Filter | A::Marker | A::MarkerEnd | A::MarkerMid | A::MarkerStart | A::Mask =>
            if inh { V::Inherit } else { V::None },
        A::Color => if inh { V::Inherit } else { V::Color(color(r)) },
        A::LightingColor | A::FloodColor | A::StopColor => match r.below(5) {
            0 => V::Inherit,
            1 => V::CurrentColor,
            _ => V::Color(color(r)),
        },
        A::StdDeviation | A::BaseFrequency | A::Rotate =>
            V::NumberList(NumberList((0..many(r, 3)).map(|_| num(r)).collect())),
        A::Points => V::Points(Points((0..many(r, 4)).map(|_| (num(r), num(r))).collect())),
        A::D => V::Path(path(r)),
        A::Transform | A::GradientTransform | A::PatternTransform => V::Transform(transform(r)),
        A::FontSize => match r.below(4) {
            0 => V::Inherit,
            1 => V::String(word(r)),
            _ => V::Length(length(r)),
        },
        A::FontSizeAdjust => match r.below(4) {
            0 => V::None,
            1 => V::Inherit,
            _ => V::Number(num(r)),
        },
        A::Display | A::PointerEvents | A::TextDecoration => match r.below(4) {
            0 => V::None,
            1 => V::Inherit,
            _ => V::String(word(r)),
        },
        A::ClipRule | A::ColorInterpolation | A::ColorInterpolationFilters | A::ColorProfile | A::ColorRendering
        | A::Direction | A::DominantBaseline | A::EnableBackground | A::FillRule | A::FontFamily | A::FontStretch
        | A::FontStyle | A::FontVariant | A::FontWeight | A::ImageRendering | A::Kerning | A::Overflow
        | A::ShapeRendering | A::StrokeLinecap | A::StrokeLinejoin | A::TextAnchor | A::TextRendering
        | A::UnicodeBidi | A::Visibility | A::WritingMode =>
            if inh { V::Inherit } else { V::String(word(r)) },
        A::LetterSpacing | A::WordSpacing => match r.below(4) {
            0 => V::Inherit,
            1 => V::String("normal".into()),
            _ => V::Length(length(r)),
        },
        A::BaselineShift => match r.below(5) {
            0 => V::Inherit,
            1 => V::String((*r.pick(&["baseline", "sub", "super"])).into()),
            _ => V::Length(length(r)),
        },
        A::Orient => if inh { V::String("auto".into()) } else { V::Angle(angle(r)) },
        A::GlyphOrientationHorizontal => if inh { V::Inherit } else { V::Angle(angle(r)) },
        A::GlyphOrientationVertical => match r.below(4) {
            0 => V::Inherit,
            1 => V::String("auto".into()),
            _ => V::Angle(angle(r)),
        },
        A::ViewBox => V::ViewBox(ViewBox::new(num(r), num(r), pos_num(r), pos_num(r))),
        A::PreserveAspectRatio => V::AspectRatio(aspect(r)),
        A::Space => V::String((*r.pick(&["preserve", "default"])).into()),
        // The writer keeps values already starting with "&#" as they are, by design.
        A::Unicode => loop {
            let mut s = string(r);
            if r.chance(1, 3) { s.insert(0, ' '); }
            if !s.starts_with("&#") { break V::String(s); }
        },
        _ => V::String(string(r)),
    }
}

thread_local! {
    /// Makes the names and texts of a run differ from those of an otherwise equal run.
    pub static SALT: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// Nothing in an ordinary run.
pub fn salt() -> String {
    match SALT.with(|c| c.get()) { 0 => String::new(), n => format!("-s{}", n) }
}

/// No element ever has this id: references to it stay text.
pub const MISSING: &str = "missing";

fn close(a: f64, b: f64) -> bool {
    let d = (a - b).abs();
    d <= 1e-6 || d <= 1e-9 * a.abs().max(b.abs())
}

fn lclose(a: &Length, b: &Length) -> bool { a.unit == b.unit && close(a.num, b.num) }

pub fn seg_close(a: &PathSegment, b: &PathSegment) -> bool {
    use PathSegment::*;
    if a.is_absolute() != b.is_absolute() { return false; }
    match (a, b) {
        (MoveTo { x, y, .. }, MoveTo { x: x2, y: y2, .. }) => close(*x, *x2) && close(*y, *y2),
        (LineTo { x, y, .. }, LineTo { x: x2, y: y2, .. }) => close(*x, *x2) && close(*y, *y2),
        (SmoothQuadratic { x, y, .. }, SmoothQuadratic { x: x2, y: y2, .. }) => close(*x, *x2) && close(*y, *y2),
        (HorizontalLineTo { x, .. }, HorizontalLineTo { x: x2, .. }) => close(*x, *x2),
        (VerticalLineTo { y, .. }, VerticalLineTo { y: y2, .. }) => close(*y, *y2),
        (CurveTo { x1, y1, x2, y2, x, y, .. }, CurveTo { x1: a1, y1: b1, x2: a2, y2: b2, x: a3, y: b3, .. }) =>
            close(*x1, *a1) && close(*y1, *b1) && close(*x2, *a2) && close(*y2, *b2) && close(*x, *a3) && close(*y, *b3),
        (SmoothCurveTo { x2, y2, x, y, .. }, SmoothCurveTo { x2: a2, y2: b2, x: a3, y: b3, .. }) =>
            close(*x2, *a2) && close(*y2, *b2) && close(*x, *a3) && close(*y, *b3),
        (Quadratic { x1, y1, x, y, .. }, Quadratic { x1: a1, y1: b1, x: a3, y: b3, .. }) =>
            close(*x1, *a1) && close(*y1, *b1) && close(*x, *a3) && close(*y, *b3),
        (EllipticalArc { rx, ry, x_axis_rotation, large_arc, sweep, x, y, .. },
         EllipticalArc { rx: rx2, ry: ry2, x_axis_rotation: r2, large_arc: l2, sweep: s2, x: a3, y: b3, .. }) =>
            close(*rx, *rx2) && close(*ry, *ry2) && close(*x_axis_rotation, *r2) && large_arc == l2 && sweep == s2
                && close(*x, *a3) && close(*y, *b3),
        (ClosePath { .. }, ClosePath { .. }) => true,
        _ => false,
    }
}

/// Equality of plain values up to the documented number rounding of the writer.
pub fn val_close(a: &AttributeValue, b: &AttributeValue) -> bool {
    use AttributeValue::*;
    match (a, b) {
        (Number(x), Number(y)) => close(*x, *y),
        (Length(x), Length(y)) => lclose(x, y),
        (Angle(x), Angle(y)) => x.unit == y.unit && close(x.num, y.num),
        (NumberList(x), NumberList(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| close(*p, *q)),
        (LengthList(x), LengthList(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| lclose(p, q)),
        (Points(x), Points(y)) => x.len() == y.len()
            && x.iter().zip(y.iter()).all(|(p, q)| close(p.0, q.0) && close(p.1, q.1)),
        (Path(x), Path(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| seg_close(p, q)),
        (Transform(x), Transform(y)) => close(x.a, y.a) && close(x.b, y.b) && close(x.c, y.c)
            && close(x.d, y.d) && close(x.e, y.e) && close(x.f, y.f),
        (ViewBox(x), ViewBox(y)) => close(x.x, y.x) && close(x.y, y.y) && close(x.w, y.w) && close(x.h, y.h),
        (x, y) => x == y,
    }
}

/// Write options decoded from one number.
pub fn write_options(arg: u32) -> WriteOptions {
    let mut r = Rng::from2(arg as u64, 55);
    let r = &mut r;
    let indent = |r: &mut Rng| match r.below(4) {
        0 => Indent::None,
        1 => Indent::Tabs,
        _ => Indent::Spaces([0u8, 1, 2, 4, 7][r.below(5)]),
    };
    if arg % 5 == 0 { return WriteOptions::default(); }
    WriteOptions {
        indent: indent(r),
        attributes_indent: if r.chance(1, 2) { Indent::None } else { indent(r) },
        use_single_quote: r.chance(1, 2),
        values: ValueWriteOptions {
            trim_hex_colors: r.chance(1, 2),
            remove_leading_zero: r.chance(1, 2),
            use_compact_path_notation: r.chance(1, 2),
            join_arc_to_flags: r.chance(1, 2),
            remove_duplicated_path_commands: r.chance(1, 2),
            use_implicit_lineto_commands: r.chance(1, 2),
            simplify_transform_matrices: r.chance(1, 2),
            list_separator: *r.pick(&[ListSeparator::Comma, ListSeparator::Space, ListSeparator::CommaSpace]),
        },
    }
}
