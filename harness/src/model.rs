//! Generators for cells and workbooks, canonical renderings, round trips.
use crate::engine::*;
use crate::gen;
use chrono::NaiveDateTime;
use spreadsheet_ods::draw::{Annotation, DrawFrame, DrawFrameContent, DrawImage};
use spreadsheet_ods::style::CellStyleRef;
use spreadsheet_ods::validation::ValidationRef;
use spreadsheet_ods::xmltree::{XmlContent, XmlTag};
use spreadsheet_ods::*;
use icu_locale_core::locale;
use std::collections::BTreeMap;
use std::io::Cursor;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fmt {
    Ods,
    OdsPlain,
    Fods,
}
pub fn fmt(s: &mut Src) -> Fmt {
    s.pickc(&[Fmt::OdsPlain, Fmt::Ods, Fmt::Fods, Fmt::OdsPlain])
}

/// Sink that goes through the generic writer entry.
pub fn write(book: &mut WorkBook, f: Fmt) -> Result<Vec<u8>, String> {
    match f {
        Fmt::Ods => write_ods_buf(book, Vec::new()),
        Fmt::OdsPlain => write_ods_buf_uncompressed(book, Vec::new()),
        Fmt::Fods => write_fods_buf(book, Vec::new()),
    }
    .map_err(|e| format!("write {:?}: {}", f, e))
}
pub fn read(buf: &[u8], f: Fmt) -> Result<WorkBook, String> {
    match f {
        Fmt::Fods => read_fods_buf(buf),
        _ => read_ods_buf(buf),
    }
    .map_err(|e| format!("read {:?}: {}", f, e))
}
pub fn read_opt(buf: &[u8], f: Fmt, o: &OdsOptions) -> Result<WorkBook, String> {
    match f {
        Fmt::Fods => o.read_fods(Cursor::new(buf)),
        _ => o.read_ods(Cursor::new(buf)),
    }
    .map_err(|e| format!("read {:?}: {}", f, e))
}
pub fn roundtrip(book: &mut WorkBook, f: Fmt) -> Result<WorkBook, String> {
    let b = write(book, f)?;
    read(&b, f)
}

// ---------------------------------------------------------------- values

pub fn value_text(s: &mut Src) -> String {
    gen::text(s)
}

/// A paragraph with inline markup. Attributes only when there is markup.
pub fn paragraph(s: &mut Src) -> XmlTag {
    let mut p = XmlTag::new("text:p");
    if s.pct(40) {
        if s.pct(25) {
            p.set_attr(s.pickc(&["text:style-name", "text:cond-style-name", "xml:id"]), gen::name(s));
        }
        let t = gen::text_n(s, 0, 3, 8).replace('\n', " ");
        if !t.is_empty() {
            p.add_text(t);
        }
        return p;
    }
    if s.pct(40) {
        p.set_attr("text:style-name", gen::name(s));
    }
    if s.coin() {
        p.add_text(gen::text1(s));
    }
    let n = 1 + s.u(3);
    for _ in 0..n {
        match s.u(6) {
            0 => {
                p.add_tag(XmlTag::new("text:line-break"));
            }
            1 => {
                let mut t = XmlTag::new("text:s");
                t.set_attr("text:c", (1 + s.u(9)).to_string());
                p.add_tag(t);
            }
            2 => {
                let mut t = XmlTag::new("text:a");
                t.set_attr("xlink:href", gen::text(s));
                t.add_text(gen::text1(s));
                p.add_tag(t);
            }
            3 => {
                p.add_tag(gen::xmltag(s, &["text:span", "text:ruby", "loext:x"], 2));
            }
            _ => {
                let mut t = XmlTag::new("text:span");
                t.set_attr("text:style-name", gen::ident(s));
                t.add_text(gen::text(s));
                p.add_tag(t);
            }
        }
        if s.coin() {
            p.add_text(gen::text1(s));
        }
    }
    p
}

pub fn value(s: &mut Src) -> Value {
    match s.weighted(&[4, 2, 2, 2, 5, 3, 3, 3]) {
        0 => Value::Number(gen::f64_any(s)),
        1 => Value::Boolean(s.coin()),
        2 => Value::Percentage(gen::f64_any(s)),
        3 => Value::Currency(gen::f64_any(s), gen::line(s).into()),
        4 => Value::Text(value_text(s)),
        5 => Value::TextXml(s.vec(1, 1, 4, paragraph)),
        6 => Value::DateTime(gen::datetime(s)),
        _ => Value::TimeDuration(gen::duration(s)),
    }
}

/// Some(text) if the paragraph is plain text.
fn plain_p(t: &XmlTag) -> Option<String> {
    if t.name() != "text:p" || !t.attrmap().is_empty() {
        return None;
    }
    let mut r = String::new();
    for c in t.content() {
        match c {
            XmlContent::Text(x) => r.push_str(x),
            XmlContent::Tag(_) => return None,
        }
    }
    Some(r)
}

/// Canonical rendering of a value. Plain paragraphs and multi-line text are
/// the same thing in the file format.
pub fn canon_value(v: &Value) -> String {
    match v {
        Value::Empty => "-".into(),
        Value::Boolean(b) => format!("bool {}", b),
        Value::Number(n) => format!("num {:016x} {:?}", n.to_bits(), n),
        Value::Percentage(n) => format!("pct {:016x} {:?}", n.to_bits(), n),
        Value::Currency(n, c) => format!("cur {:016x} {:?} {:?}", n.to_bits(), n, c),
        Value::Text(t) => format!("text {:?}", t),
        Value::DateTime(d) => format!("date {:?}", d),
        Value::TimeDuration(d) => format!("time {:?}", d),
        Value::TextXml(x) => {
            let pl: Option<Vec<String>> = x.iter().map(plain_p).collect();
            if let Some(pl) = pl {
                format!("text {:?}", pl.join("\n"))
            } else {
                format!("xml {}", x.iter().map(gen::xml_str).collect::<Vec<_>>().join(" "))
            }
        }
    }
}

// ---------------------------------------------------------------- annotations and frames

const ANN_ATTR: &[&str] = &["draw:style-name", "svg:width", "svg:height", "svg:x", "svg:y", "draw:caption-point-x", "draw:text-style-name", "calcext:visible", "draw:id"];
const FRAME_ATTR: &[&str] = &["draw:name", "draw:z-index", "svg:width", "svg:height", "svg:x", "svg:y", "table:end-cell-address", "draw:style-name", "style:rel-width", "xml:id", "loext:bar"];
const IMG_ATTR: &[&str] = &["xlink:href", "xlink:type", "xlink:show", "xlink:actuate", "draw:mime-type", "draw:filter-name"];

pub fn annotation(s: &mut Src) -> Annotation {
    let mut a = if s.coin() { Annotation::new(gen::text(s)) } else { Annotation::new_empty() };
    if s.coin() {
        a.set_name(gen::text(s));
    }
    a.set_display(s.coin());
    if s.coin() {
        a.set_creator(Some(gen::text1(s)));
    }
    if s.coin() {
        a.set_date(Some(gen::datetime(s)));
    }
    for _ in 0..s.u(3) {
        let k = s.pickc(ANN_ATTR);
        let v = gen::text(s);
        a.attrmap_mut().set_attr(k, v);
    }
    for _ in 0..s.u(3) {
        let t = if s.coin() { paragraph(s) } else { gen::xmltag(s, &["text:list", "text:p"], 2) };
        a.push_text(t);
    }
    a
}
pub fn frame(s: &mut Src) -> DrawFrame {
    let mut f = DrawFrame::new();
    for _ in 0..s.u(4) {
        let k = s.pickc(FRAME_ATTR);
        let v = gen::text(s);
        f.attrmap_mut().set_attr(k, v);
    }
    if s.coin() {
        f.set_desc(gen::text1(s));
    }
    if s.coin() {
        f.set_title(gen::text1(s));
    }
    for _ in 0..s.u(3) {
        let mut i = DrawImage::new();
        for _ in 0..s.u(3) {
            let k = s.pickc(IMG_ATTR);
            let v = gen::text(s);
            i.attrmap_mut().set_attr(k, v);
        }
        if s.coin() {
            let b: Vec<u8> = s.vec(1, 8, 40, |s| s.u(256) as u8);
            i.set_binary(&b);
        }
        for _ in 0..s.u(3) {
            if s.coin() {
                i.push_text_str(gen::text(s));
            } else {
                i.push_text(gen::xmltag(s, &["text:list", "text:p"], 1));
            }
        }
        f.push_content(DrawFrameContent::Image(i));
    }
    f
}
#[macro_export]
macro_rules! attrs {
    ($m:expr) => {{
        let mut v: Vec<String> = $m.iter().map(|(k, v)| format!("{}={:?}", k, v)).collect();
        v.sort();
        v.join(" ")
    }};
}
pub fn canon_annotation(a: &Annotation) -> String {
    format!(
        "ann[{:?} {} {:?} {:?} {{{}}} {}]",
        a.name(),
        a.display(),
        a.creator(),
        a.date(),
        attrs!(a.attrmap()),
        a.text().iter().map(gen::xml_str).collect::<String>()
    )
}
pub fn canon_frame(f: &DrawFrame) -> String {
    let mut o = format!("frame[{{{}}} {:?} {:?}", attrs!(f.attrmap()), f.desc(), f.title());
    for c in f.content_ref() {
        let DrawFrameContent::Image(i) = c;
        o.push_str(&format!(
            " img[{{{}}} {:?} {}]",
            attrs!(i.attrmap()),
            if i.get_binary_base64().is_some() { Some(i.get_binary().map_err(|e| e.to_string())) } else { None },
            i.get_text().iter().map(gen::xml_str).collect::<String>()
        ));
    }
    o.push(']');
    o
}

// ---------------------------------------------------------------- cells

pub fn canon_cell(c: &CellContentRef<'_>, style: Option<&CellStyleRef>) -> String {
    let mut o = canon_value(c.value);
    if let Some(f) = c.formula {
        o.push_str(&format!(" f={:?}", f));
    }
    if let Some(st) = style {
        o.push_str(&format!(" s={:?}", st.as_str()));
    }
    if let Some(v) = c.validation_name {
        o.push_str(&format!(" v={:?}", v.as_str()));
    }
    if c.span.row_span() > 1 || c.span.col_span() > 1 {
        o.push_str(&format!(" span={}x{}", c.span.row_span(), c.span.col_span()));
    }
    if c.matrix_span.row_span() > 1 || c.matrix_span.col_span() > 1 {
        o.push_str(&format!(" mat={}x{}", c.matrix_span.row_span(), c.matrix_span.col_span()));
    }
    if let Some(a) = c.annotation {
        o.push(' ');
        o.push_str(&canon_annotation(a));
    }
    if let Some(f) = c.draw_frames {
        for f in f {
            o.push(' ');
            o.push_str(&canon_frame(f));
        }
    }
    o
}

pub type Grid = BTreeMap<(u32, u32), String>;

/// The expected content, from the workbook itself: default styles resolved,
/// cell and row repeats expanded. rowrep: model of row repeats.
pub fn effective(book: &WorkBook, sheet: &Sheet, resolve_def: bool) -> Grid {
    let mut g = Grid::new();
    for ((r, c), cell) in sheet.iter() {
        let st = cell.style.or_else(|| if resolve_def { book.def_style(cell.value.value_type()) } else { None });
        let t = canon_cell(&cell, st);
        if t == "-" {
            continue;
        }
        let rr = sheet.row_repeat(r).max(1);
        let only_style = st.filter(|st| t == format!("- s={:?}", st.as_str()));
        for i in 0..rr {
            for j in 0..cell.repeat.max(1) {
                // an otherwise empty cell that has the default style of its column is no cell.
                if only_style.is_some() && sheet.row_cellstyle(r + i).is_none() && sheet.col_cellstyle(c + j) == only_style {
                    continue;
                }
                g.insert((r + i, c + j), t.clone());
            }
        }
    }
    g
}

pub fn diff_grid(what: &str, got: &Grid, want: &Grid) -> R {
    if got == want {
        return Ok(());
    }
    for (k, w) in want {
        match got.get(k) {
            None => return Err(format!("{}: cell {:?} is missing, expected {}", what, k, w)),
            Some(g) if g != w => return Err(format!("{}: cell {:?}\n   got {}\n  want {}", what, k, g, w)),
            _ => {}
        }
    }
    for (k, g) in got {
        if !want.contains_key(k) {
            return Err(format!("{}: cell {:?} has unexpected content {}", what, k, g));
        }
    }
    Ok(())
}
pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> R {
    if got == want { Ok(()) } else { Err(format!("{}:\n   got {:?}\n  want {:?}", what, got, want)) }
}

pub fn pos(s: &mut Src) -> (u32, u32) {
    match s.weighted(&[8, 2, 1]) {
        0 => (s.r32(0, 6), s.r32(0, 6)),
        1 => (s.r32(0, 60), s.r32(0, 60)),
        _ => (s.r32(0, 1_048_575), s.r32(0, 16_383)),
    }
}

pub fn vref(n: &str) -> ValidationRef {
    ValidationRef::from(n)
}
pub fn book_new(s: &mut Src) -> WorkBook {
    match s.u(4) {
        0 | 1 => WorkBook::new_empty(),
        2 => WorkBook::new(locale!("en-US")),
        _ => WorkBook::new(s.pickc(&[locale!("de-AT"), locale!("cs-CZ"), locale!("fr-FR")])),
    }
}
pub fn ndt(y: i32) -> NaiveDateTime {
    chrono::NaiveDate::from_ymd_opt(y, 1, 1).unwrap().and_hms_opt(0, 0, 0).unwrap()
}
