//! C24 the reader and the freedoms of XML and ODF, C16 robustness of the reader.
use super::c_styles::diff_maps;
use crate::engine::*;
use crate::full;
use crate::gen;
use crate::model::*;
use crate::xmlp::{self, Elem, Node, Spell};
use chrono::{Datelike, Duration, NaiveDateTime};
use spreadsheet_ods::draw::{Annotation, DrawFrame, DrawFrameContent, DrawImage};
use spreadsheet_ods::xmltree::XmlTag;
use spreadsheet_ods::*;

pub fn c24() -> Check {
    Check {
        id: "C24",
        rule: "respelled: workbooks using all features at once, every XML part parsed and spelled in another way (attribute order, quotes, white space, comments, processing instructions, CDATA, character references, expanded empty elements, BOM), must read the same. documents: ODF table documents made without the library, with all the freedoms of the format (wrapper elements, repeats or single cells, number, date and duration spellings, unknown attributes and elements, shapes with text), must read as the model says. styles: the same for style sheets, fonts, value formats, page layouts, master pages and validations, which are also written again, with every namespace prefix declared; non-trivial: always / at least one cell / two items",
        parts: vec![
            Part { name: "respelled", quick: 16_000, thorough: 150_000, run: respelled },
            Part { name: "documents", quick: 40_000, thorough: 300_000, run: documents },
            Part { name: "styles", quick: 20_000, thorough: 200_000, run: super::c_foreign::styles },
        ],
        probes: vec![],
    }
}

fn respelled(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut book = full::gen_book(s, ctx);
    let f = fmt(s);
    let buf = write(&mut book, f)?;
    let base = full::dump(&read(&buf, f)?, false);
    let sp = Spell::gen(s);
    ctx.nontrivial = true;
    let respell = |s: &mut Src, b: &[u8]| -> Result<Vec<u8>, String> {
        let e: Elem = xmlp::parse(b, true)?;
        let mut o = xmlp::doc(s, &e, &sp);
        if s.pct(20) {
            o.insert(0, '\u{feff}');
        }
        Ok(o.into_bytes())
    };
    let mut shown = String::new();
    let b2 = if f == Fmt::Fods {
        let t = respell(s, &buf)?;
        shown = String::from_utf8_lossy(&t).into_owned();
        t
    } else {
        let mut files: Vec<(String, Vec<u8>)> = xmlp::unzip(&buf)?.into_iter().map(|(n, b, _)| (n, b)).collect();
        for (n, b) in &mut files {
            if n.ends_with(".xml") {
                *b = respell(s, b)?;
                if n == "content.xml" || n == "META-INF/manifest.xml" {
                    shown.push_str(&String::from_utf8_lossy(b));
                }
            }
        }
        xmlp::zip_up(&files, |_| true)?
    };
    ctx.repr = format!("{:?} {:?} {}", f, sp, shown);
    let got = read(&b2, f)?;
    diff_maps("respelled", &full::dump(&got, false), &base)
}

// ---------------------------------------------------------------- documents

fn el(name: &str) -> Elem {
    Elem { name: name.to_string(), ..Default::default() }
}
fn tx(name: &str, t: &str) -> Elem {
    let mut e = el(name);
    if !t.is_empty() {
        e.kids.push(Node::Text(t.to_string()));
    }
    e
}
/// Something a cell, row or table can contain that the library doesn't know.
fn unknown(s: &mut Src, ctx: &mut Ctx, depth: usize) -> Elem {
    let n = s.pickc(&[
        "draw:custom-shape", "my:ext", "draw:line", "table:detective", "draw:control", "table:cell-range-source", "draw:rect", "table:table", "calcext:x", "office:event-listeners",
    ]);
    let mut e = el(n);
    ctx.label("unknown-element");
    e.attrs.push(("my:a".into(), gen::text(s)));
    if s.coin() {
        e.attrs.push(("table:style-name".into(), "wrong".into()));
    }
    if s.pct(70) {
        e.kids.push(Node::Elem(tx("text:p", s.pickc(&["shape text", "x"]))));
    }
    if depth > 0 && s.coin() {
        let mut row = el("table:table-row");
        let mut c = el("table:table-cell");
        c.attrs.push(("office:value-type".into(), "float".into()));
        c.attrs.push(("office:value".into(), "77".into()));
        c.kids.push(Node::Elem(unknown(s, ctx, depth - 1)));
        row.kids.push(Node::Elem(c));
        e.kids.push(Node::Elem(row));
    }
    if s.pct(20) {
        e.kids.push(Node::Elem(el("office:annotation")));
        e.kids.push(Node::Elem(el("draw:frame")));
    }
    e
}
/// Other spellings of a number.
fn num_text(s: &mut Src) -> (String, f64) {
    match s.u(6) {
        0 => {
            let v = s.range(-1000, 1000);
            (v.to_string(), v as f64)
        }
        1 => {
            let v = s.range(-100_000, 100_000);
            let t = format!("{}{}.{:02}", if v < 0 { "-" } else { "" }, v.abs() / 100, v.abs() % 100);
            let f = t.parse().unwrap();
            (t, f)
        }
        2 => {
            let t = format!("{}{}{}{}", s.range(-99, 99), s.pickc(&["E", "e"]), s.pickc(&["", "-", "+"]), s.u(200));
            let f = t.parse().unwrap();
            (t, f)
        }
        3 => {
            let t = format!("{}.{}E-{}", s.range(0, 9), s.draw(1_000_000_000_000), s.u(20));
            let f = t.parse().unwrap();
            (t, f)
        }
        4 => {
            let t = format!("{:03}.{}", s.range(0, 99), "500");
            let f = t.parse().unwrap();
            (t, f)
        }
        _ => {
            let f = gen::f64_any(s);
            (format!("{:?}", f), f)
        }
    }
}
fn date_text(s: &mut Src) -> (String, NaiveDateTime) {
    let d = gen::datetime(s).date();
    let y = d.year_ce();
    let ys = if y.0 { format!("{:04}", y.1) } else { format!("-{:04}", y.1 - 1) };
    let ds = format!("{}-{}", ys, d.format("%m-%d"));
    let (h, m, x) = (s.u(24) as u32, s.u(60) as u32, s.u(60) as u32);
    match s.u(4) {
        0 => (ds, d.and_hms_opt(0, 0, 0).unwrap()),
        1 => (format!("{}T{:02}:{:02}:{:02}", ds, h, m, x), d.and_hms_opt(h, m, x).unwrap()),
        2 => (format!("{}T{:02}:{:02}:{:02}Z", ds, h, m, x), d.and_hms_opt(h, m, x).unwrap()),
        _ => {
            let n = 1 + s.u(12);
            let f: String = (0..n).map(|_| (b'0' + s.u(10) as u8) as char).collect();
            let nano: u32 = format!("{:0<9}", &f[..n.min(9)]).parse().unwrap();
            (format!("{}T{:02}:{:02}:{:02}.{}", ds, h, m, x, f), d.and_hms_nano_opt(h, m, x, nano).unwrap())
        }
    }
}
fn dur_text(s: &mut Src) -> (String, Duration) {
    let mut t = String::from("P");
    let mut d = Duration::zero();
    let neg = s.pct(30);
    if s.pct(30) {
        let v = s.range(0, 40_000);
        t.push_str(&format!("{}D", v));
        d += Duration::days(v);
    }
    let m = 1 + s.u(7);
    t.push('T');
    if m & 1 != 0 {
        let v = s.range(0, 999);
        t.push_str(&if s.coin() { format!("{:02}H", v) } else { format!("{}H", v) });
        d += Duration::hours(v);
    }
    if m & 2 != 0 {
        let v = s.range(0, 99);
        t.push_str(&if s.coin() { format!("{:02}M", v) } else { format!("{}M", v) });
        d += Duration::minutes(v);
    }
    if m & 4 != 0 {
        let v = s.range(0, 99);
        t.push_str(&if s.coin() { format!("{:02}", v) } else { format!("{}", v) });
        d += Duration::seconds(v);
        if s.coin() {
            let n = 1 + s.u(10);
            let f: String = (0..n).map(|_| (b'0' + s.u(10) as u8) as char).collect();
            t.push_str(&format!(".{}", f));
            d += Duration::nanoseconds(format!("{:0<9}", &f[..n.min(9)]).parse().unwrap());
        }
        t.push('S');
    }
    if neg { (format!("-{}", t), -d) } else { (t, d) }
}
/// One cell with content, and what it means.
fn doc_cell(s: &mut Src, ctx: &mut Ctx, covered: bool) -> (Elem, String) {
    let mut e = el(if covered { "table:covered-table-cell" } else { "table:table-cell" });
    let mut a: Vec<(&str, String)> = vec![];
    let mut kids: Vec<Elem> = vec![];
    let mut want;
    let display = tx("text:p", s.pickc(&["shown", "", "1", "true"]));
    match s.u(8) {
        0 | 7 => {
            let (t, v) = num_text(s);
            a.push(("office:value-type", "float".into()));
            a.push(("office:value", t));
            want = canon_value(&Value::Number(v));
            kids.push(display);
        }
        1 => {
            let (t, v) = num_text(s);
            a.push(("office:value-type", "percentage".into()));
            a.push(("office:value", t));
            want = canon_value(&Value::Percentage(v));
            kids.push(display);
        }
        2 => {
            let (t, v) = num_text(s);
            a.push(("office:value-type", "currency".into()));
            a.push(("office:value", t));
            let c = if s.coin() { gen::line(s) } else { String::new() };
            if !c.is_empty() {
                a.push(("office:currency", c.clone()));
            }
            want = canon_value(&Value::Currency(v, c.into()));
            kids.push(display);
        }
        3 => {
            let v = s.coin();
            a.push(("office:value-type", "boolean".into()));
            a.push(("office:boolean-value", v.to_string()));
            want = canon_value(&Value::Boolean(v));
            kids.push(display);
        }
        4 => {
            let (t, v) = date_text(s);
            a.push(("office:value-type", "date".into()));
            a.push(("office:date-value", t));
            want = canon_value(&Value::DateTime(v));
            kids.push(display);
        }
        5 => {
            let (t, v) = dur_text(s);
            a.push(("office:value-type", "time".into()));
            a.push(("office:time-value", t));
            want = canon_value(&Value::TimeDuration(v));
            kids.push(display);
        }
        _ => {
            a.push(("office:value-type", "string".into()));
            if s.pct(25) {
                let t = gen::text1(s);
                a.push(("office:string-value", t.clone()));
                kids.push(display);
                want = canon_value(&Value::Text(t));
            } else {
                let n = 1 + s.u(3);
                let mut lines = vec![];
                for _ in 0..n {
                    let t = gen::line1(s);
                    kids.push(tx("text:p", &t));
                    lines.push(t);
                }
                want = canon_value(&Value::Text(lines.join("\n")));
            }
        }
    }
    if s.pct(20) {
        let f = gen::text1(s);
        want.push_str(&format!(" f={:?}", f));
        a.push(("table:formula", f));
    }
    if s.pct(20) {
        let f = gen::name(s);
        want.push_str(&format!(" s={:?}", f));
        a.push(("table:style-name", f));
    }
    if s.pct(10) {
        let f = gen::name(s);
        want.push_str(&format!(" v={:?}", f));
        a.push(("table:content-validation-name", f));
    }
    if s.pct(10) && !covered {
        let (x, y) = (s.r32(1, 3), s.r32(1, 3));
        if x > 1 || y > 1 {
            want.push_str(&format!(" span={}x{}", x, y));
        }
        if x > 1 || s.coin() {
            a.push(("table:number-rows-spanned", x.to_string()));
        }
        if y > 1 || s.coin() {
            a.push(("table:number-columns-spanned", y.to_string()));
        }
    }
    if s.pct(40) {
        a.push(("calcext:value-type", s.pickc(&["float", "string", "error", "date"]).into()));
        a.push(("my:value", "3".into()));
        a.push(("table:protected", "true".into()));
    }
    // around the text
    let mut at = s.u(kids.len() + 1);
    if s.pct(15) {
        let t = gen::line1(s);
        let mut n = el("office:annotation");
        let c = s.opt(50, gen::text1);
        if let Some(c) = &c {
            n.kids.push(Node::Elem(tx("dc:creator", c)));
        }
        if s.coin() {
            n.kids.push(Node::Elem(tx("my:unknown", "text")));
        }
        n.kids.push(Node::Elem(tx("text:p", &t)));
        if s.coin() {
            n.kids.push(Node::Elem(unknown(s, ctx, 1)));
        }
        let mut x = XmlTag::new("text:p");
        x.add_text(t);
        let d = s.opt(50, |s| s.coin());
        if let Some(d) = d {
            n.attrs.push(("office:display".into(), d.to_string()));
        }
        let mut w = Annotation::new_empty();
        w.set_creator(c);
        w.set_display(d.unwrap_or(false));
        w.push_text(x);
        want.push_str(&format!(" {}", canon_annotation(&w)));
        kids.insert(at, n);
        ctx.label("annotation");
        at = s.u(kids.len() + 1);
    }
    if s.pct(15) {
        let mut n = el("draw:frame");
        let t = gen::text1(s);
        n.attrs.push(("draw:name".into(), t.clone()));
        let mut w = DrawFrame::new();
        w.attrmap_mut().set_attr("draw:name", t);
        match s.u(3) {
            0 => {
                let mut i = el("draw:image");
                i.attrs.push(("xlink:href".into(), "Pictures/a.png".into()));
                if s.coin() {
                    i.kids.push(Node::Elem(tx("my:unknown", "text")));
                }
                let bin = s.opt(50, |s| s.vec(1, 30, 120, |s| s.u(256) as u8));
                if let Some(b) = &bin {
                    let t = xmlp::base64(b);
                    let w = 1 + s.u(76);
                    let t = if s.coin() { t.as_bytes().chunks(w).map(|c| String::from_utf8_lossy(c).into_owned() + s.pickc(&["\n", "\n   "])).collect() } else { t };
                    i.kids.push(Node::Elem(tx("office:binary-data", &t)));
                    ctx.label("binary");
                }
                n.kids.push(Node::Elem(i));
                let mut i = DrawImage::new();
                if let Some(b) = &bin {
                    if !b.is_empty() {
                        i.set_binary(b);
                    }
                }
                i.attrmap_mut().set_attr("xlink:href", "Pictures/a.png".to_string());
                w.push_content(DrawFrameContent::Image(i));
            }
            1 => {
                // a text box, maybe with a frame in it
                let mut b = el("draw:text-box");
                let mut p = tx("text:p", "in the box");
                if s.coin() {
                    let mut f = el("draw:frame");
                    f.kids.push(Node::Elem(el("draw:image")));
                    p.kids.push(Node::Elem(f));
                }
                b.kids.push(Node::Elem(p));
                b.kids.push(Node::Elem(tx("text:p", "more")));
                n.kids.push(Node::Elem(b));
            }
            _ => {
                let mut o = el("draw:object");
                if s.coin() {
                    o.kids.push(Node::Elem(unknown(s, ctx, 1)));
                }
                n.kids.push(Node::Elem(o));
            }
        }
        if s.coin() {
            n.kids.push(Node::Elem(tx("svg:title", "t")));
            w.set_title("t");
        }
        want.push_str(&format!(" {}", canon_frame(&w)));
        kids.insert(at, n);
        ctx.label("frame");
        at = s.u(kids.len() + 1);
    }
    if s.pct(25) {
        kids.insert(at, unknown(s, ctx, 2));
    }
    e.attrs = a.into_iter().map(|(k, v)| (k.to_string(), v)).collect();
    e.kids = kids.into_iter().map(Node::Elem).collect();
    (e, want)
}
/// Everything around the cells of a sheet.
#[derive(Debug, Clone, PartialEq, Default)]
struct Frame {
    style: Option<String>,
    display: bool,
    print: bool,
    ranges: Vec<String>,
    cols: Vec<(Option<String>, Option<String>, String)>,
    rows: Vec<(Option<String>, Option<String>, String)>,
    runs: Vec<bool>,
    header_cols: Vec<(u32, u32)>,
    header_rows: Vec<(u32, u32)>,
    groups: Vec<(char, u32, u32, bool)>,
}
fn frame_of(sh: &Sheet, w: &Frame) -> Frame {
    let vis = |v: sheet::Visibility| v.to_string();
    let mut groups: Vec<_> = sh.col_group_iter().map(|g| ('c', g.from(), g.to(), g.display())).chain(sh.row_group_iter().map(|g| ('r', g.from(), g.to(), g.display()))).collect();
    groups.sort();
    Frame {
        style: sh.style().map(|v| v.as_str().to_string()),
        display: sh.display(),
        print: sh.print(),
        ranges: sh.print_ranges().map(|v| v.iter().map(|v| v.to_string()).collect()).unwrap_or_default(),
        cols: (0..w.cols.len() as u32).map(|c| (sh.colstyle(c).map(|v| v.as_str().to_string()), sh.col_cellstyle(c).map(|v| v.as_str().to_string()), vis(sh.col_visible(c)))).collect(),
        rows: (0..w.rows.len() as u32).map(|c| (sh.rowstyle(c).map(|v| v.as_str().to_string()), sh.row_cellstyle(c).map(|v| v.as_str().to_string()), vis(sh.row_visible(c)))).collect(),
        runs: w.runs.clone(),
        // separate header blocks are joined.
        header_cols: if w.header_cols.len() > 1 { w.header_cols.clone() } else { sh.header_cols().iter().map(|v| (v.from, v.to)).collect() },
        header_rows: if w.header_rows.len() > 1 { w.header_rows.clone() } else { sh.header_rows().iter().map(|v| (v.from, v.to)).collect() },
        groups,
    }
}
fn line_attrs(s: &mut Src, e: &mut Elem, st: &[&str]) -> (Option<String>, Option<String>, String) {
    let mut r = (None, None, "visible".to_string());
    if s.coin() {
        let n = s.pickc(st);
        e.attrs.push(("table:style-name".into(), n.into()));
        r.0 = Some(n.to_string());
    }
    if s.pct(20) {
        let n = gen::name(s);
        e.attrs.push(("table:default-cell-style-name".into(), n.clone()));
        r.1 = Some(n);
    }
    if s.pct(30) {
        let n = s.pickc(&["visible", "collapse", "filter"]);
        e.attrs.push(("table:visibility".into(), n.into()));
        r.2 = n.to_string();
    }
    r
}
fn close(w: &Elem, c: char, from: u32, to: u32, fr: &mut Frame) {
    if from == to {
        return;
    }
    if w.name.contains("header") {
        if c == 'c' { &mut fr.header_cols } else { &mut fr.header_rows }.push((from, to - 1));
    } else if w.name.contains("group") {
        let d = w.attrs.iter().find(|v| v.0 == "table:display").map_or(true, |v| v.1 == "true");
        fr.groups.push((c, from, to - 1, d));
    }
}
fn open(s: &mut Src, l: &[&str]) -> Elem {
    let mut w = el(s.pickc(l));
    if w.name.contains("group") && s.coin() {
        w.attrs.push(("table:display".into(), s.coin().to_string()));
    }
    w
}

fn documents(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut sheets = vec![];
    let mut body = el("office:spreadsheet");
    if s.coin() {
        body.kids.push(Node::Elem(el("table:calculation-settings")));
    }
    for i in 0..1 + s.u(3) {
        let mut tab = el("table:table");
        let name = format!("{}{}", gen::name(s), i);
        tab.attrs.push(("table:name".into(), name.clone()));
        let mut want = Grid::new();
        let mut fr = Frame { display: true, print: true, ..Default::default() };
        if s.coin() {
            fr.style = Some(gen::name(s));
            tab.attrs.push(("table:style-name".into(), fr.style.clone().unwrap()));
        }
        if s.pct(30) {
            fr.display = s.coin();
            tab.attrs.push(("table:display".into(), fr.display.to_string()));
        }
        if s.pct(30) {
            fr.print = s.coin();
            tab.attrs.push(("table:print".into(), fr.print.to_string()));
        }
        if s.pct(20) {
            for _ in 0..1 + s.u(3) {
                let (r, c) = (s.r32(0, 9), s.r32(0, 9));
                fr.ranges.push(CellRange::remote(gen::name(s), r, c, r + s.r32(0, 3), c + s.r32(1, 3)).to_string());
            }
            tab.attrs.push(("table:print-ranges".into(), fr.ranges.join(" ")));
        }
        if s.coin() {
            tab.attrs.push(("table:protected".into(), "true".into()));
            let at = s.u(tab.attrs.len());
            let last = tab.attrs.len() - 1;
            tab.attrs.swap(at, last);
        }
        if s.pct(20) {
            tab.kids.push(Node::Elem(tx(s.pickc(&["table:title", "table:desc"]), "about")));
        }
        // columns
        let mut wrap: Option<(Elem, u32)> = None;
        for _ in 0..s.u(6) {
            if wrap.is_none() && s.pct(25) {
                wrap = Some((open(s, &["table:table-columns", "table:table-header-columns", "table:table-column-group"]), fr.cols.len() as u32));
            }
            let mut c = el("table:table-column");
            let rep = if s.coin() { 1 } else { 1 + s.u(5) };
            if rep > 1 || s.pct(10) {
                c.attrs.push(("table:number-columns-repeated".into(), rep.to_string()));
            }
            let l = line_attrs(s, &mut c, &["co1", "co2"]);
            fr.cols.extend(vec![l; rep]);
            match &mut wrap {
                Some(w) => w.0.kids.push(Node::Elem(c)),
                None => tab.kids.push(Node::Elem(c)),
            }
            if s.coin() {
                if let Some((w, from)) = wrap.take() {
                    close(&w, 'c', from, fr.cols.len() as u32, &mut fr);
                    tab.kids.push(Node::Elem(w));
                }
            }
        }
        if let Some((w, from)) = wrap.take() {
            close(&w, 'c', from, fr.cols.len() as u32, &mut fr);
            tab.kids.push(Node::Elem(w));
        }
        // rows
        let mut row = 0u32;
        let mut wrap: Option<(Elem, u32)> = None;
        for _ in 0..s.u(6) {
            if wrap.is_none() && s.pct(20) {
                wrap = Some((open(s, &["table:table-rows", "table:table-header-rows", "table:table-row-group"]), row));
            }
            let mut r = el("table:table-row");
            let rep = if s.pct(25) { 1 + s.r32(0, 3) } else { 1 };
            if rep > 1 || s.pct(20) {
                r.attrs.push(("table:number-rows-repeated".into(), rep.to_string()));
            }
            let l = line_attrs(s, &mut r, &["ro1", "ro2"]);
            fr.rows.extend(vec![l; rep as usize]);
            fr.runs.extend((0..rep).map(|v| v > 0));
            if s.coin() {
                r.attrs.push(("my:x".into(), "y".into()));
            }
            let mut col = 0u32;
            for _ in 0..s.u(5) {
                let crep = if s.pct(25) { 1 + s.r32(0, 3) } else { 1 };
                let mut c = if s.pct(35) {
                    let mut c = el(s.pickc(&["table:table-cell", "table:covered-table-cell"]));
                    if s.pct(20) {
                        c.kids.push(Node::Elem(unknown(s, ctx, 2)));
                    }
                    c
                } else {
                    let cov = s.pct(10);
                    let (c, w) = doc_cell(s, ctx, cov);
                    ctx.nontrivial = true;
                    for i in 0..rep {
                        for j in 0..crep {
                            want.insert((row + i, col + j), w.clone());
                        }
                    }
                    c
                };
                if crep > 1 || s.pct(10) {
                    let at = s.u(c.attrs.len() + 1);
                    c.attrs.insert(at, ("table:number-columns-repeated".into(), crep.to_string()));
                }
                col += crep;
                r.kids.push(Node::Elem(c));
            }
            if s.coin() {
                let mut c = el("table:table-cell");
                c.attrs.push(("table:number-columns-repeated".into(), "16300".into()));
                r.kids.push(Node::Elem(c));
            }
            row += rep;
            let t = match &mut wrap {
                Some(w) => &mut w.0,
                None => &mut tab,
            };
            t.kids.push(Node::Elem(r));
            if s.pct(10) {
                t.kids.push(Node::Elem(el("text:soft-page-break")));
            }
            if s.pct(50) {
                if let Some((w, from)) = wrap.take() {
                    close(&w, 'r', from, row, &mut fr);
                    tab.kids.push(Node::Elem(w));
                }
            }
        }
        if let Some((w, from)) = wrap.take() {
            close(&w, 'r', from, row, &mut fr);
            tab.kids.push(Node::Elem(w));
        }
        fr.groups.sort();
        if s.coin() {
            let mut r = el("table:table-row");
            r.attrs.push(("table:number-rows-repeated".into(), "1048000".into()));
            let mut c = el("table:table-cell");
            c.attrs.push(("table:number-columns-repeated".into(), "16384".into()));
            r.kids.push(Node::Elem(c));
            tab.kids.push(Node::Elem(r));
        }
        body.kids.push(Node::Elem(tab));
        sheets.push((name, want, fr));
    }
    if s.coin() {
        body.kids.push(Node::Elem(el("table:named-expressions")));
    }
    let mut b = el("office:body");
    b.kids.push(Node::Elem(body));
    let fods = s.coin();
    let mut root = el(if fods { "office:document" } else { "office:document-content" });
    for (p, u) in [
        ("office", "urn:oasis:names:tc:opendocument:xmlns:office:1.0"),
        ("table", "urn:oasis:names:tc:opendocument:xmlns:table:1.0"),
        ("text", "urn:oasis:names:tc:opendocument:xmlns:text:1.0"),
        ("draw", "urn:oasis:names:tc:opendocument:xmlns:drawing:1.0"),
        ("dc", "http://purl.org/dc/elements/1.1/"),
        ("xlink", "http://www.w3.org/1999/xlink"),
        ("svg", "urn:oasis:names:tc:opendocument:xmlns:svg-compatible:1.0"),
        ("calcext", "urn:org:documentfoundation:names:experimental:calc:xmlns:calcext:1.0"),
        ("my", "urn:my"),
    ] {
        root.attrs.push((format!("xmlns:{}", p), u.into()));
    }
    if s.coin() {
        root.attrs.push(("office:version".into(), s.pickc(&["1.2", "1.3"]).into()));
    }
    if fods {
        root.attrs.push(("office:mimetype".into(), "application/vnd.oasis.opendocument.spreadsheet".into()));
    }
    for n in ["office:scripts", "office:font-face-decls", "office:automatic-styles"] {
        if s.coin() {
            root.kids.push(Node::Elem(el(n)));
        }
    }
    root.kids.push(Node::Elem(b));
    let sp = if s.coin() { Spell::gen(s) } else { Spell::default() };
    let text = xmlp::doc(s, &root, &sp);
    ctx.repr = format!("{:?} {}", sp, &text[text.find("<office:body").unwrap_or(0)..]);
    let f = if fods { Fmt::Fods } else { Fmt::Ods };
    let buf = if fods {
        text.into_bytes()
    } else {
        let mut files = vec![("content.xml".to_string(), text.into_bytes())];
        if s.coin() {
            files.insert(0, ("mimetype".to_string(), b"application/vnd.oasis.opendocument.spreadsheet".to_vec()));
        }
        xmlp::zip_up(&files, |_| true)?
    };
    for rep in [false, true] {
        let o = if rep { OdsOptions::default().use_repeat_for_cells() } else { OdsOptions::default() };
        let b = read_opt(&buf, f, &o)?;
        eq("sheet names", b.iter_sheets().map(|v| v.name().clone()).collect::<Vec<_>>(), sheets.iter().map(|v| v.0.clone()).collect())?;
        for (i, (_, want, fr)) in sheets.iter().enumerate() {
            let mut got = frame_of(b.sheet(i), fr);
            for (k, run) in fr.runs.iter().enumerate() {
                // with repeats only the first row of a run is addressable
                if rep && *run {
                    got.rows[k] = fr.rows[k].clone();
                }
            }
            eq(&format!("sheet {}", i), &got, fr)?;
            diff_grid(&format!("sheet {} repeats {}", i, rep), &effective(&b, b.sheet(i), false), want)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C16

pub fn c16() -> Check {
    Check {
        id: "C16",
        rule: "files written from workbooks using all features, and table documents made without the library, damaged in one to five places: elements removed, doubled, swapped, renamed or moved, attributes removed or given hostile values, text replaced, bytes flipped, cut off (at and inside every kind of element), inserted, container entries lost, truncated or replaced; reading must end with a workbook or an error, never a panic or a hang, and a workbook it returned can be looked at, written and read again; non-trivial: the damaged file differs from the original",
        parts: vec![
            Part { name: "xml", quick: 24_000, thorough: 500_000, run: rob_xml },
            Part { name: "bytes", quick: 18_000, thorough: 300_000, run: rob_bytes },
            Part { name: "cut", quick: 8_000, thorough: 100_000, run: rob_cut },
            Part { name: "container", quick: 12_000, thorough: 100_000, run: rob_zip },
        ],
        probes: vec![],
    }
}
const EVIL: &[&str] = &[
    "", "0", "1", "-1", "2", "7", "255", "256", "32768", "65536", "2147483648", "4294967296", "18446744073709551616", "99999999999999999999999999", "+1", " 1 ", "1.5", "1e400", "NaN", "inf", "-0", "true", "false", "TRUE",
    "P", "PT", "-P", "PT99999999999999999999S", "P9999999999999D", "PT0.00000000000000000001S", "-PT1S", "P1Y", "0000-00-00", "2020-13-45", "2020-02-30T25:61:61", "99999999-01-01", "-", "T", "2020-01-01T", "#", "#zzz", "1cm", "cm", "-5pt",
    "\u{e4}", "\u{1f600}", "none", "collapse", "filter", "visible", "default", "table-cell", "table", "$A$1", "A1:B2", "$'x'.A1", "'", ".", "..", "[", "string", "float", "int", "boolean", "long", "short", "double", "datetime", "base64Binary", "a b", "simple", "onLoad", "of:=", "and(", "cell-content()=", "/", "content.xml", "../x", "1048576", "16384",
];
fn evil(s: &mut Src, key: &str) -> String {
    loop {
        let t = if s.pct(85) { s.pick(EVIL).to_string() } else { gen::text(s) };
        // repeated content is cloned: that many clones are asked for, not an error.
        if key.ends_with("-repeated") && t.parse::<u32>().is_ok_and(|v| v > 300) {
            return "300".into();
        }
        return t;
    }
}
fn elem_count(e: &Elem) -> usize {
    1 + e.elems().map(elem_count).sum::<usize>()
}
fn nth(e: &mut Elem, n: &mut usize) -> Option<*mut Elem> {
    if *n == 0 {
        return Some(e);
    }
    *n -= 1;
    for k in &mut e.kids {
        if let Node::Elem(x) = k {
            if let Some(r) = nth(x, n) {
                return Some(r);
            }
        }
    }
    None
}
fn names(e: &Elem, o: &mut Vec<String>) {
    o.push(e.name.clone());
    e.elems().for_each(|x| names(x, o));
}
fn keys(e: &Elem, o: &mut Vec<String>) {
    o.extend(e.attrs.iter().map(|a| a.0.clone()).filter(|a| !a.starts_with("xmlns")));
    e.elems().for_each(|x| keys(x, o));
}
fn damage(s: &mut Src, root: &mut Elem, log: &mut String) {
    let (mut ns, mut ks) = (vec![], vec![]);
    names(root, &mut ns);
    keys(root, &mut ks);
    ks.push("table:number-columns-repeated".into());
    let total = elem_count(root);
    let mut i = s.u(total);
    if s.coin() {
        // rare elements as often as common ones
        let mut d = ns.clone();
        d.sort();
        d.dedup();
        let name = s.pickc(&d);
        let all: Vec<usize> = (0..ns.len()).filter(|k| ns[*k] == name).collect();
        i = s.pickc(&all);
    }
    let mut n = i;
    let e: &mut Elem = match nth(root, &mut n) {
        // the only reference into the tree
        Some(p) => unsafe { &mut *p },
        None => return,
    };
    let nk = e.kids.len();
    let op = s.u(13);
    log.push_str(&format!(" {}@{}", op, e.name));
    match op {
        0 | 1 | 2 if !e.attrs.is_empty() => {
            let j = s.u(e.attrs.len());
            let v = evil(s, &e.attrs[j].0.clone());
            log.push_str(&format!(" {}={:?}", e.attrs[j].0, v));
            e.attrs[j].1 = v;
        }
        3 if !e.attrs.is_empty() => {
            let j = s.u(e.attrs.len());
            log.push_str(&format!(" -{}", e.attrs[j].0));
            e.attrs.remove(j);
        }
        4 => {
            let k = s.pickc(&ks);
            let v = evil(s, &k);
            log.push_str(&format!(" +{}={:?}", k, v));
            if e.attr(&k).is_none() {
                e.attrs.push((k, v));
            }
        }
        5 if nk > 0 => {
            let j = s.u(nk);
            e.kids.remove(j);
        }
        6 if nk > 0 => {
            let j = s.u(nk);
            let c = e.kids[j].clone();
            let j = s.u(nk + 1);
            e.kids.insert(j, c);
        }
        7 if nk > 1 => {
            let (a, b) = (s.u(nk), s.u(nk));
            e.kids.swap(a, b);
        }
        8 => {
            e.name = s.pickc(&ns);
            log.push_str(&format!(" ->{}", e.name));
        }
        9 => {
            let c = el(s.pick(&ns));
            log.push_str(&format!(" +<{}>", c.name));
            let j = s.u(nk + 1);
            e.kids.insert(j, Node::Elem(c));
        }
        10 => {
            let t = evil(s, "");
            log.push_str(&format!(" +{:?}", t));
            let j = s.u(nk + 1);
            e.kids.insert(j, Node::Text(t));
        }
        11 => {
            // wrap in itself
            let c = e.clone();
            e.kids = vec![Node::Elem(c)];
        }
        _ => e.kids.clear(),
    }
}
/// Look at everything, write and read again.
fn survive(buf: &[u8], f: Fmt, ctx: &mut Ctx) -> R {
    let o = match ctx.labels.len() % 4 {
        0 => OdsOptions::default(),
        1 => OdsOptions::default().use_repeat_for_cells(),
        2 => OdsOptions::default().content_only(),
        _ => OdsOptions::default().ignore_empty_cells(),
    };
    for o in [OdsOptions::default(), o] {
        let r = guard("reading", || if f == Fmt::Fods { o.read_fods(std::io::Cursor::new(buf)) } else { o.read_ods(std::io::Cursor::new(buf)) })?;
        match r {
            Err(e) => {
                ctx.label("refused");
                let _ = guard("error text", || format!("{} {:?}", e, e))?;
            }
            Ok(mut b) => {
                ctx.label("accepted");
                guard("accessors", || {
                    let _ = full::dump(&b, true);
                    for sh in b.iter_sheets() {
                        let _ = sh.used_grid_size();
                    }
                })?;
                for g in [Fmt::OdsPlain, Fmt::Fods] {
                    let w = guard("writing", || match g {
                        Fmt::Fods => write_fods_buf(&mut b, Vec::new()),
                        _ => write_ods_buf_uncompressed(&mut b, Vec::new()),
                    })?;
                    if let Ok(w) = w {
                        ctx.label("written");
                        let r = guard("reading again", || if g == Fmt::Fods { read_fods_buf(&w) } else { read_ods_buf(&w) })?;
                        if let Err(e) = r {
                            return Err(format!("the file written ({:?}) after reading a damaged file cannot be read: {}", g, e));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}
fn base_files(s: &mut Src, ctx: &mut Ctx) -> Result<(Fmt, Vec<(String, Vec<u8>)>), String> {
    let mut book = full::gen_book(s, ctx);
    if s.pct(30) {
        full::gen_extra_files(s, &mut book);
    }
    ctx.labels.clear();
    if s.coin() {
        let b = write(&mut book, Fmt::Fods)?;
        Ok((Fmt::Fods, vec![("f".into(), b)]))
    } else {
        let b = write(&mut book, Fmt::OdsPlain)?;
        Ok((Fmt::OdsPlain, xmlp::unzip(&b)?.into_iter().map(|(n, b, _)| (n, b)).collect()))
    }
}
fn pack(f: Fmt, files: &[(String, Vec<u8>)]) -> Result<Vec<u8>, String> {
    if f == Fmt::Fods { Ok(files[0].1.clone()) } else { xmlp::zip_up(files, |_| true) }
}
fn rob_xml(s: &mut Src, ctx: &mut Ctx) -> R {
    let (f, mut files) = base_files(s, ctx)?;
    let mut log = format!("{:?}", f);
    let xml: Vec<usize> = (0..files.len()).filter(|i| f == Fmt::Fods || files[*i].0.ends_with(".xml")).collect();
    // mostly the content
    let main = xml.iter().copied().find(|i| files[*i].0 == "content.xml").unwrap_or(xml[0]);
    for _ in 0..1 + s.u(5) {
        let i = if s.pct(50) { main } else { s.pickc(&xml) };
        let Ok(mut root) = xmlp::parse(&files[i].1, false) else { continue };
        log.push_str(&format!(" {}:", files[i].0));
        damage(s, &mut root, &mut log);
        files[i].1 = xmlp::doc(s, &root, &Spell::default()).into_bytes();
    }
    ctx.nontrivial = true;
    ctx.repr = log;
    survive(&pack(f, &files)?, f, ctx)
}
fn hurt(s: &mut Src, b: &mut Vec<u8>, log: &mut String) {
    if b.is_empty() {
        return;
    }
    let i = s.u(b.len());
    let op = s.u(6);
    log.push_str(&format!(" {}@{}", op, i));
    match op {
        0 => b.truncate(i),
        1 => b[i] = s.u(256) as u8,
        2 => {
            b.insert(i, s.pickc(b"<>&\"'/=!?-[]:;# \0\xff"));
        }
        3 => {
            let n = (1 + s.u(40)).min(b.len() - i);
            b.drain(i..i + n);
        }
        4 => {
            let n = (1 + s.u(40)).min(b.len() - i);
            let c = b[i..i + n].to_vec();
            let j = s.u(b.len());
            for (k, x) in c.into_iter().enumerate() {
                b.insert(j + k, x);
            }
        }
        _ => {
            // around a tag
            let p = (i..b.len()).find(|p| b[*p] == b'<' || b[*p] == b'>').unwrap_or(i);
            if s.coin() {
                b.remove(p);
            } else {
                b.truncate(p + 1);
            }
        }
    }
}
/// No repeat count so big that cloning the content takes all of the memory.
fn tame(b: &[u8]) -> bool {
    let key = b"-repeated";
    let mut i = 0;
    while let Some(p) = b[i..].windows(key.len()).position(|w| w == key) {
        let mut j = i + p + key.len();
        while j < b.len() && !b[j].is_ascii_digit() && b[j] != b'>' && j < i + p + 30 {
            j += 1;
        }
        let d = b[j..].iter().take_while(|c| c.is_ascii_digit()).count();
        if (4..=10).contains(&d) {
            return false;
        }
        i += p + key.len();
    }
    true
}
fn rob_bytes(s: &mut Src, ctx: &mut Ctx) -> R {
    let (f, mut files) = base_files(s, ctx)?;
    let mut log = format!("{:?}", f);
    for _ in 0..1 + s.u(4) {
        let i = s.u(files.len());
        log.push_str(&format!(" {}:", files[i].0));
        hurt(s, &mut files[i].1, &mut log);
    }
    ctx.repr = log;
    if !files.iter().all(|f| tame(&f.1)) {
        return Ok(());
    }
    ctx.nontrivial = true;
    survive(&pack(f, &files)?, f, ctx)
}
/// Files that end in the middle: at or inside every kind of element.
fn rob_cut(s: &mut Src, ctx: &mut Ctx) -> R {
    let (f, files) = base_files(s, ctx)?;
    let xml: Vec<usize> = (0..files.len()).filter(|i| f == Fmt::Fods || files[*i].0.ends_with(".xml")).collect();
    let i = s.pickc(&xml);
    let b = &files[i].1;
    // all tags by name
    let mut tags: std::collections::BTreeMap<&[u8], Vec<(usize, usize)>> = Default::default();
    let mut p = 0;
    while let Some(k) = b[p..].iter().position(|c| *c == b'<') {
        let from = p + k;
        let Some(k) = b[from..].iter().position(|c| *c == b'>') else { break };
        let to = from + k + 1;
        let n = b[from + 1..to].iter().skip(1).position(|c| matches!(c, b' ' | b'>' | b'/')).map_or(to, |n| from + 2 + n);
        tags.entry(&b[from + 1..n]).or_default().push((from, to));
        p = to;
    }
    let names: Vec<&[u8]> = tags.keys().copied().collect();
    if names.is_empty() {
        return Ok(());
    }
    ctx.nontrivial = true;
    let mut log = format!("{:?} {}", f, files[i].0);
    let mut files2 = files.clone();
    for _ in 0..1 + s.u(12) {
        let n = s.pickc(&names);
        let (from, to) = s.pickc(&tags[n]);
        let at = match s.u(4) {
            0 => from,
            1 | 2 => to,
            _ => (to + s.u(30)).min(b.len()),
        };
        log.push_str(&format!(" {}@{}", String::from_utf8_lossy(n), at));
        files2[i].1 = b[..at].to_vec();
        let buf = pack(f, &files2)?;
        ctx.repr = log.clone();
        let o = if s.coin() { OdsOptions::default() } else { OdsOptions::default().content_only() };
        let r = guard("reading", || if f == Fmt::Fods { o.read_fods(std::io::Cursor::new(&buf)) } else { o.read_ods(std::io::Cursor::new(&buf)) })?;
        match r {
            Ok(_) => ctx.label("accepted"),
            Err(_) => ctx.label("refused"),
        }
    }
    Ok(())
}
fn rob_zip(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut book = full::gen_book(s, ctx);
    full::gen_extra_files(s, &mut book);
    ctx.labels.clear();
    let mut b = write(&mut book, if s.coin() { Fmt::Ods } else { Fmt::OdsPlain })?;
    let mut log = String::from("zip");
    if s.coin() {
        let mut files: Vec<(String, Vec<u8>)> = xmlp::unzip(&b)?.into_iter().map(|(n, b, _)| (n, b)).collect();
        for _ in 0..1 + s.u(3) {
            let i = s.u(files.len());
            let n = files[i].0.clone();
            match s.u(4) {
                0 => {
                    log.push_str(&format!(" -{}", n));
                    files.remove(i);
                    if files.is_empty() {
                        break;
                    }
                }
                1 => {
                    let j = s.u(files.len());
                    log.push_str(&format!(" {}={}", n, files[j].0));
                    files[i].1 = files[j].1.clone();
                }
                2 => {
                    log.push_str(&format!(" {} emptied", n));
                    files[i].1.clear();
                }
                _ => {
                    let x = s.pickc(&["content.xml", "x", "../../up.xml", "/abs", "META-INF/manifest.xml", "a/b/", ""]).to_string();
                    if !files.iter().any(|f| f.0 == x) {
                        log.push_str(&format!(" {}->{:?}", n, x));
                        files[i].0 = x;
                    }
                }
            }
        }
        b = xmlp::zip_up(&files, |_| true)?;
    } else {
        for _ in 0..1 + s.u(3) {
            hurt(s, &mut b, &mut log);
        }
        if !tame(&b) {
            return Ok(());
        }
    }
    ctx.nontrivial = true;
    ctx.repr = log;
    survive(&b, Fmt::Ods, ctx)
}
