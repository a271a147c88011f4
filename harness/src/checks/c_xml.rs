//! C04 no text changes the markup, C25 the written file seen by an independent reader.
use super::c_struct;
use crate::engine::*;
use crate::full;
use crate::gen;
use crate::model::*;
use crate::xmlp::{self, Elem, Node};
use chrono::{Duration, NaiveDate, NaiveDateTime, NaiveTime};
use spreadsheet_ods::condition::{Condition, ValueCondition};
use spreadsheet_ods::defaultstyles::DefaultFormat;
use spreadsheet_ods::draw::{Annotation, DrawFrame, DrawFrameContent, DrawImage};
use spreadsheet_ods::format::{FormatNumberStyle, ValueFormatTrait, ValueStyleMap};
use spreadsheet_ods::manifest::Manifest;
use spreadsheet_ods::metadata::{MetaUserDefined, MetaValue};
use spreadsheet_ods::sheet::Visibility;
use spreadsheet_ods::style::stylemap::StyleMap;
use spreadsheet_ods::style::tabstop::TabStop;
use spreadsheet_ods::style::*;
use spreadsheet_ods::validation::{Validation, ValidationError, ValidationHelp};
use spreadsheet_ods::workbook::{EventListener, Script};
use spreadsheet_ods::xmltree::{XmlContent, XmlTag};
use spreadsheet_ods::*;
use std::collections::{BTreeMap, BTreeSet};

type Slot = (&'static str, fn(&mut WorkBook, &str));

fn sh(b: &mut WorkBook) -> &mut Sheet {
    b.sheet_mut(0)
}
fn p(t: &str) -> XmlTag {
    let mut x = XmlTag::new("text:p");
    x.add_text(t.to_string());
    x
}
fn ann(b: &mut WorkBook, f: impl Fn(&mut Annotation)) {
    let mut a = Annotation::new_empty();
    f(&mut a);
    sh(b).set_annotation(1, 1, a);
}
fn frm(b: &mut WorkBook, f: impl Fn(&mut DrawFrame)) {
    let mut a = DrawFrame::new();
    f(&mut a);
    sh(b).add_draw_frame(1, 1, a);
}
fn img(b: &mut WorkBook, f: impl Fn(&mut DrawImage)) {
    let mut i = DrawImage::new();
    f(&mut i);
    frm(b, |d| d.push_content(DrawFrameContent::Image(i.clone())));
}
fn val(b: &mut WorkBook, f: impl Fn(&mut Validation)) {
    let mut v = Validation::new();
    v.set_name("v");
    f(&mut v);
    b.add_validation(v);
}
fn evt(b: &mut WorkBook, f: impl Fn(&mut EventListener)) {
    let mut e = EventListener::new();
    e.set_event_name("e".into());
    f(&mut e);
    b.add_event_listener(e);
}
fn cst(b: &mut WorkBook, f: impl Fn(&mut CellStyle)) {
    let mut e = CellStyle::new("c_", &ValueFormatRef::from("n_"));
    f(&mut e);
    b.add_cellstyle(e);
}
fn nf(b: &mut WorkBook, f: impl Fn(&mut ValueFormatNumber)) {
    let mut e = ValueFormatNumber::new_named("n_");
    f(&mut e);
    b.add_number_format(e);
}
fn mp(b: &mut WorkBook, f: impl Fn(&mut MasterPage)) {
    let mut e = MasterPage::new("m_");
    f(&mut e);
    b.add_masterpage(e);
}
fn pst(b: &mut WorkBook, f: impl Fn(&mut PageStyle)) {
    let mut e = PageStyle::new("p_");
    f(&mut e);
    b.add_pagestyle(e);
}
macro_rules! md {
    ($f:ident) => {
        (concat!("metadata ", stringify!($f)), |b, t| b.metadata_mut().$f = t.into())
    };
}
const SLOTS: &[Slot] = &[
    ("text", |b, t| sh(b).set_value(1, 1, t)),
    ("rich text", |b, t| {
        let mut x = XmlTag::new("text:p");
        let mut sp = XmlTag::new("text:span");
        sp.add_text(t.to_string());
        sp.set_attr("text:style-name", "s".to_string());
        x.add_tag(sp);
        sh(b).set_value(1, 1, x)
    }),
    ("rich attribute", |b, t| {
        let mut x = XmlTag::new("text:p");
        let mut sp = XmlTag::new("text:a");
        sp.add_text("q".to_string());
        sp.set_attr("xlink:href", t.to_string());
        x.add_tag(sp);
        sh(b).set_value(1, 1, x)
    }),
    ("currency", |b, t| sh(b).set_value(1, 1, Value::Currency(1.5, t.into()))),
    ("formula", |b, t| sh(b).set_formula(1, 1, t)),
    ("cell style", |b, t| sh(b).set_cellstyle(1, 1, &CellStyleRef::from(t))),
    ("validation ref", |b, t| sh(b).set_validation(1, 1, &vref(t))),
    ("sheet name", |b, t| sh(b).set_name(t)),
    ("active sheet", |b, t| b.config_mut().active_table = t.into()),
    ("table style", |b, t| sh(b).set_style(&TableStyleRef::from(t))),
    ("column cell style", |b, t| sh(b).set_col_cellstyle(2, &CellStyleRef::from(t))),
    ("row cell style", |b, t| sh(b).set_row_cellstyle(2, &CellStyleRef::from(t))),
    ("default style", |b, t| b.add_def_style(ValueType::Number, CellStyleRef::from(t))),
    ("annotation text", |b, t| ann(b, |a| a.push_text_str(t))),
    ("annotation tag", |b, t| ann(b, |a| a.push_text(p(t)))),
    ("annotation name", |b, t| ann(b, |a| a.set_name(t))),
    ("annotation creator", |b, t| ann(b, |a| a.set_creator(Some(t)))),
    ("annotation attribute", |b, t| ann(b, |a| a.attrmap_mut().set_attr("svg:x", t.to_string()))),
    ("frame title", |b, t| frm(b, |a| a.set_title(t))),
    ("frame desc", |b, t| frm(b, |a| a.set_desc(t))),
    ("frame attribute", |b, t| frm(b, |a| a.attrmap_mut().set_attr("draw:name", t.to_string()))),
    ("image attribute", |b, t| img(b, |a| a.attrmap_mut().set_attr("xlink:href", t.to_string()))),
    ("image data", |b, t| img(b, |a| a.set_binary_base64(t.to_string()))),
    ("image text", |b, t| img(b, |a| a.push_text_str(t))),
    ("image tag", |b, t| img(b, |a| a.push_text(p(t)))),
    ("font name", |b, t| b.add_font(FontFaceDecl::new(t))),
    ("font attribute", |b, t| {
        let mut f = FontFaceDecl::new("f_");
        f.attrmap_mut().set_attr("svg:font-family", t.to_string());
        b.add_font(f)
    }),
    ("style name", |b, t| cst(b, |c| c.set_name(t))),
    ("style attribute", |b, t| cst(b, |c| c.attrmap_mut().set_attr("style:display-name", t.to_string()))),
    ("cell property", |b, t| cst(b, |c| c.cellstyle_mut().set_attr("fo:padding", t.to_string()))),
    ("paragraph property", |b, t| cst(b, |c| c.paragraphstyle_mut().set_attr("fo:margin", t.to_string()))),
    ("text property", |b, t| cst(b, |c| c.textstyle_mut().set_attr("fo:color", t.to_string()))),
    ("style map target", |b, t| cst(b, |c| c.push_stylemap(StyleMap::new(Condition::content_eq(1), AnyStyleRef::from(t), None)))),
    ("col style", |b, t| {
        let mut e = ColStyle::new(t);
        e.colstyle_mut().set_attr("fo:break-before", t.to_string());
        b.add_colstyle(e);
    }),
    ("row style", |b, t| {
        let mut e = RowStyle::new(t);
        e.rowstyle_mut().set_attr("fo:break-before", t.to_string());
        b.add_rowstyle(e);
    }),
    ("table style def", |b, t| {
        let mut e = TableStyle::new(t);
        e.tablestyle_mut().set_attr("table:display", t.to_string());
        b.add_tablestyle(e);
    }),
    ("paragraph style", |b, t| {
        let mut e = ParagraphStyle::new(t);
        e.paragraphstyle_mut().set_attr("fo:margin", t.to_string());
        let mut ts = TabStop::new();
        ts.attrmap_mut().set_attr("style:position", t.to_string());
        e.add_tabstop(ts);
        b.add_paragraphstyle(e);
    }),
    ("text style", |b, t| {
        let mut e = TextStyle::new(t);
        e.textstyle_mut().set_attr("fo:color", t.to_string());
        b.add_textstyle(e);
    }),
    ("ruby style", |b, t| {
        let mut e = RubyStyle::new(t);
        e.rubystyle_mut().set_attr("style:ruby-align", t.to_string());
        b.add_rubystyle(e);
    }),
    ("graphic style", |b, t| {
        let mut e = GraphicStyle::new(t);
        e.graphicstyle_mut().set_attr("draw:fill", t.to_string());
        b.add_graphicstyle(e);
    }),
    ("format name", |b, t| nf(b, |n| n.set_name(t))),
    ("format attribute", |b, t| nf(b, |n| n.attrmap_mut().set_attr("number:title", t.to_string()))),
    ("format text", |b, t| nf(b, |n| n.part_text(t).build())),
    ("format text style", |b, t| nf(b, |n| n.textstyle_mut().set_attr("fo:color", t.to_string()))),
    ("format embedded text", |b, t| nf(b, |n| n.part_number().embedded_text(t, 1).build())),
    ("format map", |b, t| nf(b, |n| n.push_stylemap(ValueStyleMap::new(ValueCondition::value_eq(1), ValueFormatRef::from(t))))),
    ("currency symbol", |b, t| {
        let mut e = ValueFormatCurrency::new_named("n_");
        e.part_currency().symbol(t).build();
        b.add_currency_format(e);
    }),
    ("date format text", |b, t| {
        let mut e = ValueFormatDateTime::new_named("n_");
        e.part_day().style(FormatNumberStyle::Long).build();
        e.part_text(t).build();
        b.add_datetime_format(e);
    }),
    ("page style name", |b, t| pst(b, |x| x.set_name(t.to_string()))),
    ("page style attribute", |b, t| pst(b, |x| x.style_mut().set_attr("fo:margin", t.to_string()))),
    ("page header attribute", |b, t| pst(b, |x| x.headerstyle_mut().style_mut().set_attr("fo:margin", t.to_string()))),
    ("page footer attribute", |b, t| pst(b, |x| x.footerstyle_mut().style_mut().set_attr("fo:margin", t.to_string()))),
    ("master page name", |b, t| mp(b, |x| x.set_name(t.to_string()))),
    ("master page display name", |b, t| mp(b, |x| x.set_display_name(t.to_string()))),
    ("master page next", |b, t| mp(b, |x| x.set_next_masterpage(&MasterPageRef::from(t)))),
    ("master page style", |b, t| mp(b, |x| x.set_pagestyle(&PageStyleRef::from(t)))),
    ("header region", |b, t| mp(b, |x| x.header_mut().add_left(p(t)))),
    ("footer content", |b, t| mp(b, |x| x.footer_left_mut().add_content(p(t)))),
    ("validation name", |b, t| val(b, |v| v.set_name(t))),
    ("validation error title", |b, t| {
        val(b, |v| {
            let mut e = ValidationError::new();
            e.set_title(Some(t.to_string()));
            v.set_err(Some(e))
        })
    }),
    ("validation error text", |b, t| {
        val(b, |v| {
            let mut e = ValidationError::new();
            e.set_text(Some(p(t)));
            v.set_err(Some(e))
        })
    }),
    ("validation help title", |b, t| {
        val(b, |v| {
            let mut e = ValidationHelp::new();
            e.set_title(Some(t.to_string()));
            v.set_help(Some(e))
        })
    }),
    ("validation help text", |b, t| {
        val(b, |v| {
            let mut e = ValidationHelp::new();
            e.set_text(Some(p(t)));
            v.set_help(Some(e))
        })
    }),
    ("event name", |b, t| evt(b, |e| e.set_event_name(t.to_string()))),
    ("event language", |b, t| evt(b, |e| e.set_script_lang(t.to_string()))),
    ("event macro", |b, t| evt(b, |e| e.set_macro_name(t.to_string()))),
    ("event href", |b, t| evt(b, |e| e.set_href(t.to_string()))),
    ("script language", |b, t| {
        let mut e = Script::new();
        e.set_script_lang(t.to_string());
        b.add_script(e)
    }),
    ("script text", |b, t| {
        let mut e = Script::new();
        e.set_script(vec![XmlContent::Text(t.to_string())]);
        b.add_script(e)
    }),
    md!(title),
    md!(description),
    md!(subject),
    md!(keyword),
    md!(initial_creator),
    md!(creator),
    md!(printed_by),
    md!(language),
    ("template href", |b, t| b.metadata_mut().template.href = Some(t.into())),
    ("template title", |b, t| b.metadata_mut().template.title = Some(t.into())),
    ("reload href", |b, t| b.metadata_mut().auto_reload.href = Some(t.into())),
    ("target frame", |b, t| b.metadata_mut().hyperlink_behaviour.target_frame_name = Some(t.into())),
    ("user defined name", |b, t| b.metadata_mut().user_defined.push(MetaUserDefined { name: t.into(), value: MetaValue::Float(1.0) })),
    ("user defined value", |b, t| b.metadata_mut().user_defined.push(MetaUserDefined { name: "u".into(), value: MetaValue::String(t.into()) })),
    ("version", |b, t| b.set_version(t.into())),
    ("media type", |b, t| b.add_manifest(Manifest::with_buf("x/y", t, vec![1]))),
];

pub fn c04() -> Check {
    Check {
        id: "C04",
        rule: "for each of the ~85 places of the API that take a text (cell text, names, attributes, metadata, formats, messages, ...): a hostile text and a harmless marker are put there, both written; the parsed documents must be equal after replacing the marker by the text, as written and again after reading and writing; non-trivial: the text has a character special to XML or outside of ASCII",
        parts: vec![Part { name: "slots", quick: 30_000, thorough: 500_000, run: slots }],
        probes: vec![],
    }
}
/// Document as sorted list of facts, with one text replaced by another.
fn facts(part: &str, e: &Elem, from: &str, to: &str, path: &str, o: &mut Vec<String>) {
    let path = format!("{}/{}", path, e.name);
    let rep = |v: &str| if from.is_empty() { v.to_string() } else { v.replace(from, to) };
    let mut a: Vec<String> = e.attrs.iter().filter(|a| !a.0.starts_with("xmlns")).map(|(k, v)| format!("{}={:?}", k, rep(v))).collect();
    a.sort();
    let mut txt = String::new();
    let mut shape = String::new();
    for k in &e.kids {
        match k {
            Node::Text(t) => txt.push_str(t),
            Node::Elem(x) => {
                shape.push_str(&x.name);
                shape.push(' ');
                facts(part, x, from, to, &path, o);
            }
        }
    }
    if !e.kids.iter().any(|k| matches!(k, Node::Text(t) if !t.trim_matches([' ', '\n', '\r', '\t']).is_empty())) && e.kids.iter().any(|k| matches!(k, Node::Elem(_))) {
        txt.clear();
    }
    let mut shape: Vec<&str> = shape.split_whitespace().collect();
    shape.sort();
    o.push(format!("{}:{} {} {:?} [{}]", part, path, a.join(" "), rep(&txt), shape.join(" ")));
}
fn doc_facts(buf: &[u8], f: Fmt, from: &str, to: &str) -> Result<Vec<String>, String> {
    let mut o = vec![];
    if f == Fmt::Fods {
        facts("fods", &xmlp::parse(buf, true)?, from, to, "", &mut o);
    } else {
        for (n, b) in xmlp::unzip_map(buf)? {
            if n.ends_with(".xml") {
                facts(&n, &xmlp::parse(&b, true).map_err(|e| format!("{}: {}", n, e))?, from, to, "", &mut o);
            } else {
                o.push(format!("{} {:?}", n, b));
            }
        }
    }
    o.sort();
    Ok(o)
}
fn cmp_facts(what: &str, got: &[String], want: &[String]) -> R {
    if got == want {
        return Ok(());
    }
    let (g, w): (BTreeSet<_>, BTreeSet<_>) = (got.iter().collect(), want.iter().collect());
    Err(format!(
        "{}:\n unexpected {:?}\n missing {:?}",
        what,
        g.difference(&w).take(4).collect::<Vec<_>>(),
        w.difference(&g).take(4).collect::<Vec<_>>()
    ))
}
const MARK: &str = "qqMARKqq";
fn slots(s: &mut Src, ctx: &mut Ctx) -> R {
    let (name, set) = s.pickc(SLOTS);
    let f = fmt(s);
    let t = loop {
        let t = match s.u(8) {
            0 => "x".repeat(1 + s.u(20_000)) + s.pickc(&["&", "<", "\"", "é"]),
            1 => gen::text_n(s, 1, 20, 60),
            _ => gen::text_n(s, 1, 5, 14),
        };
        // lines of a text are paragraphs; whitespace-only texts are hard to tell from layout.
        let t = if name == "text" || name.contains("annotation text") { t.replace('\n', "~") } else { t };
        if !t.trim_matches([' ', '\n', '\r', '\t']).is_empty() {
            break t;
        }
        break t + "k";
    };
    ctx.nontrivial = t.chars().any(|c| "<>&\"'\n\r\t".contains(c) || c as u32 > 0x7f);
    ctx.label(name);
    ctx.repr = format!("{:?} {} {:?}", f, name, t);
    let build = |t: &str| {
        let mut b = WorkBook::new_empty();
        let mut sh = Sheet::new("s");
        sh.set_value(0, 0, 1);
        b.push_sheet(sh);
        set(&mut b, t);
        b
    };
    let (mut a, mut b) = (build(&t), build(MARK));
    let (wa, wb) = (write(&mut a, f)?, write(&mut b, f)?);
    let fb = doc_facts(&wb, f, MARK, &t)?;
    if doc_facts(&wb, f, "", "")? == fb && !(f == Fmt::Fods && name == "media type") {
        return Err(format!("{}: the marker is not in the document", name));
    }
    cmp_facts(&format!("{} written", name), &doc_facts(&wa, f, "", "").map_err(|e| format!("{}: {}", name, e))?, &fb)?;
    let (mut a, mut b) = (read(&wa, f)?, read(&wb, f)?);
    let (wa, wb) = (write(&mut a, f)?, write(&mut b, f)?);
    cmp_facts(&format!("{} read and written", name), &doc_facts(&wa, f, "", "")?, &doc_facts(&wb, f, MARK, &t)?)
}

// ---------------------------------------------------------------- C25

pub fn c25() -> Check {
    Check {
        id: "C25",
        rule: "workbooks using all features at once are written as ods and fods; every part is parsed by a strict namespace-aware XML parser, the document structure is checked against ODF (order of sections, allowed children, unique names), and an independent interpreter of rows, columns, repeats, groups, spans, values, styles and sizes must find exactly what the workbook says; non-trivial: at least one cell",
        parts: vec![Part { name: "interpret", quick: 16_000, thorough: 150_000, run: interpret }],
        probes: vec![],
    }
}

fn order(e: &Elem, names: &[&str]) -> R {
    let mut last = 0;
    for x in e.elems() {
        match names.iter().position(|n| *n == x.name) {
            None => return Err(format!("{} in {}", x.name, e.name)),
            Some(i) if i < last => return Err(format!("{} out of order in {}", x.name, e.name)),
            Some(i) => last = i,
        }
    }
    Ok(())
}
fn num(e: &Elem, k: &str) -> Result<u32, String> {
    match e.attr(k) {
        None => Ok(1),
        Some(v) => match v.parse::<u32>() {
            Ok(n) if n > 0 => Ok(n),
            _ => Err(format!("{}={:?}", k, v)),
        },
    }
}
fn digits(t: &str) -> Option<u64> {
    if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) { None } else { t.parse().ok() }
}
/// -?YYYY-MM-DD[Thh:mm:ss[.f]]
fn xsd_date(t: &str) -> Option<NaiveDateTime> {
    let (neg, r) = match t.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, t.strip_prefix('+').unwrap_or(t)),
    };
    let (d, tm) = match r.split_once('T') {
        Some((d, t)) => (d, Some(t)),
        None => (r, None),
    };
    let v: Vec<&str> = d.split('-').collect();
    if v.len() != 3 || v[0].len() < 4 || v[1].len() != 2 || v[2].len() != 2 {
        return None;
    }
    let y = digits(v[0])? as i32;
    let date = NaiveDate::from_ymd_opt(if neg { -y } else { y }, digits(v[1])? as u32, digits(v[2])? as u32)?;
    let time = match tm {
        None => NaiveTime::MIN,
        Some(t) => {
            let (hms, fr) = t.split_once('.').unwrap_or((t, "0"));
            let v: Vec<&str> = hms.split(':').collect();
            if v.len() != 3 || v.iter().any(|x| x.len() != 2) || fr.is_empty() || fr.len() > 9 {
                return None;
            }
            let nano = digits(&format!("{:0<9}", fr))? as u32;
            NaiveTime::from_hms_nano_opt(digits(v[0])? as u32, digits(v[1])? as u32, digits(v[2])? as u32, nano)?
        }
    };
    Some(date.and_time(time))
}
/// -?P[nD]T[nH][nM][n[.f]S]
fn xsd_duration(t: &str) -> Option<Duration> {
    let (neg, r) = match t.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, t),
    };
    let r = r.strip_prefix('P')?;
    let (d, tm) = r.split_once('T')?;
    let mut secs: i64 = 0;
    let mut nano = 0i64;
    if !d.is_empty() {
        secs += digits(d.strip_suffix('D')?)? as i64 * 86400;
    }
    let mut rest = tm;
    for (u, f) in [('H', 3600), ('M', 60)] {
        if let Some((a, b)) = rest.split_once(u) {
            secs += digits(a)? as i64 * f;
            rest = b;
        }
    }
    if !rest.is_empty() {
        let a = rest.strip_suffix('S')?;
        let (a, fr) = a.split_once('.').unwrap_or((a, "0"));
        secs += digits(a)? as i64;
        if fr.is_empty() || fr.len() > 9 {
            return None;
        }
        nano = digits(&format!("{:0<9}", fr))? as i64;
    }
    let v = Duration::seconds(secs) + Duration::nanoseconds(nano);
    Some(if neg { -v } else { v })
}
fn xml_canon(e: &Elem, o: &mut String) {
    o.push('<');
    o.push_str(&e.name);
    let mut a: Vec<String> = e.attrs.iter().map(|(k, v)| format!(" {}={:?}", k, v)).collect();
    a.sort();
    o.push_str(&a.concat());
    o.push('>');
    let mut txt = String::new();
    for k in &e.kids {
        match k {
            Node::Text(t) => txt.push_str(t),
            Node::Elem(x) => {
                if !txt.is_empty() {
                    o.push_str(&format!("{:?}", txt));
                    txt.clear();
                }
                xml_canon(x, o);
            }
        }
    }
    if !txt.is_empty() {
        o.push_str(&format!("{:?}", txt));
    }
    o.push_str("</>");
}
/// A cell in brief, from the file.
fn brief_xml(e: &Elem) -> Result<String, String> {
    let f = |k: &str| -> Result<f64, String> { e.attr(k).and_then(|v| v.parse().ok()).ok_or_else(|| format!("{} of {:?}", k, e)) };
    let v = match e.attr("office:value-type") {
        None => "-".to_string(),
        Some("float") => canon_value(&Value::Number(f("office:value")?)),
        Some("percentage") => canon_value(&Value::Percentage(f("office:value")?)),
        Some("currency") => canon_value(&Value::Currency(f("office:value")?, e.attr("office:currency").ok_or("no currency")?.into())),
        Some("boolean") => canon_value(&Value::Boolean(match e.attr("office:boolean-value") {
            Some("true") => true,
            Some("false") => false,
            x => return Err(format!("boolean {:?}", x)),
        })),
        Some("date") => canon_value(&Value::DateTime(e.attr("office:date-value").and_then(xsd_date).ok_or_else(|| format!("date {:?}", e.attr("office:date-value")))?)),
        Some("time") => canon_value(&Value::TimeDuration(e.attr("office:time-value").and_then(xsd_duration).ok_or_else(|| format!("duration {:?}", e.attr("office:time-value")))?)),
        Some("string") => {
            let ps: Vec<&Elem> = e.all("text:p").collect();
            if ps.iter().all(|p| p.attrs.is_empty() && p.elems().next().is_none()) {
                format!("text {:?}", ps.iter().map(|p| p.text()).collect::<Vec<_>>().join("\n"))
            } else {
                let mut v = vec![];
                for p in ps {
                    let mut o = String::new();
                    xml_canon(p, &mut o);
                    v.push(o);
                }
                format!("xml {}", v.join(" "))
            }
        }
        Some(x) => return Err(format!("value type {:?}", x)),
    };
    for x in e.elems() {
        if !matches!(x.name.as_str(), "text:p" | "office:annotation" | "draw:frame") {
            return Err(format!("{} in a cell", x.name));
        }
    }
    if e.attr("office:value-type").is_some() && e.find("text:p").is_none() {
        return Err("a value without a text".into());
    }
    Ok(format!(
        "{} f={:?} s={:?} v={:?} span={}x{} mat={}x{} ann={} frames={}",
        v,
        e.attr("table:formula"),
        e.attr("table:style-name"),
        e.attr("table:content-validation-name"),
        num(e, "table:number-rows-spanned")?,
        num(e, "table:number-columns-spanned")?,
        num(e, "table:number-matrix-rows-spanned")?,
        num(e, "table:number-matrix-columns-spanned")?,
        e.all("office:annotation").map(ann_xml).collect::<String>(),
        e.all("draw:frame").map(frame_xml).collect::<String>(),
    ))
}
fn ann_xml(e: &Elem) -> String {
    let t = |n: &str| e.find(n).map(|v| v.text()).filter(|v| !v.is_empty());
    let p: Vec<String> = e
        .elems()
        .filter(|x| !x.name.starts_with("dc:"))
        .map(|x| {
            let mut o = String::new();
            xml_canon(x, &mut o);
            o
        })
        .collect();
    format!(
        "[{:?} {} {:?} {:?} {}]",
        e.attr("office:name").unwrap_or(""),
        e.attr("office:display") == Some("true"),
        t("dc:creator"),
        t("dc:date").and_then(|v| xsd_date(&v)),
        p.concat()
    )
}
fn frame_xml(e: &Elem) -> String {
    let t = |n: &str| e.find(n).map(|v| v.text()).unwrap_or_default();
    let i: Vec<String> = e.all("draw:image").map(|i| format!("{:?}", i.find("office:binary-data").map(|v| v.text()).unwrap_or_default())).collect();
    format!("[{:?} {:?} {:?} {}]", e.attr("draw:name"), t("svg:title"), t("svg:desc"), i.concat())
}
fn brief(book: &WorkBook, c: &CellContentRef<'_>) -> String {
    let st = c.style.or_else(|| book.def_style(c.value.value_type()));
    format!(
        "{} f={:?} s={:?} v={:?} span={}x{} mat={}x{} ann={} frames={}",
        canon_value(c.value),
        c.formula.map(|v| v.as_str()),
        st.map(|v| v.as_str()),
        c.validation_name.map(|v| v.as_str()),
        c.span.row_span(),
        c.span.col_span(),
        c.matrix_span.row_span(),
        c.matrix_span.col_span(),
        c.annotation
            .map(|a| {
                format!(
                    "[{:?} {} {:?} {:?} {}]",
                    a.name(),
                    a.display(),
                    a.creator().filter(|v| !v.is_empty()),
                    a.date(),
                    a.text().iter().map(gen::xml_str).collect::<String>()
                )
            })
            .unwrap_or_default(),
        c.draw_frames
            .map(|v| {
                v.iter()
                    .map(|f| {
                        let i: Vec<String> = f
                            .content_ref()
                            .iter()
                            .map(|i| {
                                let DrawFrameContent::Image(i) = i;
                                format!("{:?}", i.get_binary().map(|v| xmlp::base64(&v)).unwrap_or_default())
                            })
                            .collect();
                        format!("[{:?} {:?} {:?} {}]", f.attrmap().attr("draw:name"), f.title().cloned().unwrap_or_default(), f.desc().cloned().unwrap_or_default(), i.concat())
                    })
                    .collect::<String>()
            })
            .unwrap_or_default(),
    )
}
const VOID: &str = "- f=None s=None v=None span=1x1 mat=1x1 ann= frames=";

#[derive(Default)]
struct Tab {
    cells: BTreeMap<(u32, u32), (String, bool)>,
    cols: Vec<(u32, u32, BTreeMap<String, String>)>,
    rows: Vec<(u32, u32, BTreeMap<String, String>)>,
    col: u32,
    row: u32,
    gcols: Vec<(u32, u32, bool)>,
    grows: Vec<(u32, u32, bool)>,
    hcols: Vec<(u32, u32)>,
    hrows: Vec<(u32, u32)>,
    widths: BTreeMap<u32, u32>,
}
impl Tab {
    fn walk(&mut self, e: &Elem, rows: bool) -> R {
        for x in e.elems() {
            match x.name.as_str() {
                "table:table-column" if !rows => {
                    let n = num(x, "table:number-columns-repeated")?;
                    self.cols.push((self.col, self.col + n, x.attrs.iter().cloned().collect()));
                    self.col += n;
                }
                "table:table-column-group" if !rows => {
                    let a = self.col;
                    self.walk(x, rows)?;
                    self.gcols.push((a, self.col.wrapping_sub(1), x.attr("table:display") != Some("false")));
                }
                "table:table-header-columns" if !rows => {
                    let a = self.col;
                    self.walk(x, rows)?;
                    self.hcols.push((a, self.col.wrapping_sub(1)));
                }
                "table:table-row-group" if rows => {
                    let a = self.row;
                    self.walk(x, rows)?;
                    self.grows.push((a, self.row.wrapping_sub(1), x.attr("table:display") != Some("false")));
                }
                "table:table-header-rows" if rows => {
                    let a = self.row;
                    self.walk(x, rows)?;
                    self.hrows.push((a, self.row.wrapping_sub(1)));
                }
                "table:table-row" if rows => {
                    let n = num(x, "table:number-rows-repeated")?;
                    let mut col = 0;
                    if x.elems().next().is_none() {
                        return Err("row without a cell".into());
                    }
                    for c in x.elems() {
                        let cov = match c.name.as_str() {
                            "table:table-cell" => false,
                            "table:covered-table-cell" => true,
                            o => return Err(format!("{} in a row", o)),
                        };
                        let m = num(c, "table:number-columns-repeated")?;
                        let b = brief_xml(c)?;
                        if b != VOID || cov && (m as u64 * n as u64) < 1000 {
                            for i in 0..n {
                                for j in 0..m {
                                    self.cells.insert((self.row + i, col + j), (b.clone(), cov));
                                }
                            }
                        }
                        col += m;
                    }
                    self.widths.insert(self.row, col);
                    self.rows.push((self.row, self.row + n, x.attrs.iter().cloned().collect()));
                    self.row += n;
                }
                _ if !rows && x.name.starts_with("table:table-row") || x.name == "table:table-header-rows" => {}
                _ if rows && (x.name.starts_with("table:table-column") || x.name == "table:table-header-columns") => {}
                o => return Err(format!("{} in {}", o, e.name)),
            }
        }
        Ok(())
    }
}
fn find<'a>(v: &'a [(u32, u32, BTreeMap<String, String>)], i: u32, k: &str) -> Option<&'a str> {
    v.iter().find(|x| x.0 <= i && i < x.1).and_then(|x| x.2.get(k)).map(|v| v.as_str())
}
fn vis_name(v: Visibility) -> Option<&'static str> {
    match v {
        Visibility::Visible => None,
        Visibility::Collapsed => Some("collapse"),
        Visibility::Filtered => Some("filter"),
    }
}

/// Namespaces as given by the ODF specification, and those LibreOffice uses.
const NAMESPACES: &[(&str, &str)] = &[
    ("office", "urn:oasis:names:tc:opendocument:xmlns:office:1.0"),
    ("style", "urn:oasis:names:tc:opendocument:xmlns:style:1.0"),
    ("text", "urn:oasis:names:tc:opendocument:xmlns:text:1.0"),
    ("table", "urn:oasis:names:tc:opendocument:xmlns:table:1.0"),
    ("draw", "urn:oasis:names:tc:opendocument:xmlns:drawing:1.0"),
    ("fo", "urn:oasis:names:tc:opendocument:xmlns:xsl-fo-compatible:1.0"),
    ("svg", "urn:oasis:names:tc:opendocument:xmlns:svg-compatible:1.0"),
    ("meta", "urn:oasis:names:tc:opendocument:xmlns:meta:1.0"),
    ("config", "urn:oasis:names:tc:opendocument:xmlns:config:1.0"),
    ("number", "urn:oasis:names:tc:opendocument:xmlns:datastyle:1.0"),
    ("presentation", "urn:oasis:names:tc:opendocument:xmlns:presentation:1.0"),
    ("chart", "urn:oasis:names:tc:opendocument:xmlns:chart:1.0"),
    ("dr3d", "urn:oasis:names:tc:opendocument:xmlns:dr3d:1.0"),
    ("form", "urn:oasis:names:tc:opendocument:xmlns:form:1.0"),
    ("script", "urn:oasis:names:tc:opendocument:xmlns:script:1.0"),
    ("of", "urn:oasis:names:tc:opendocument:xmlns:of:1.2"),
    ("manifest", "urn:oasis:names:tc:opendocument:xmlns:manifest:1.0"),
    ("xlink", "http://www.w3.org/1999/xlink"),
    ("dc", "http://purl.org/dc/elements/1.1/"),
    ("math", "http://www.w3.org/1998/Math/MathML"),
    ("dom", "http://www.w3.org/2001/xml-events"),
    ("xforms", "http://www.w3.org/2002/xforms"),
    ("xsd", "http://www.w3.org/2001/XMLSchema"),
    ("xsi", "http://www.w3.org/2001/XMLSchema-instance"),
    ("xhtml", "http://www.w3.org/1999/xhtml"),
    ("grddl", "http://www.w3.org/2003/g/data-view#"),
    ("css3t", "http://www.w3.org/TR/css3-text/"),
    ("ooo", "http://openoffice.org/2004/office"),
    ("ooow", "http://openoffice.org/2004/writer"),
    ("oooc", "http://openoffice.org/2004/calc"),
    ("rpt", "http://openoffice.org/2005/report"),
    ("tableooo", "http://openoffice.org/2009/table"),
    ("drawooo", "http://openoffice.org/2010/draw"),
    ("calcext", "urn:org:documentfoundation:names:experimental:calc:xmlns:calcext:1.0"),
    ("loext", "urn:org:documentfoundation:names:experimental:office:xmlns:loext:1.0"),
    ("field", "urn:openoffice:names:experimental:ooo-ms-interop:xmlns:field:1.0"),
    ("formx", "urn:openoffice:names:experimental:ooxml-odf-interop:xmlns:form:1.0"),
];
/// A prefix known to the specification stands for the namespace of the specification.
fn namespaces(file: &str, r: &Elem) -> R {
    for (k, v) in &r.attrs {
        if let Some(p) = k.strip_prefix("xmlns:") {
            if let Some((_, u)) = NAMESPACES.iter().find(|n| n.0 == p) {
                eq(&format!("{} {}", file, k), v.as_str(), *u)?;
            }
        }
    }
    Ok(())
}
/// Prefixes in formulas are namespaces, too.
fn formula_ns(e: &Elem, root: &Elem) -> R {
    for k in ["table:formula", "table:condition"] {
        if let Some(v) = e.attr(k) {
            for p in ["of", "oooc"] {
                if v.starts_with(&format!("{}:", p)) && root.attr(&format!("xmlns:{}", p)).is_none() {
                    return Err(format!("undeclared prefix in {}={:?}", k, v));
                }
            }
        }
    }
    for x in e.elems() {
        formula_ns(x, root)?;
    }
    Ok(())
}
fn interpret(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut book = full::gen_book(s, ctx);
    let f = fmt(s);
    let n: usize = book.iter_sheets().map(|sh| sh.cell_count()).sum();
    ctx.nontrivial = n > 0;
    ctx.repr = format!("{:?} sheets {} cells {} {:?}", f, book.num_sheets(), n, full::dump(&book, true).iter().filter(|(k, _)| k.contains(" cell ")).take(20).collect::<Vec<_>>());
    let buf = write(&mut book, f)?;
    let mut parts: BTreeMap<&str, Elem> = BTreeMap::new();
    if f == Fmt::Fods {
        let r = xmlp::parse(&buf, true)?;
        eq("root", r.name.as_str(), "office:document")?;
        eq("mimetype", r.attr("office:mimetype"), Some("application/vnd.oasis.opendocument.spreadsheet"))?;
        order(&r, &["office:meta", "office:settings", "office:scripts", "office:font-face-decls", "office:styles", "office:automatic-styles", "office:master-styles", "office:body"])?;
        for k in ["content", "styles", "meta", "settings"] {
            parts.insert(k, r.clone());
        }
    } else {
        let m = xmlp::unzip_map(&buf)?;
        for (k, file, kids) in [
            ("content", "content.xml", &["office:scripts", "office:font-face-decls", "office:automatic-styles", "office:body"][..]),
            ("styles", "styles.xml", &["office:font-face-decls", "office:styles", "office:automatic-styles", "office:master-styles"][..]),
            ("meta", "meta.xml", &["office:meta"][..]),
            ("settings", "settings.xml", &["office:settings"][..]),
        ] {
            let r = xmlp::parse(m.get(file).ok_or(file)?, true).map_err(|e| format!("{}: {}", file, e))?;
            eq("root", r.name.clone(), format!("office:document-{}", k))?;
            order(&r, kids)?;
            parts.insert(k, r);
        }
        let r = xmlp::parse(m.get("META-INF/manifest.xml").ok_or("no manifest")?, true)?;
        namespaces("manifest", &r)?;
    }
    formula_ns(&parts["content"], &parts["content"])?;
    for (k, r) in &parts {
        namespaces(k, r)?;
        eq(&format!("version of {}", k), r.attr("office:version"), Some(book.version().as_str()))?;
        for x in ["office:scripts", "office:font-face-decls", "office:styles", "office:automatic-styles", "office:master-styles", "office:body", "office:meta", "office:settings"] {
            if r.all(x).count() > 1 {
                return Err(format!("{} more than once", x));
            }
        }
    }
    // styles: unique names, kinds where they belong
    for (k, r) in &parts {
        for sect in ["office:styles", "office:automatic-styles"] {
            let mut seen = BTreeSet::new();
            if let Some(e) = r.find(sect) {
                for x in e.elems() {
                    if !matches!(
                        x.name.as_str(),
                        "style:style" | "style:default-style" | "style:page-layout" | "number:number-style" | "number:currency-style" | "number:percentage-style" | "number:date-style" | "number:time-style" | "number:boolean-style" | "number:text-style"
                    ) || sect == "office:automatic-styles" && x.name == "style:default-style"
                        || sect == "office:styles" && x.name == "style:page-layout"
                    {
                        return Err(format!("{} in {}", x.name, sect));
                    }
                    let nm = if x.name == "style:default-style" { Some("") } else { x.attr("style:name") };
                    let key = (x.name.split(':').next().unwrap_or("").to_string(), x.attr("style:family").map(|v| v.to_string()), nm.map(|v| v.to_string()));
                    if nm.is_none() {
                        return Err(format!("{} without a name", x.name));
                    }
                    if (x.name == "style:style" || x.name == "style:default-style") && x.attr("style:family").is_none() {
                        return Err("style without a family".into());
                    }
                    // value formats of different kinds have name spaces of their own here.
                    if x.name.starts_with("style:") && x.name != "style:page-layout" && !seen.insert(key.clone()) {
                        return Err(format!("{:?} twice in {} of {}", key, sect, k));
                    }
                }
            }
        }
    }
    let auto = parts["content"].find("office:automatic-styles").ok_or("no automatic styles")?;
    let named = parts["styles"].find("office:styles").ok_or("no styles")?;
    let auto2 = parts["styles"].find("office:automatic-styles").ok_or("no automatic styles")?;
    let style_attr = |fam: &str, name: Option<&str>, props: &str, k: &str| -> Option<String> {
        let name = name?;
        [auto, named, auto2]
            .iter()
            .flat_map(|e| e.all("style:style"))
            .find(|e| e.attr("style:family") == Some(fam) && e.attr("style:name") == Some(name))
            .and_then(|e| e.find(props))
            .and_then(|e| e.attr(k))
            .map(|v| v.to_string())
    };
    // body
    let sp = parts["content"].find("office:body").and_then(|b| b.find("office:spreadsheet")).ok_or("no spreadsheet")?;
    order(sp, &["table:content-validations", "table:table"])?;
    let tables: Vec<&Elem> = sp.all("table:table").collect();
    eq("tables", tables.len(), book.num_sheets())?;
    for (i, t) in tables.iter().enumerate() {
        let sh = book.sheet(i);
        eq("sheet name", t.attr("table:name"), Some(sh.name().as_str()))?;
        eq("sheet style", t.attr("table:style-name"), sh.style().map(|v| v.as_str()))?;
        eq("sheet print", t.attr("table:print"), if sh.print() { None } else { Some("false") })?;
        eq("sheet display", t.attr("table:display"), if sh.display() { None } else { Some("false") })?;
        let mut tab = Tab::default();
        tab.walk(t, false)?;
        tab.walk(t, true)?;
        // columns before rows
        let fr = t.elems().position(|e| e.name.contains("row")).unwrap_or(usize::MAX);
        let lc = t.elems().enumerate().filter(|(_, e)| e.name.contains("column")).last().map(|v| v.0).unwrap_or(0);
        if fr < lc {
            return Err("columns after rows".into());
        }
        let mut want = BTreeMap::new();
        for ((r, c), cell) in sh.iter() {
            let b = brief(&book, &cell);
            if b == VOID {
                continue;
            }
            for i in 0..sh.row_repeat(r).max(1) {
                for j in 0..cell.repeat.max(1) {
                    want.insert((r + i, c + j), b.clone());
                }
            }
        }
        for (k, w) in &want {
            match tab.cells.get(k) {
                None => return Err(format!("sheet {} cell {:?} is missing: {}", i, k, w)),
                Some((g, _)) => eq(&format!("sheet {} cell {:?}", i, k), g, w)?,
            }
        }
        for (k, (g, cov)) in &tab.cells {
            if !want.contains_key(k) && !cov {
                return Err(format!("sheet {} unexpected cell {:?}: {}", i, k, g));
            }
            if *cov {
                // covered by the span of a cell up and left of it
                // (a repeated row is written once, as its first row is)
                let start = |k: u32| (0..=k).rev().find(|r| r + sh.row_repeat(*r).max(1) > k && sh.row_repeat(*r) > 1).unwrap_or(k);
                let by = sh.iter().any(|((r, c), cell)| {
                    (r..r + sh.row_repeat(r).max(1)).any(|r| { let k = &(start(k.0), k.1); r <= k.0 && c <= k.1 && *k != (r, c) && k.0 < r + cell.span.row_span() && k.1 < c + cell.span.col_span() })
                });
                if !by {
                    return Err(format!("sheet {} cell {:?} is written as covered", i, k));
                }
            }
        }
        // what lies under a span is covered, in every row with content behind its first cell.
        if sh.iter().all(|((r, _), cell)| sh.row_repeat(r) <= 1 && (cell.repeat <= 1 || cell.span.row_span() <= 1 && cell.span.col_span() <= 1)) {
            let mut spans: Vec<(u32, u32, u32, u32)> = vec![];
            let mut rows: BTreeMap<u32, u32> = BTreeMap::new();
            let under = |spans: &[(u32, u32, u32, u32)], r: u32, c: u32| spans.iter().any(|v| v.0 <= r && r < v.2 && v.1 <= c && c < v.3 && (r, c) != (v.0, v.1));
            for ((r, c), cell) in sh.iter() {
                rows.entry(r).or_insert(c);
                if (cell.span.row_span() > 1 || cell.span.col_span() > 1) && !under(&spans, r, c) {
                    spans.push((r, c, r + cell.span.row_span(), c + cell.span.col_span()));
                }
            }
            for (r, first) in &rows {
                let width = tab.widths.get(r).copied().unwrap_or(0);
                for c in *first..width.min(*first + 100) {
                    let cov = tab.cells.get(&(*r, c)).is_some_and(|v| v.1);
                    eq(&format!("sheet {} cell {:?} is covered", i, (r, c)), cov, under(&spans, *r, c))?;
                }
            }
            ctx.label_if(!spans.is_empty(), "covered");
        }
        // rows and columns
        for k in 0..24 {
            eq(&format!("sheet {} column {} style", i, k), find(&tab.cols, k, "table:default-cell-style-name"), sh.col_cellstyle(k).map(|v| v.as_str()))?;
            eq(&format!("sheet {} column {} visibility", i, k), find(&tab.cols, k, "table:visibility"), vis_name(sh.col_visible(k)))?;
            let w = style_attr("table-column", find(&tab.cols, k, "table:style-name"), "style:table-column-properties", "style:column-width");
            eq(&format!("sheet {} column {} width", i, k), w, if sh.col_width(k) == Length::Default { None } else { Some(sh.col_width(k).to_string()) })?;
            let a = c_struct::col_attr(&book, sh, k);
            let m = style_attr("table-column", find(&tab.cols, k, "table:style-name"), "style:table-column-properties", "loext:marker");
            eq(&format!("sheet {} column {} marker", i, k), m, a.style)?;
            if sh.row_repeat(k) > 1 || (0..k).any(|j| sh.row_repeat(j) > 1) {
                continue;
            }
            eq(&format!("sheet {} row {} style", i, k), find(&tab.rows, k, "table:default-cell-style-name"), sh.row_cellstyle(k).map(|v| v.as_str()))?;
            eq(&format!("sheet {} row {} visibility", i, k), find(&tab.rows, k, "table:visibility"), vis_name(sh.row_visible(k)))?;
            let w = style_attr("table-row", find(&tab.rows, k, "table:style-name"), "style:table-row-properties", "style:row-height");
            eq(&format!("sheet {} row {} height", i, k), w, if sh.row_height(k) == Length::Default { None } else { Some(sh.row_height(k).to_string()) })?;
        }
        let sorted = |mut v: Vec<(u32, u32, bool)>| {
            v.sort();
            v
        };
        eq("column groups", sorted(tab.gcols), sorted(sh.col_group_iter().map(|g| (g.from(), g.to(), g.display())).collect()))?;
        eq("row groups", sorted(tab.grows), sorted(sh.row_group_iter().map(|g| (g.from(), g.to(), g.display())).collect()))?;
        let join = |v: Vec<(u32, u32)>| -> Vec<(u32, u32)> {
            let mut r: Vec<(u32, u32)> = vec![];
            for x in v {
                match r.last_mut() {
                    Some(l) if l.1 + 1 == x.0 => l.1 = x.1,
                    _ => r.push(x),
                }
            }
            r
        };
        eq("header columns", join(tab.hcols), sh.header_cols().map(|h| (h.from, h.to)).into_iter().collect())?;
        eq("header rows", join(tab.hrows), sh.header_rows().map(|h| (h.from, h.to)).into_iter().collect())?;
    }
    // metadata
    let meta = parts["meta"].find("office:meta").ok_or("no meta")?;
    let m = book.metadata();
    for (k, v) in [("dc:title", &m.title), ("dc:description", &m.description), ("dc:subject", &m.subject), ("meta:keyword", &m.keyword), ("dc:creator", &m.creator), ("meta:initial-creator", &m.initial_creator), ("meta:printed-by", &m.printed_by), ("dc:language", &m.language), ("meta:generator", &m.generator)] {
        eq(k, meta.find(k).map(|e| e.text()).unwrap_or_default(), v.clone())?;
    }
    for (k, v) in [("dc:date", m.date), ("meta:creation-date", m.creation_date), ("meta:print-date", m.print_date)] {
        let t = meta.find(k).map(|e| e.text());
        if v.is_some() || t.as_ref().is_some_and(|t| !t.is_empty()) {
            eq(k, t.as_deref().and_then(xsd_date), v)?;
        }
    }
    let st = meta.find("meta:document-statistic").ok_or("no statistics")?;
    eq("table count", st.attr("meta:table-count"), Some(book.num_sheets().to_string().as_str()))?;
    // default formats exist if referenced by default styles
    let _ = DefaultFormat::bool();
    Ok(())
}
