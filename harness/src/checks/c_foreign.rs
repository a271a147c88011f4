//! C24 part "styles": style sheets made without the library.
use super::c_doc::dump_valid;
use super::c_styles::*;
use crate::engine::*;
use crate::gen;
use crate::model::*;
use crate::xmlp::{self, Elem, Node, Spell};
use spreadsheet_ods::condition::ValueCondition;
use spreadsheet_ods::format::*;
use spreadsheet_ods::style::stylemap::StyleMap;
use spreadsheet_ods::style::AnyStyleRef;
use spreadsheet_ods::validation::*;
use spreadsheet_ods::xmltree::{XmlContent, XmlTag};
use spreadsheet_ods::*;
use std::collections::BTreeMap;

fn el(name: &str) -> Elem {
    Elem { name: name.to_string(), ..Default::default() }
}
fn with(name: &str, m: &Map) -> Elem {
    let mut e = el(name);
    e.attrs = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    e
}
fn push(e: &mut Elem, k: Elem) {
    e.kids.push(Node::Elem(k));
}
fn from_tag(t: &XmlTag) -> Elem {
    let mut e = el(t.name());
    e.attrs = t.attrmap().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    for c in t.content() {
        match c {
            XmlContent::Text(t) if t.is_empty() => {}
            XmlContent::Text(t) => e.kids.push(Node::Text(t.clone())),
            XmlContent::Tag(t) => push(&mut e, from_tag(t)),
        }
    }
    e
}
/// Some attributes, maybe one of a foreign namespace.
fn amap(s: &mut Src) -> Map {
    let mut m = map(s, 2);
    if s.pct(20) {
        m.insert("my:x".into(), gen::text(s));
    }
    m
}
/// Something the library doesn't know, below a property element.
fn extra(s: &mut Src, e: &mut Elem) {
    if s.pct(20) {
        let mut x = el(s.pickc(&["style:background-image", "style:columns", "style:drop-cap", "my:ext", "text:list-style", "style:footnote-sep"]));
        if s.coin() {
            x.attrs.push(("xlink:href".into(), "Pictures/1.png".into()));
            x.attrs.push(("fo:color".into(), "#123456".into()));
        }
        if s.pct(30) {
            push(&mut x, el("my:deep"));
        }
        push(e, x);
    }
}

fn style(s: &mut Src, usage: &'static str, origin: &'static str, want: &mut BTreeMap<String, Spec>) -> Option<Elem> {
    let (fam, groups) = s.pickc(&[
        ("cell", &["cell", "paragraph", "text"] as &[&'static str]),
        ("col", &["col"]),
        ("row", &["row"]),
        ("table", &["table"]),
        ("paragraph", &["paragraph", "text"]),
        ("text", &["text"]),
        ("ruby", &["ruby"]),
        ("graphic", &["graphic", "paragraph", "text"]),
    ]);
    let name = style_name(s);
    let key = if usage == "default" { format!("{}/*", fam) } else { format!("{}/{}", fam, name) };
    if want.contains_key(&key) {
        return None;
    }
    let mut sp = Spec { fam, name: name.clone(), usage, origin, ..Default::default() };
    let mut attr = amap(s);
    attr.retain(|k, _| k != "style:name" && k != "style:family");
    let mut e = with(if usage == "default" { "style:default-style" } else { "style:style" }, &attr);
    sp.maps.insert("attr", attr);
    if usage != "default" {
        e.attrs.push(("style:name".into(), name));
    }
    let family = match fam {
        "cell" => "table-cell",
        "col" => "table-column",
        "row" => "table-row",
        f => f,
    };
    e.attrs.push(("style:family".into(), family.into()));
    for g in groups {
        if s.pct(60) {
            let n = match *g {
                "cell" => "style:table-cell-properties",
                "col" => "style:table-column-properties",
                "row" => "style:table-row-properties",
                "table" => "style:table-properties",
                "paragraph" => "style:paragraph-properties",
                "text" => "style:text-properties",
                "ruby" => "style:ruby-properties",
                _ => "style:graphic-properties",
            };
            let m = amap(s);
            let mut p = with(n, &m);
            extra(s, &mut p);
            if fam == "paragraph" && *g == "paragraph" && s.pct(40) {
                let mut ts = el("style:tab-stops");
                for _ in 0..s.u(3) {
                    let m = map(s, 1);
                    push(&mut ts, with("style:tab-stop", &m));
                    sp.tabs.push(m);
                }
                push(&mut p, ts);
                extra(s, &mut p);
            }
            sp.maps.insert(g, m);
            push(&mut e, p);
        }
    }
    if fam == "cell" {
        for _ in 0..s.u(3) {
            let (c, n) = (condition(s), gen::name(s));
            let b = s.opt(50, cellref);
            let mut m = el("style:map");
            m.attrs.push(("style:condition".into(), c.to_string()));
            m.attrs.push(("style:apply-style-name".into(), n.clone()));
            if let Some(b) = &b {
                m.attrs.push(("style:base-cell-address".into(), b.to_string()));
            }
            push(&mut e, m);
            sp.stylemaps.push(stylemap_str(&StyleMap::new(c.clone(), AnyStyleRef::from(n.as_str()), b)));
        }
    }
    want.insert(key, sp);
    Some(e)
}

const PARTS: &[(FormatPartType, &str)] = &[
    (FormatPartType::Number, "number:number"),
    (FormatPartType::ScientificNumber, "number:scientific-number"),
    (FormatPartType::Fraction, "number:fraction"),
    (FormatPartType::CurrencySymbol, "number:currency-symbol"),
    (FormatPartType::Day, "number:day"),
    (FormatPartType::Month, "number:month"),
    (FormatPartType::Year, "number:year"),
    (FormatPartType::Era, "number:era"),
    (FormatPartType::DayOfWeek, "number:day-of-week"),
    (FormatPartType::WeekOfYear, "number:week-of-year"),
    (FormatPartType::Quarter, "number:quarter"),
    (FormatPartType::Hours, "number:hours"),
    (FormatPartType::Minutes, "number:minutes"),
    (FormatPartType::Seconds, "number:seconds"),
    (FormatPartType::AmPm, "number:am-pm"),
    (FormatPartType::Boolean, "number:boolean"),
    (FormatPartType::Text, "number:text"),
    (FormatPartType::Text, "number:text"),
    (FormatPartType::Text, "loext:text"),
    (FormatPartType::TextContent, "number:text-content"),
    (FormatPartType::FillCharacter, "number:fill-character"),
    (FormatPartType::FillCharacter, "loext:fill-character"),
];
fn format(s: &mut Src, usage: &'static str, origin: &'static str, want: &mut BTreeMap<String, FSpec>) -> Option<Elem> {
    let (kind, tag) = s.pickc(&[
        ("number", "number:number-style"),
        ("boolean", "number:boolean-style"),
        ("percentage", "number:percentage-style"),
        ("currency", "number:currency-style"),
        ("text", "number:text-style"),
        ("datetime", "number:date-style"),
        ("time", "number:time-style"),
    ]);
    let name = style_name(s);
    let key = format!("{}/{}", kind, name);
    if want.contains_key(&key) {
        return None;
    }
    let mut sp = FSpec { kind, name: name.clone(), usage, origin, ..Default::default() };
    sp.attr = amap(s);
    let mut e = with(tag, &sp.attr);
    e.attrs.push(("style:name".into(), name));
    if s.coin() {
        sp.text = amap(s);
        push(&mut e, with("style:text-properties", &sp.text));
    }
    for _ in 0..s.u(5) {
        let (ty, n) = s.pickc(PARTS);
        let mut p = MPart { ty, attr: Map::new(), pos: None, content: String::new() };
        for _ in 0..s.u(3) {
            p.attr.insert(s.pickc(PART_ATTR).to_string(), gen::ident(s));
        }
        let mut x = with(n, &p.attr);
        match ty {
            FormatPartType::Text | FormatPartType::CurrencySymbol | FormatPartType::FillCharacter => {
                p.content = gen::text(s);
                if !p.content.is_empty() {
                    x.kids.push(Node::Text(p.content.clone()));
                }
            }
            FormatPartType::Number if s.coin() => {
                let mut t = el("number:embedded-text");
                let pos = s.range(-3, 12) as i32;
                t.attrs.push(("number:position".into(), pos.to_string()));
                p.pos = Some(pos);
                p.content = gen::text(s);
                if !p.content.is_empty() {
                    t.kids.push(Node::Text(p.content.clone()));
                }
                push(&mut x, t);
            }
            _ => {}
        }
        push(&mut e, x);
        sp.parts.push(p);
    }
    for _ in 0..s.u(2) {
        let (c, n) = (ValueCondition::value_ge(s.range(-5, 5) as i32), gen::name(s));
        let mut m = el("style:map");
        m.attrs.push(("style:condition".into(), c.to_string()));
        m.attrs.push(("style:apply-style-name".into(), n.clone()));
        push(&mut e, m);
        let m = ValueStyleMap::new(c, n);
        sp.stylemaps.push(format!("{} {:?}", m.condition(), m.applied_style()));
    }
    want.insert(key, sp);
    Some(e)
}
fn astr(m: &Map) -> String {
    crate::attrs!(m)
}
fn page(s: &mut Src, want: &mut BTreeMap<String, String>) -> Option<Elem> {
    let name = style_name(s);
    let key = format!("page/{}", name);
    if want.contains_key(&key) {
        return None;
    }
    let mut e = el("style:page-layout");
    e.attrs.push(("style:name".into(), name));
    let mut u = "-";
    if s.coin() {
        u = s.pickc(&["all", "left", "mirrored", "right"]);
        e.attrs.push(("style:page-usage".into(), u.into()));
    }
    let mut ms = [Map::new(), Map::new(), Map::new()];
    if s.pct(80) {
        if s.coin() {
            ms[0] = amap(s);
            let mut p = with("style:page-layout-properties", &ms[0]);
            extra(s, &mut p);
            push(&mut e, p);
        }
        for (i, n) in [(1, "style:header-style"), (2, "style:footer-style")] {
            if s.coin() {
                let mut h = el(n);
                if s.pct(80) {
                    ms[i] = amap(s);
                    let mut p = with("style:header-footer-properties", &ms[i]);
                    extra(s, &mut p);
                    push(&mut h, p);
                }
                push(&mut e, h);
            }
        }
    }
    want.insert(key, format!("usage={} {{{}}} h{{{}}} f{{{}}}", u, astr(&ms[0]), astr(&ms[1]), astr(&ms[2])));
    Some(e)
}
fn master(s: &mut Src, want: &mut BTreeMap<String, String>) -> Option<Elem> {
    let name = style_name(s);
    let key = format!("master/{}", name);
    if want.contains_key(&key) {
        return None;
    }
    let mut e = el("style:master-page");
    e.attrs.push(("style:name".into(), name));
    let dn = if s.coin() { gen::text(s) } else { String::new() };
    if !dn.is_empty() || s.pct(10) {
        e.attrs.push(("style:display-name".into(), dn.clone()));
    }
    let ps = s.opt(50, gen::name);
    if let Some(p) = &ps {
        e.attrs.push(("style:page-layout-name".into(), p.clone()));
    }
    let nx = s.opt(40, gen::name);
    if let Some(p) = &nx {
        e.attrs.push(("style:next-style-name".into(), p.clone()));
    }
    if s.pct(30) {
        e.attrs.push(("my:y".into(), "1".into()));
        e.attrs.push(("draw:style-name".into(), "dp1".into()));
    }
    let mut hs = vec![];
    let bare = s.pct(15);
    for (i, n) in ["style:header", "style:header-first", "style:header-left", "style:footer", "style:footer-first", "style:footer-left"].iter().enumerate() {
        let main = i % 3 == 0;
        if bare || s.pct(30) {
            hs.push(if main { "true L C R T".to_string() } else { "-".into() });
            continue;
        }
        let mut h = el(n);
        let d = s.opt(50, |s| s.coin());
        if let Some(d) = d {
            h.attrs.push(("style:display".into(), d.to_string()));
        }
        let mut m: [String; 4] = Default::default();
        match s.u(3) {
            0 => {}
            1 => {
                for (k, r) in ["style:region-left", "style:region-center", "style:region-right"].iter().enumerate() {
                    if s.coin() {
                        let mut reg = el(r);
                        for _ in 0..s.u(3) {
                            let t = paragraph(s);
                            m[k].push_str(&gen::xml_str(&t));
                            push(&mut reg, from_tag(&t));
                        }
                        push(&mut h, reg);
                    }
                }
            }
            _ => {
                for _ in 0..s.u(3) {
                    let t = paragraph(s);
                    m[3].push_str(&gen::xml_str(&t));
                    push(&mut h, from_tag(&t));
                }
            }
        }
        let d = d.unwrap_or(true);
        let empty = m.iter().all(|v| v.is_empty());
        hs.push(if empty && !main { "-".into() } else { format!("{} L{} C{} R{} T{}", d, m[0], m[1], m[2], m[3]) });
        push(&mut e, h);
    }
    if s.pct(20) {
        push(&mut e, el("my:ext"));
    }
    want.insert(key, format!("{:?} {:?} {:?}\n h={}\n h1={}\n hl={}\n f={}\n f1={}\n fl={}", dn, ps, nx, hs[0], hs[1], hs[2], hs[3], hs[4], hs[5]));
    Some(e)
}
fn validation(s: &mut Src, want: &mut BTreeMap<String, String>) -> Option<Elem> {
    let name = gen::name(s);
    let key = format!("valid {:?}", name);
    if want.contains_key(&key) {
        return None;
    }
    let mut e = el("table:content-validation");
    e.attrs.push(("table:name".into(), name));
    let c = condition(s);
    let (ct, at) = (c.to_string(), if s.coin() { "of:" } else { "" });
    e.attrs.push(("table:condition".into(), format!("{}{}", at, ct)));
    let b = cellref(s);
    e.attrs.push(("table:base-cell-address".into(), b.to_string()));
    let ae = s.opt(60, |s| s.coin());
    if let Some(a) = ae {
        e.attrs.push(("table:allow-empty-cell".into(), a.to_string()));
    }
    let (d, dn) = s.pickc(&[(ValidationDisplay::NoDisplay, "none"), (ValidationDisplay::Unsorted, "unsorted"), (ValidationDisplay::SortAscending, "sort-ascending")]);
    e.attrs.push(("table:display-list".into(), dn.into()));
    let mut err = None;
    let mut help = None;
    let text = |s: &mut Src, x: &mut Elem| {
        let t = s.opt(60, paragraph);
        if let Some(t) = &t {
            push(x, from_tag(t));
        }
        t.map(|t| gen::xml_str(&t))
    };
    let title = |s: &mut Src, x: &mut Elem| {
        let t = s.opt(50, gen::text);
        if let Some(t) = &t {
            x.attrs.push(("table:title".into(), t.clone()));
        }
        t
    };
    if s.coin() {
        let mut x = el("table:help-message");
        let dis = s.coin();
        x.attrs.push(("table:display".into(), dis.to_string()));
        let t = title(s, &mut x);
        help = Some((dis, t, text(s, &mut x)));
        push(&mut e, x);
    }
    if s.coin() {
        let mut x = el("table:error-message");
        let dis = s.coin();
        x.attrs.push(("table:display".into(), dis.to_string()));
        let (mt, n) = s.pickc(&[(MessageType::Error, "stop"), (MessageType::Warning, "warning"), (MessageType::Info, "information")]);
        x.attrs.push(("table:message-type".into(), n.into()));
        let t = title(s, &mut x);
        err = Some((dis, mt, t, text(s, &mut x)));
        push(&mut e, x);
    }
    // ODF: an empty cell is allowed unless excluded.
    let ae = ae.unwrap_or(true);
    want.insert(key, format!("{} base={:?} {} {:?} err={:?} help={:?}", ct, b, ae, d, err, help));
    Some(e)
}

const NS: &[(&str, &str)] = &[
    ("office", "urn:oasis:names:tc:opendocument:xmlns:office:1.0"),
    ("style", "urn:oasis:names:tc:opendocument:xmlns:style:1.0"),
    ("table", "urn:oasis:names:tc:opendocument:xmlns:table:1.0"),
    ("text", "urn:oasis:names:tc:opendocument:xmlns:text:1.0"),
    ("draw", "urn:oasis:names:tc:opendocument:xmlns:drawing:1.0"),
    ("number", "urn:oasis:names:tc:opendocument:xmlns:datastyle:1.0"),
    ("fo", "urn:oasis:names:tc:opendocument:xmlns:xsl-fo-compatible:1.0"),
    ("svg", "urn:oasis:names:tc:opendocument:xmlns:svg-compatible:1.0"),
    ("xlink", "http://www.w3.org/1999/xlink"),
    ("loext", "urn:org:documentfoundation:names:experimental:office:xmlns:loext:1.0"),
    ("my", "urn:my"),
];

type All = (BTreeMap<String, Spec>, BTreeMap<String, FSpec>, BTreeMap<String, String>, BTreeMap<String, String>);
fn all(b: &WorkBook) -> All {
    (dump_styles(b, true), dump_formats(b, true), dump_pages(b), dump_valid(b))
}
fn diff(what: &str, got: &All, want: &All) -> R {
    diff_maps(&format!("{} styles", what), &got.0, &want.0)?;
    diff_maps(&format!("{} formats", what), &got.1, &want.1)?;
    diff_maps(&format!("{} pages", what), &got.2, &want.2)?;
    diff_maps(&format!("{} validations", what), &got.3, &want.3)
}

pub fn styles(s: &mut Src, ctx: &mut Ctx) -> R {
    let fods = s.coin();
    let mut want: All = Default::default();
    let mut secs: Vec<(&str, &str, Elem)> = vec![];
    // (part, section)
    for (part, origin) in [("styles.xml", "styles"), ("content.xml", "content")] {
        let mut f = el("office:font-face-decls");
        for _ in 0..s.u(3) {
            let name = style_name(s);
            let key = format!("font/{}", name);
            if want.0.contains_key(&key) || fods && origin == "content" {
                continue;
            }
            let m = amap(s);
            let mut e = with("style:font-face", &m);
            e.attrs.push(("style:name".into(), name.clone()));
            extra(s, &mut e);
            push(&mut f, e);
            let mut sp = Spec { fam: "font", name, usage: "automatic", origin, ..Default::default() };
            sp.maps.insert("attr", m);
            want.0.insert(key, sp);
        }
        secs.push((part, "1", f));
        if origin == "styles" {
            let mut e = el("office:styles");
            for _ in 0..s.u(5) {
                let x = match s.u(4) {
                    0 => style(s, "default", origin, &mut want.0),
                    1 => format(s, "named", origin, &mut want.1),
                    _ => style(s, "named", origin, &mut want.0),
                };
                if let Some(x) = x {
                    push(&mut e, x);
                }
                if s.pct(10) {
                    push(&mut e, el(s.pickc(&["draw:marker", "my:ext", "draw:fill-image", "text:notes-configuration"])));
                }
            }
            secs.push((part, "2", e));
        }
        let mut e = el("office:automatic-styles");
        for _ in 0..s.u(5) {
            let x = match s.u(4) {
                0 => format(s, "automatic", origin, &mut want.1),
                1 if origin == "styles" => page(s, &mut want.2),
                _ => style(s, "automatic", origin, &mut want.0),
            };
            if let Some(x) = x {
                push(&mut e, x);
            }
        }
        secs.push((part, "3", e));
        if origin == "styles" {
            let mut e = el("office:master-styles");
            for _ in 0..s.u(4) {
                if let Some(x) = master(s, &mut want.2) {
                    push(&mut e, x);
                }
            }
            secs.push((part, "4", e));
        }
    }
    let mut body = el("office:body");
    let mut sheet = el("office:spreadsheet");
    if s.pct(60) {
        let mut v = el("table:content-validations");
        for _ in 0..1 + s.u(3) {
            if let Some(x) = validation(s, &mut want.3) {
                push(&mut v, x);
            }
        }
        push(&mut sheet, v);
    }
    let mut t = el("table:table");
    t.attrs.push(("table:name".into(), "s".into()));
    push(&mut sheet, t);
    push(&mut body, sheet);
    secs.push(("content.xml", "5", body));
    // the places styles live in are checked for the parts only
    let strict: BTreeMap<String, Spec> = want.0.iter().map(|(k, v)| (k.clone(), canon_spec(v.clone(), fods))).collect();
    let strict_f: BTreeMap<String, FSpec> = want.1.iter().map(|(k, v)| (k.clone(), canon_f(v.clone(), fods))).collect();
    want.0 = want.0.into_iter().map(|(k, v)| (k, canon_spec(v, true))).collect();
    want.1 = want.1.into_iter().map(|(k, v)| (k, canon_f(v, true))).collect();
    ctx.nontrivial = want.0.len() + want.1.len() + want.2.len() + want.3.len() >= 2;
    ctx.label_if(!want.1.is_empty(), "format");
    ctx.label_if(!want.2.is_empty(), "page");
    ctx.label_if(!want.3.is_empty(), "validation");

    let sp = if s.pct(70) { Spell::gen(s) } else { Spell::default() };
    let f = if fods { Fmt::Fods } else { Fmt::Ods };
    let mk = |s: &mut Src, part: &str, full: bool| -> String {
        let mut root = el(if fods { "office:document" } else if part == "styles.xml" { "office:document-styles" } else { "office:document-content" });
        for (p, u) in NS {
            root.attrs.push((format!("xmlns:{}", p), u.to_string()));
        }
        root.attrs.push(("office:version".into(), "1.3".into()));
        if fods {
            root.attrs.push(("office:mimetype".into(), "application/vnd.oasis.opendocument.spreadsheet".into()));
        }
        let mut l: Vec<&(&str, &str, Elem)> = secs.iter().filter(|v| fods || v.0 == part).collect();
        l.sort_by_key(|v| v.1);
        let mut last = "";
        for (_, k, e) in l {
            // automatic styles of both parts in one section
            if last == *k {
                if let Some(Node::Elem(x)) = root.kids.last_mut() {
                    x.kids.extend(e.kids.clone());
                }
                continue;
            }
            last = k;
            if full || *k == "5" {
                let mut e = e.clone();
                if !full {
                    e.kids = vec![];
                    let mut b = el("office:spreadsheet");
                    let mut t = el("table:table");
                    t.attrs.push(("table:name".into(), "s".into()));
                    push(&mut b, t);
                    push(&mut e, b);
                }
                push(&mut root, e);
            }
        }
        xmlp::doc(s, &root, &sp)
    };
    let pack = |s: &mut Src, full: bool| -> Result<(Vec<u8>, String), String> {
        if fods {
            let t = mk(s, "", full);
            Ok((t.clone().into_bytes(), t))
        } else {
            let (c, st) = (mk(s, "content.xml", full), mk(s, "styles.xml", full));
            let show = format!("{}\n{}", c, st);
            let b = xmlp::zip_up(&[("content.xml".to_string(), c.into_bytes()), ("styles.xml".to_string(), st.into_bytes())], |_| true)?;
            Ok((b, show))
        }
    };
    let (buf, show) = pack(s, true)?;
    ctx.repr = format!("{:?} {}", sp, show);
    let base = all(&read(&pack(s, false)?.0, f)?);
    let mut book = read(&buf, f)?;
    let mut w: All = base;
    w.0.extend(want.0);
    w.1.extend(want.1);
    w.2.extend(want.2);
    w.3.extend(want.3);
    diff("read", &all(&book), &w)?;
    // where they came from
    let got = dump_styles(&book, fods);
    for (k, v) in &strict {
        eq("origin of the style", &got[k].origin, &v.origin)?;
    }
    let got = dump_formats(&book, fods);
    for (k, v) in &strict_f {
        eq("origin of the format", &got[k].origin, &v.origin)?;
    }
    // written again, in any format: every prefix is still declared.
    let g = fmt(s);
    let out = write(&mut book, g)?;
    let parts: Vec<Vec<u8>> = if g == Fmt::Fods { vec![out.clone()] } else { xmlp::unzip(&out)?.into_iter().filter(|v| v.0.ends_with(".xml")).map(|v| v.1).collect() };
    for p in parts {
        xmlp::parse(&p, true).map_err(|e| format!("written as {:?}: {}", g, e))?;
    }
    diff(&format!("written as {:?} and read", g), &all(&read(&out, g)?), &w)
}
