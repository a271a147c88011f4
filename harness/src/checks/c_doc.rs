//! C10 metadata, C11 settings, C12 validations, scripts and listeners.
use super::c_styles::{cellref, condition, diff_maps};
use crate::engine::*;
use crate::gen;
use crate::model::*;
use crate::xmlp;
use chrono::Duration;
use spreadsheet_ods::condition::{Condition, ValueCondition};
use spreadsheet_ods::metadata::*;
use spreadsheet_ods::refs::CellRange;
use spreadsheet_ods::sheet::SplitMode;
use spreadsheet_ods::validation::*;
use spreadsheet_ods::workbook::{EventListener, Script};
use spreadsheet_ods::xlink::*;
use spreadsheet_ods::xmltree::XmlContent;
use spreadsheet_ods::*;
use std::collections::BTreeMap;

// ---------------------------------------------------------------- C10

pub fn c10() -> Check {
    Check {
        id: "C10",
        rule: "workbooks with a random subset of all metadata fields set to random text, dates, durations, links and user-defined values of all 5 types, written as ods or fods and read back; compared field by field with the values that were set (the generator and the cell and table counts with what the library promises); non-trivial: at least 3 fields set",
        parts: vec![Part { name: "roundtrip", quick: 60_000, thorough: 400_000, run: meta }],
        probes: vec![],
    }
}

fn actuate(s: &mut Src) -> XLinkActuate {
    s.pickc(&[XLinkActuate::OnLoad, XLinkActuate::OnRequest])
}
fn show(s: &mut Src) -> XLinkShow {
    s.pickc(&[XLinkShow::New, XLinkShow::Replace])
}
fn link(s: &mut Src) -> XLinkType {
    s.pickc(&[XLinkType::Simple, XLinkType::Extended, XLinkType::Locator, XLinkType::Arc, XLinkType::Resource, XLinkType::Title, XLinkType::None])
}
fn posdur(s: &mut Src) -> Duration {
    gen::duration(s)
}

pub fn gen_meta(s: &mut Src) -> (Metadata, usize) {
    let mut m = Metadata::default();
    let mut n = 0;
    macro_rules! t {
        ($f:ident) => {
            if s.pct(40) {
                m.$f = gen::text(s);
                n += 1;
            }
        };
    }
    m.generator = gen::text(s);
    t!(title);
    t!(description);
    t!(subject);
    t!(keyword);
    t!(initial_creator);
    t!(creator);
    t!(printed_by);
    t!(language);
    macro_rules! d {
        ($f:ident) => {
            if s.pct(40) {
                m.$f = Some(gen::datetime(s));
                n += 1;
            }
        };
    }
    d!(creation_date);
    d!(date);
    d!(print_date);
    if s.pct(40) {
        m.editing_cycles = if s.coin() { s.r32(0, 20) } else { s.draw(1 << 32) as u32 };
        n += 1;
    }
    if s.pct(40) {
        m.editing_duration = posdur(s);
        n += 1;
    }
    if s.pct(40) {
        m.template = MetaTemplate {
            date: s.opt(50, gen::datetime),
            actuate: s.opt(50, actuate),
            href: s.opt(50, gen::text),
            title: s.opt(50, gen::text),
            link_type: s.opt(50, link),
        };
        n += 1;
    }
    if s.pct(40) {
        m.auto_reload = MetaAutoReload {
            delay: s.opt(50, posdur),
            actuate: s.opt(50, actuate),
            href: s.opt(50, gen::text),
            show: s.opt(50, show),
            link_type: s.opt(50, link),
        };
        n += 1;
    }
    if s.pct(40) {
        m.hyperlink_behaviour = MetaHyperlinkBehaviour { target_frame_name: s.opt(60, gen::text), show: s.opt(50, show) };
        n += 1;
    }
    m.document_statistics = MetaDocumentStatistics {
        cell_count: s.r32(0, 9),
        object_count: s.draw(1 << 32) as u32,
        ole_object_count: s.r32(0, 9),
        table_count: s.r32(0, 9),
    };
    for _ in 0..s.u(4) {
        m.user_defined.push(MetaUserDefined {
            name: gen::text(s),
            value: match s.u(5) {
                0 => MetaValue::String(gen::text(s)),
                1 => MetaValue::Boolean(s.coin()),
                2 => MetaValue::Datetime(gen::datetime(s)),
                3 => MetaValue::Float(gen::f64_any(s)),
                _ => MetaValue::TimeDuration(posdur(s)),
            },
        });
        n += 1;
    }
    (m, n)
}

pub fn meta_map(m: &Metadata) -> BTreeMap<String, String> {
    let mut r = BTreeMap::new();
    let mut i = |k: &str, v: String| {
        r.insert(k.to_string(), v);
    };
    i("title", m.title.clone());
    i("description", m.description.clone());
    i("subject", m.subject.clone());
    i("keyword", m.keyword.clone());
    i("initial_creator", m.initial_creator.clone());
    i("creator", m.creator.clone());
    i("printed_by", m.printed_by.clone());
    i("creation_date", format!("{:?}", m.creation_date));
    i("date", format!("{:?}", m.date));
    i("print_date", format!("{:?}", m.print_date));
    i("language", m.language.clone());
    i("editing_cycles", m.editing_cycles.to_string());
    i("editing_duration", format!("{:?}", m.editing_duration));
    i("template", format!("{:?}", m.template));
    i("auto_reload", format!("{:?}", m.auto_reload));
    i("hyperlink", format!("{:?}", m.hyperlink_behaviour));
    i("objects", format!("{} {}", m.document_statistics.object_count, m.document_statistics.ole_object_count));
    for (j, u) in m.user_defined.iter().enumerate() {
        i(&format!("user{}", j), format!("{:?}", u));
    }
    r
}

fn meta(s: &mut Src, ctx: &mut Ctx) -> R {
    let f = fmt(s);
    let mut book = book_new(s);
    let (m, n) = gen_meta(s);
    *book.metadata_mut() = m.clone();
    let sheets = 1 + s.u(3);
    let mut cells = 0;
    for i in 0..sheets {
        let mut sh = Sheet::new(format!("s{}", i));
        for j in 0..s.u(5) {
            sh.set_value(j as u32, s.r32(0, 3), s.range(0, 9) as i32);
            cells += 1;
        }
        book.push_sheet(sh);
    }
    ctx.nontrivial = n >= 3;
    ctx.repr = format!("{:?} {:?}", f, m);
    let want = meta_map(&m);
    let back = roundtrip(&mut book, f)?;
    diff_maps("metadata", &meta_map(back.metadata()), &want)?;
    diff_maps("metadata of the written workbook", &meta_map(book.metadata()), &want)?;
    for b in [&book, &back] {
        let st = &b.metadata().document_statistics;
        eq("table count", st.table_count, sheets as u32)?;
        eq("cell count", st.cell_count, cells)?;
        if !b.metadata().generator.starts_with("spreadsheet-ods") {
            return Err(format!("generator is {:?}", b.metadata().generator));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C11

pub fn c11() -> Check {
    Check {
        id: "C11",
        rule: "workbooks with 1-4 arbitrarily named sheets, random workbook settings and random values for every view setting of every sheet, written and read back; and files with a random tree of foreign settings (sets, maps, lists, all 8 value types, empty values) read and written again; non-trivial: a setting that differs from its default",
        parts: vec![
            Part { name: "views", quick: 32_000, thorough: 200_000, run: views },
            Part { name: "foreign", quick: 24_000, thorough: 150_000, run: foreign },
        ],
        probes: vec![],
    }
}

pub fn gen_sheet_config(s: &mut Src, sh: &mut Sheet) {
    let c = sh.config_mut();
    let u = |s: &mut Src, d: u32| match s.u(4) {
        0 | 1 => d,
        2 => s.r32(0, 100),
        _ => s.draw(1 << 31) as u32,
    };
    c.cursor_x = u(s, 0);
    c.cursor_y = u(s, 0);
    c.hor_split_pos = u(s, 0);
    c.vert_split_pos = u(s, 0);
    c.position_left = u(s, 0);
    c.position_right = u(s, 0);
    c.position_top = u(s, 0);
    c.position_bottom = u(s, 0);
    c.hor_split_mode = s.pickc(&[SplitMode::None, SplitMode::Split, SplitMode::Heading]);
    c.vert_split_mode = s.pickc(&[SplitMode::None, SplitMode::Split, SplitMode::Heading]);
    c.active_split_range = s.range(-2, 5) as i16;
    c.zoom_type = s.range(0, 3) as i16;
    c.zoom_value = s.range(0, 400) as i32;
    c.page_view_zoom_value = s.range(-1, 400) as i32;
    c.show_grid = s.coin();
    if s.pct(20) {
        // what the calls stand for, and nothing else
        let mut w = sh.config().clone();
        let n = s.r32(0, 50);
        match s.u(4) {
            0 => {
                sh.split_col_header(n);
                (w.hor_split_mode, w.hor_split_pos, w.position_right, w.cursor_x) = (SplitMode::Heading, n + 1, n + 1, n + 1);
            }
            1 => {
                sh.split_row_header(n);
                (w.vert_split_mode, w.vert_split_pos, w.position_bottom, w.cursor_y) = (SplitMode::Heading, n + 1, n + 1, n + 1);
            }
            2 => {
                sh.split_horizontal(n);
                (w.hor_split_mode, w.hor_split_pos) = (SplitMode::Split, n);
            }
            _ => {
                sh.split_vertical(n);
                (w.vert_split_mode, w.vert_split_pos) = (SplitMode::Split, n);
            }
        }
        assert_eq!(format!("{:?}", sh.config()), format!("{:?}", w), "configuration after splitting at {}", n);
    }
}
pub fn config_map(b: &WorkBook) -> BTreeMap<String, String> {
    let mut r = BTreeMap::new();
    let c = b.config();
    r.insert("book".to_string(), format!("{:?} {} {} {}", c.active_table, c.show_grid, c.show_page_breaks, c.has_sheet_tabs));
    for (i, sh) in b.iter_sheets().enumerate() {
        r.insert(format!("sheet {} {:?}", i, sh.name()), format!("{:?}", sh.config()));
    }
    r
}
fn views(s: &mut Src, ctx: &mut Ctx) -> R {
    let f = fmt(s);
    let mut book = book_new(s);
    let n = 1 + s.many(4, 40);
    let mut names: Vec<String> = vec![];
    for _ in 0..n {
        let mut nm = gen::name(s);
        while names.contains(&nm) {
            nm.push('x');
        }
        let mut sh = Sheet::new(&nm);
        gen_sheet_config(s, &mut sh);
        ctx.nontrivial |= sh.config().zoom_value != 100;
        names.push(nm);
        book.push_sheet(sh);
    }
    let c = book.config_mut();
    c.show_grid = s.coin();
    c.show_page_breaks = s.coin();
    c.has_sheet_tabs = s.coin();
    if s.coin() {
        c.active_table = if s.pct(80) { s.pickc(&names) } else { gen::name(s) };
    }
    ctx.repr = format!("{:?} {:?}", f, config_map(&book));
    let mut want = config_map(&book);
    if book.config().active_table.is_empty() {
        // documented default
        let mut b2 = book.clone();
        b2.config_mut().active_table = names[0].clone();
        want = config_map(&b2);
    }
    let back = roundtrip(&mut book, f)?;
    diff_maps("settings", &config_map(&back), &want)?;
    diff_maps("settings of the written workbook", &config_map(&book), &want)
}

#[derive(Debug, Clone, PartialEq)]
enum Item {
    Val(&'static str, String),
    Map(BTreeMap<String, BTreeMap<String, Item>>),
    Vec(Vec<BTreeMap<String, Item>>),
    Set(BTreeMap<String, Item>),
}
fn gen_items(s: &mut Src, depth: usize) -> BTreeMap<String, Item> {
    let mut r = BTreeMap::new();
    for _ in 0..s.u(4) {
        let k = format!("x{}", gen::name(s));
        let v = match s.u(if depth > 0 { 13 } else { 10 }) {
            0 | 1 => Item::Val("string", gen::text(s)),
            2 => Item::Val("boolean", s.coin().to_string()),
            3 => Item::Val("int", s.range(-(1 << 31), (1 << 31) - 1).to_string()),
            4 => Item::Val("short", s.range(-32768, 32767).to_string()),
            5 => Item::Val("long", (s.draw(0) as i64).to_string()),
            6 => Item::Val("double", gen::f64_small(s).to_string()),
            7 => Item::Val("datetime", format!("20{:02}-0{}-1{}T0{}:00:00", s.u(99), 1 + s.u(9), s.u(9), s.u(9))),
            8 => Item::Val("base64Binary", s.pickc(&["", "AAAA", "Zm9vYg==", "qgH+/Q=="]).to_string()),
            9 => Item::Val("string", String::new()),
            10 => Item::Map((0..s.u(3)).map(|_| (gen::name(s), gen_items(s, depth - 1))).collect()),
            11 => Item::Vec((0..s.u(3)).map(|_| gen_items(s, depth - 1)).collect()),
            _ => Item::Set(gen_items(s, depth - 1)),
        };
        r.insert(k, v);
    }
    r
}
fn items_xml(m: &BTreeMap<String, Item>) -> Vec<xmlp::Node> {
    let el = |n: &str, a: Vec<(&str, &str)>, kids: Vec<xmlp::Node>| {
        xmlp::Node::Elem(xmlp::Elem { name: n.into(), attrs: a.into_iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(), kids })
    };
    m.iter()
        .map(|(k, v)| match v {
            Item::Val(t, v) => el(
                "config:config-item",
                vec![("config:name", k), ("config:type", t)],
                if v.is_empty() { vec![] } else { vec![xmlp::Node::Text(v.clone())] },
            ),
            Item::Map(mm) => el(
                "config:config-item-map-named",
                vec![("config:name", k)],
                mm.iter().map(|(n, e)| el("config:config-item-map-entry", vec![("config:name", n)], items_xml(e))).collect(),
            ),
            Item::Vec(vv) => el(
                "config:config-item-map-indexed",
                vec![("config:name", k)],
                vv.iter().map(|e| el("config:config-item-map-entry", vec![], items_xml(e))).collect(),
            ),
            Item::Set(e) => el("config:config-item-set", vec![("config:name", k)], items_xml(e)),
        })
        .collect()
}
fn items_of(e: &xmlp::Elem) -> Result<BTreeMap<String, Item>, String> {
    let mut r = BTreeMap::new();
    for k in e.elems() {
        let n = k.attr("config:name").unwrap_or_default().to_string();
        let v = match k.name.as_str() {
            "config:config-item" => {
                let t = match k.attr("config:type") {
                    Some("string") => "string",
                    Some("boolean") => "boolean",
                    Some("int") => "int",
                    Some("short") => "short",
                    Some("long") => "long",
                    Some("double") => "double",
                    Some("datetime") => "datetime",
                    Some("base64Binary") => "base64Binary",
                    t => return Err(format!("config:type {:?}", t)),
                };
                Item::Val(t, k.text())
            }
            "config:config-item-map-named" => {
                let mut m = BTreeMap::new();
                for e in k.elems() {
                    m.insert(e.attr("config:name").unwrap_or_default().to_string(), items_of(e)?);
                }
                Item::Map(m)
            }
            "config:config-item-map-indexed" => Item::Vec(k.elems().map(items_of).collect::<Result<_, _>>()?),
            "config:config-item-set" => Item::Set(items_of(k)?),
            x => return Err(format!("unexpected element {}", x)),
        };
        if r.insert(n.clone(), v).is_some() {
            return Err(format!("setting {:?} is there twice", n));
        }
    }
    Ok(r)
}
/// Everything of `want` is in `got`.
fn included(path: &str, want: &BTreeMap<String, Item>, got: &BTreeMap<String, Item>) -> R {
    for (k, w) in want {
        let p = format!("{}/{}", path, k);
        match (w, got.get(k)) {
            (_, None) => return Err(format!("setting {} is lost: {:?}", p, w)),
            (Item::Set(a), Some(Item::Set(b))) => included(&p, a, b)?,
            (Item::Map(a), Some(Item::Map(b))) => {
                for (n, e) in a {
                    match b.get(n) {
                        Some(g) => included(&format!("{}[{}]", p, n), e, g)?,
                        None => return Err(format!("setting {}[{}] is lost", p, n)),
                    }
                }
            }
            (Item::Vec(a), Some(Item::Vec(b))) if a.len() <= b.len() => {
                for (i, (a, b)) in a.iter().zip(b).enumerate() {
                    included(&format!("{}[{}]", p, i), a, b)?;
                }
            }
            (Item::Val("double", a), Some(Item::Val("double", b))) if a.parse::<f64>() == b.parse::<f64>() => {}
            (Item::Val("datetime", a), Some(Item::Val("datetime", b))) if b.starts_with(a.as_str()) => {}
            (a, Some(b)) if a == b => {}
            (a, Some(b)) => return Err(format!("setting {}\n   got {:?}\n  want {:?}", p, b, a)),
        }
    }
    Ok(())
}
const NS: &[(&str, &str)] = &[
    ("office", "urn:oasis:names:tc:opendocument:xmlns:office:1.0"),
    ("config", "urn:oasis:names:tc:opendocument:xmlns:config:1.0"),
    ("ooo", "http://openoffice.org/2004/office"),
];
fn foreign(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut sets: BTreeMap<String, Item> = BTreeMap::new();
    sets.insert("ooo:view-settings".into(), Item::Set(gen_items(s, 2)));
    sets.insert("ooo:configuration-settings".into(), Item::Set(gen_items(s, 1)));
    if s.coin() {
        sets.insert(format!("ooo:{}", gen::ident(s)), Item::Set(gen_items(s, 2)));
    }
    ctx.nontrivial = sets.values().any(|v| matches!(v, Item::Set(m) if !m.is_empty()));
    ctx.repr = format!("{:?}", sets);
    let doc = xmlp::Elem {
        name: "office:document-settings".into(),
        attrs: NS.iter().map(|(k, v)| (format!("xmlns:{}", k), v.to_string())).chain([("office:version".to_string(), "1.3".to_string())]).collect(),
        kids: vec![xmlp::Node::Elem(xmlp::Elem { name: "office:settings".into(), attrs: vec![], kids: items_xml(&sets) })],
    };
    let mut base = WorkBook::new_empty();
    base.push_sheet(Sheet::new("s"));
    let buf = write(&mut base, Fmt::OdsPlain)?;
    let mut files: Vec<(String, Vec<u8>)> = xmlp::unzip(&buf)?.into_iter().map(|(n, b, _)| (n, b)).collect();
    let sp = xmlp::Spell { selfclose: s.coin(), ..Default::default() };
    let text = xmlp::doc(s, &doc, &sp);
    for f in &mut files {
        if f.0 == "settings.xml" {
            f.1 = text.clone().into_bytes();
        }
    }
    let buf = xmlp::zip_up(&files, |_| true)?;
    let mut book = read(&buf, Fmt::Ods)?;
    let out = write(&mut book, Fmt::OdsPlain)?;
    let got = xmlp::unzip_map(&out)?;
    let root = xmlp::parse(&got["settings.xml"], true)?;
    let st = root.find("office:settings").ok_or("no office:settings")?;
    let got = items_of(st)?;
    included("", &sets, &got)
}

// ---------------------------------------------------------------- C12

pub fn c12() -> Check {
    Check {
        id: "C12",
        rule: "workbooks with 1-5 validations (every condition constructor with random operands, base cell, list display, error and help messages with marked-up text), scripts with nested XML, event listeners with every link attribute, written and read back and compared with the generated specification; and every condition constructor against the ODF condition syntax; non-trivial: a validation with a message text, or a script with content",
        parts: vec![
            Part { name: "roundtrip", quick: 36_000, thorough: 300_000, run: valid },
            Part { name: "conditions", quick: 80_000, thorough: 300_000, run: conditions },
        ],
        probes: vec![],
    }
}

pub fn dump_valid(b: &WorkBook) -> BTreeMap<String, String> {
    let mut r = BTreeMap::new();
    let x = |t: Option<&text::TextTag>| t.map(gen::xml_str);
    for v in b.iter_validations() {
        r.insert(
            format!("valid {:?}", v.name()),
            format!(
                "{} base={:?} {} {:?} err={:?} help={:?}",
                v.condition(),
                v.base_cell(),
                v.allow_empty(),
                v.display(),
                v.err().map(|e| (e.display(), e.msg_type(), e.title(), x(e.text()))),
                v.help().map(|e| (e.display(), e.title(), x(e.text()))),
            ),
        );
    }
    for (i, sc) in b.iter_scripts().enumerate() {
        r.insert(format!("script {}", i), format!("{:?} {}", sc.script_lang(), gen::xml_list_str(sc.script())));
    }
    for e in b.iter_event_listeners() {
        r.insert(
            format!("event {:?}", e.event_name()),
            format!("{:?} {:?} {:?} {:?} {:?}", e.script_lang(), e.macro_name(), e.actuate(), e.href(), e.link_type()),
        );
    }
    r
}

fn msg_text(s: &mut Src) -> Option<text::TextTag> {
    match s.u(3) {
        0 => None,
        1 => Some(paragraph(s)),
        _ => Some(gen::xmltag(s, &["text:p"], 2)),
    }
}
pub fn gen_valid(s: &mut Src, ctx: &mut Ctx, book: &mut WorkBook) -> BTreeMap<String, String> {
    let mut want = BTreeMap::new();
    for _ in 0..s.many(6, 60) {
        let mut v = Validation::new();
        let nm = gen::name(s);
        v.set_name(&nm);
        let c = condition(s);
        v.set_condition(c.clone());
        let b = cellref(s);
        v.set_base_cell(b.clone());
        let ae = s.coin();
        v.set_allow_empty(ae);
        let d = s.pickc(&[ValidationDisplay::NoDisplay, ValidationDisplay::Unsorted, ValidationDisplay::SortAscending]);
        v.set_display(d);
        let mut we = Some((true, &MessageType::Error, None, None));
        let (dis, mt) = (s.coin(), s.u(3));
        let (ti, tx) = (s.opt(50, gen::text), msg_text(s));
        match s.u(4) {
            0 => {}
            1 => {
                v.set_err(None);
                we = None;
            }
            _ => {
                let mut e = ValidationError::new();
                e.set_display(dis);
                let m: &'static MessageType = [&MessageType::Error, &MessageType::Warning, &MessageType::Info][mt];
                e.set_msg_type(*m);
                e.set_title(ti.clone());
                ctx.nontrivial |= tx.is_some();
                let xs = tx.as_ref().map(gen::xml_str);
                e.set_text(tx.clone());
                v.set_err(Some(e));
                we = Some((dis, m, ti.as_deref(), xs));
            }
        }
        let (dis2, ti2, tx2) = (s.coin(), s.opt(50, gen::text), msg_text(s));
        let mut wh = None;
        if s.coin() {
            let mut e = ValidationHelp::new();
            e.set_display(dis2);
            e.set_title(ti2.clone());
            wh = Some((dis2, ti2.as_deref(), tx2.as_ref().map(gen::xml_str)));
            e.set_text(tx2.clone());
            v.set_help(Some(e));
        }
        want.insert(format!("valid {:?}", nm), format!("{} base={:?} {} {:?} err={:?} help={:?}", c, b, ae, d, we, wh));
        let r = book.add_validation(v);
        assert_eq!(r.as_str(), nm);
    }
    for i in 0..s.u(3) {
        let mut sc = Script::new();
        let l = gen::text(s);
        sc.set_script_lang(l.clone());
        let mut c = vec![];
        for _ in 0..s.u(3) {
            if s.coin() {
                let t = gen::text1(s);
                c.push(XmlContent::Text(t));
            } else {
                c.push(XmlContent::Tag(gen::xmltag(s, &["ooo:libraries", "ooo:library-linked", "loext:x"], 2)));
            }
            ctx.nontrivial = true;
        }
        want.insert(format!("script {}", i), format!("{:?} {}", l, gen::xml_list_str(&c)));
        sc.set_script(c);
        book.add_script(sc);
    }
    for _ in 0..s.u(3) {
        let mut e = EventListener::new();
        let nm = gen::name(s);
        e.set_event_name(nm.clone());
        let (l, m, a, h, t) = (gen::text(s), gen::text(s), actuate(s), gen::text(s), link(s));
        e.set_script_lang(l.clone());
        e.set_macro_name(m.clone());
        e.set_actuate(a);
        e.set_href(h.clone());
        e.set_link_type(t);
        want.insert(format!("event {:?}", nm), format!("{:?} {:?} {:?} {:?} {:?}", l, m, a, h, t));
        book.add_event_listener(e);
    }
    want
}
fn valid(s: &mut Src, ctx: &mut Ctx) -> R {
    let f = fmt(s);
    let mut book = book_new(s);
    let want = gen_valid(s, ctx, &mut book);
    book.push_sheet(Sheet::new("s"));
    ctx.repr = format!("{:?} {:?}", f, want);
    diff_maps("before writing", &dump_valid(&book), &want)?;
    let back = roundtrip(&mut book, f)?;
    diff_maps("read back", &dump_valid(&back), &want)
}

fn conditions(s: &mut Src, ctx: &mut Ctx) -> R {
    ctx.nontrivial = true;
    enum V {
        S(String),
        I(i64),
        F(f64),
        B(bool),
        U(u8),
    }
    let v = match s.u(5) {
        0 => V::S(gen::text(s)),
        1 => V::I(s.draw(0) as i64),
        2 => V::F(gen::f64_any(s)),
        3 => V::B(s.coin()),
        _ => V::U(s.u(256) as u8),
    };
    let q = |t: &str| format!("\"{}\"", t.replace('"', "\"\""));
    let vs = match &v {
        V::S(t) => q(t),
        V::I(i) => i.to_string(),
        V::F(f) => f.to_string(),
        V::B(b) => b.to_string(),
        V::U(b) => b.to_string(),
    };
    macro_rules! by {
        ($t:ident, $f:ident) => {
            match v {
                V::S(ref t) => if s.coin() { $t::$f(t.as_str()) } else { $t::$f(t.clone()) },
                V::I(i) => $t::$f(i),
                V::F(i) => $t::$f(i),
                V::B(i) => $t::$f(i),
                V::U(i) => $t::$f(i),
            }
            .to_string()
        };
    }
    let (a, b) = (s.draw(1 << 32) as u32, s.draw(1 << 32) as u32);
    let inner = || Condition::content_le(17);
    let (got, want) = match s.u(27) {
        0 => (by!(ValueCondition, value_eq), format!("value()={}", vs)),
        1 => (by!(ValueCondition, value_ne), format!("value()!={}", vs)),
        2 => (by!(ValueCondition, value_lt), format!("value()<{}", vs)),
        3 => (by!(ValueCondition, value_gt), format!("value()>{}", vs)),
        4 => (by!(ValueCondition, value_le), format!("value()<={}", vs)),
        5 => (by!(ValueCondition, value_ge), format!("value()>={}", vs)),
        6 => (by!(Condition, content_eq), format!("cell-content()={}", vs)),
        7 => (by!(Condition, content_ne), format!("cell-content()!={}", vs)),
        8 => (by!(Condition, content_lt), format!("cell-content()<{}", vs)),
        9 => (by!(Condition, content_gt), format!("cell-content()>{}", vs)),
        10 => (by!(Condition, content_le), format!("cell-content()<={}", vs)),
        11 => (by!(Condition, content_ge), format!("cell-content()>={}", vs)),
        12 => (Condition::content_text_length_eq(a).to_string(), format!("cell-content-text-length()={}", a)),
        13 => (Condition::content_text_length_ne(a).to_string(), format!("cell-content-text-length()!={}", a)),
        14 => (Condition::content_text_length_lt(a).to_string(), format!("cell-content-text-length()<{}", a)),
        15 => (Condition::content_text_length_gt(a).to_string(), format!("cell-content-text-length()>{}", a)),
        16 => (Condition::content_text_length_le(a).to_string(), format!("cell-content-text-length()<={}", a)),
        17 => (Condition::content_text_length_ge(a).to_string(), format!("cell-content-text-length()>={}", a)),
        18 => (Condition::content_text_length_is_between(a, b).to_string(), format!("cell-content-text-length-is-between({}, {})", a, b)),
        19 => (Condition::content_text_length_is_not_between(a, b).to_string(), format!("cell-content-text-length-is-not-between({}, {})", a, b)),
        20 => {
            let l = s.vec(0, 3, 8, gen::text);
            (Condition::content_is_in_list(&l).to_string(), format!("cell-content-is-in-list({})", l.iter().map(|v| q(v)).collect::<Vec<_>>().join(";")))
        }
        21 => {
            let l = s.vec(0, 3, 8, |s| s.range(-99, 99));
            (Condition::content_is_in_list(&l).to_string(), format!("cell-content-is-in-list({})", l.iter().map(|v| format!("\"{}\"", v)).collect::<Vec<_>>().join(";")))
        }
        22 => {
            let (r, c) = (s.r32(0, 9), s.r32(0, 9));
            let rg = CellRange::local(r, c, r + 2, c + 3);
            (Condition::content_is_in_cellrange(rg.clone()).to_string(), format!("cell-content-is-in-list([.{}{}:.{}{}])", super::c_refs::colname(c), r + 1, super::c_refs::colname(c + 3), r + 3))
        }
        23 => (Condition::content_is_date_and(inner()).to_string(), "cell-content-is-date() and cell-content()<=17".into()),
        24 => (Condition::content_is_time_and(inner()).to_string(), "cell-content-is-time() and cell-content()<=17".into()),
        25 => match s.coin() {
            true => (Condition::content_is_decimal_number_and(inner()).to_string(), "cell-content-is-decimal-number() and cell-content()<=17".into()),
            _ => (Condition::content_is_whole_number_and(inner()).to_string(), "cell-content-is-whole-number() and cell-content()<=17".into()),
        },
        _ => {
            let f = gen::text(s);
            (Condition::is_true_formula(&f).to_string(), format!("is-true-formula({})", f))
        }
    };
    ctx.repr = want.clone();
    eq("condition", got, want)
}
