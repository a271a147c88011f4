//! C23 the registries of the workbook.
use crate::engine::*;
use crate::gen;
use crate::model::*;
use icu_locale_core::{locale, Locale};
use spreadsheet_ods::defaultstyles::{DefaultFormat, DefaultStyle};
use spreadsheet_ods::format::{FormatPart, FormatPartType as P, ValueFormatTrait};
use spreadsheet_ods::manifest::Manifest;
use spreadsheet_ods::style::*;
use spreadsheet_ods::validation::{Validation, ValidationHelp};
use spreadsheet_ods::workbook::EventListener;
use spreadsheet_ods::*;
use std::collections::BTreeMap;

pub fn c23() -> Check {
    Check {
        id: "C23",
        rule: "histories of up to 50 operations (add with and without name, replace, remove, change through the mutable accessor, look up, list) over all 20 registries of a workbook and its list of sheets (push, insert, remove, detach, attach, find), with clones, compared with maps after every operation, at the end also after a write/read cycle; workbooks for supported and unsupported locales with values of all kinds; non-trivial: an operation hits an existing name, or the locale part",
        parts: vec![
            Part { name: "registries", quick: 48_000, thorough: 400_000, run: registries },
            Part { name: "sheets", quick: 80_000, thorough: 600_000, run: sheets },
            Part { name: "locales", quick: 12_000, thorough: 40_000, run: locales },
        ],
        probes: vec![],
    }
}

type NM = (String, String);
struct Reg {
    kind: &'static str,
    auto: bool,
    add: fn(&mut WorkBook, &str, &str) -> String,
    remove: fn(&mut WorkBook, &str) -> Option<NM>,
    get: fn(&WorkBook, &str) -> Option<NM>,
    change: fn(&mut WorkBook, &str, &str) -> bool,
    list: fn(&WorkBook) -> Vec<NM>,
}
macro_rules! reg {
    ($kind:literal, $auto:literal, $add:ident, $remove:ident, $get:ident, $mut:ident, $iter:ident, $new:expr, $mark:expr, $marked:expr, $ret:expr) => {{
        Reg {
            kind: $kind,
            auto: $auto,
            add: |b, n, m| {
                let mut v = $new(n);
                $mark(&mut v, m);
                let r = b.$add(v);
                $ret(r, n)
            },
            remove: |b, n| b.$remove(n).map(|v| (v.name().to_string(), $marked(&v))),
            get: |b, n| b.$get(n).map(|v| (v.name().to_string(), $marked(v))),
            change: |b, n, m| {
                if let Some(v) = b.$mut(n) {
                    $mark(v, m);
                    true
                } else {
                    false
                }
            },
            list: |b| b.$iter().map(|v| (v.name().to_string(), $marked(v))).collect(),
        }
    }};
}
trait N {
    fn name(&self) -> String;
}
impl N for EventListener {
    fn name(&self) -> String {
        self.event_name().to_string()
    }
}
impl N for Manifest {
    fn name(&self) -> String {
        self.full_path.clone()
    }
}
macro_rules! sreg {
    ($kind:literal, $t:ident, $add:ident, $remove:ident, $get:ident, $mut:ident, $iter:ident) => {
        reg!(
            $kind,
            true,
            $add,
            $remove,
            $get,
            $mut,
            $iter,
            |n: &str| if n.is_empty() { $t::new_empty() } else { $t::new(n) },
            |v: &mut $t, m: &str| v.set_display_name(m),
            |v: &$t| v.attrmap().attr("style:display-name").unwrap_or("?").to_string(),
            |r: <$t as Ref>::R, _n: &str| r.as_str().to_string()
        )
    };
}
macro_rules! freg {
    ($kind:literal, $t:ident, $add:ident, $remove:ident, $get:ident, $mut:ident, $iter:ident) => {
        reg!(
            $kind,
            true,
            $add,
            $remove,
            $get,
            $mut,
            $iter,
            |n: &str| if n.is_empty() { $t::new_empty() } else { $t::new_named(n) },
            |v: &mut $t, m: &str| v.set_title(m),
            |v: &$t| v.attrmap().attr("number:title").unwrap_or("?").to_string(),
            |r: ValueFormatRef, _n: &str| r.as_str().to_string()
        )
    };
}
trait Ref {
    type R;
}
impl Ref for TableStyle {
    type R = TableStyleRef;
}
impl Ref for RowStyle {
    type R = RowStyleRef;
}
impl Ref for ColStyle {
    type R = ColStyleRef;
}
impl Ref for ParagraphStyle {
    type R = ParagraphStyleRef;
}
impl Ref for TextStyle {
    type R = TextStyleRef;
}
impl Ref for RubyStyle {
    type R = RubyStyleRef;
}
impl Ref for GraphicStyle {
    type R = GraphicStyleRef;
}

fn regs() -> Vec<Reg> {
    vec![
        sreg!("table", TableStyle, add_tablestyle, remove_tablestyle, tablestyle, tablestyle_mut, iter_table_styles),
        sreg!("row", RowStyle, add_rowstyle, remove_rowstyle, rowstyle, rowstyle_mut, iter_rowstyles),
        sreg!("col", ColStyle, add_colstyle, remove_colstyle, colstyle, colstyle_mut, iter_colstyles),
        sreg!("paragraph", ParagraphStyle, add_paragraphstyle, remove_paragraphstyle, paragraphstyle, paragraphstyle_mut, iter_paragraphstyles),
        sreg!("textstyle", TextStyle, add_textstyle, remove_textstyle, textstyle, textstyle_mut, iter_textstyles),
        sreg!("ruby", RubyStyle, add_rubystyle, remove_rubystyle, rubystyle, rubystyle_mut, iter_rubystyles),
        sreg!("graphic", GraphicStyle, add_graphicstyle, remove_graphicstyle, graphicstyle, graphicstyle_mut, iter_graphicstyles),
        reg!(
            "cell",
            true,
            add_cellstyle,
            remove_cellstyle,
            cellstyle,
            cellstyle_mut,
            iter_cellstyles,
            |n: &str| if n.is_empty() { CellStyle::new_empty() } else { CellStyle::new(n, &"fmt".into()) },
            |v: &mut CellStyle, m: &str| v.set_display_name(m),
            |v: &CellStyle| v.attrmap().attr("style:display-name").unwrap_or("?").to_string(),
            |r: CellStyleRef, _n: &str| r.as_str().to_string()
        ),
        freg!("boolean", ValueFormatBoolean, add_boolean_format, remove_boolean_format, boolean_format, boolean_format_mut, iter_boolean_formats),
        freg!("number", ValueFormatNumber, add_number_format, remove_number_format, number_format, number_format_mut, iter_number_formats),
        freg!("percentage", ValueFormatPercentage, add_percentage_format, remove_percentage_format, percentage_format, percentage_format_mut, iter_percentage_formats),
        freg!("currency", ValueFormatCurrency, add_currency_format, remove_currency_format, currency_format, currency_format_mut, iter_currency_formats),
        freg!("text", ValueFormatText, add_text_format, remove_text_format, text_format, text_format_mut, iter_text_formats),
        freg!("datetime", ValueFormatDateTime, add_datetime_format, remove_datetime_format, datetime_format, datetime_format_mut, iter_datetime_formats),
        freg!("timeduration", ValueFormatTimeDuration, add_timeduration_format, remove_timeduration_format, timeduration_format, timeduration_format_mut, iter_timeduration_formats),
        reg!(
            "page",
            true,
            add_pagestyle,
            remove_pagestyle,
            pagestyle,
            pagestyle_mut,
            iter_pagestyles,
            |n: &str| if n.is_empty() { PageStyle::new_empty() } else { PageStyle::new(n) },
            |v: &mut PageStyle, m: &str| v.style_mut().set_attr("loext:mark", m.to_string()),
            |v: &PageStyle| v.style().attr("loext:mark").unwrap_or("?").to_string(),
            |r: PageStyleRef, _n: &str| r.as_str().to_string()
        ),
        reg!(
            "master",
            true,
            add_masterpage,
            remove_masterpage,
            masterpage,
            masterpage_mut,
            iter_masterpages,
            |n: &str| if n.is_empty() { MasterPage::new_empty() } else { MasterPage::new(n) },
            |v: &mut MasterPage, m: &str| v.set_display_name(m.to_string()),
            |v: &MasterPage| v.display_name().to_string(),
            |r: MasterPageRef, _n: &str| r.as_str().to_string()
        ),
        reg!(
            "validation",
            true,
            add_validation,
            remove_validation,
            validation,
            validation_mut,
            iter_validations,
            |n: &str| {
                let mut v = Validation::new();
                v.set_name(n);
                v
            },
            |v: &mut Validation, m: &str| {
                let mut h = ValidationHelp::new();
                h.set_title(Some(m.to_string()));
                v.set_help(Some(h));
            },
            |v: &Validation| v.help().and_then(|v| v.title()).unwrap_or("?").to_string(),
            |r: spreadsheet_ods::validation::ValidationRef, _n: &str| r.as_str().to_string()
        ),
        reg!(
            "font",
            false,
            add_font,
            remove_font,
            font,
            font_mut,
            iter_fonts,
            |n: &str| FontFaceDecl::new(n),
            |v: &mut FontFaceDecl, m: &str| v.attrmap_mut().set_attr("loext:mark", m.to_string()),
            |v: &FontFaceDecl| v.attrmap().attr("loext:mark").unwrap_or("?").to_string(),
            |_: (), n: &str| n.to_string()
        ),
        reg!(
            "listener",
            false,
            add_event_listener,
            remove_event_listener,
            event_listener,
            event_listener_mut,
            iter_event_listeners,
            |n: &str| {
                let mut v = EventListener::new();
                v.set_event_name(n.to_string());
                v
            },
            |v: &mut EventListener, m: &str| v.set_href(m.to_string()),
            |v: &EventListener| v.href().to_string(),
            |_: (), n: &str| n.to_string()
        ),
        reg!(
            "file",
            false,
            add_manifest,
            remove_manifest,
            manifest,
            manifest_mut,
            iter_manifest,
            |n: &str| Manifest::new(n, "x"),
            |v: &mut Manifest, m: &str| v.buffer = Some(m.as_bytes().to_vec()),
            |v: &Manifest| String::from_utf8_lossy(v.buffer.as_deref().unwrap_or(b"?")).to_string(),
            |_: (), n: &str| n.to_string()
        ),
    ]
}

type Model = BTreeMap<&'static str, BTreeMap<String, String>>;

fn same(what: &str, regs: &[Reg], b: &WorkBook, m: &Model) -> R {
    for r in regs {
        let mut l = (r.list)(b);
        l.sort();
        let w: Vec<NM> = m.get(r.kind).map(|v| v.iter().map(|(k, v)| (k.clone(), v.clone())).collect()).unwrap_or_default();
        eq(&format!("{}: list of {}", what, r.kind), l, w)?;
    }
    Ok(())
}

fn registries(s: &mut Src, ctx: &mut Ctx) -> R {
    let regs = regs();
    let mut b = WorkBook::new_empty();
    let mut m = Model::new();
    let mut defs: BTreeMap<u8, String> = BTreeMap::new();
    let mut scripts: Vec<String> = vec![];
    let mut repr = String::new();
    let focus: Vec<usize> = s.vec(1, 2, 4, |s| s.u(regs.len()));
    let mut n = 0;
    let mut autos = vec![];
    while s.more(n, 2, 12, 50) {
        n += 1;
        let r = &regs[if s.pct(80) { s.pickc(&focus) } else { s.u(regs.len()) }];
        let e = m.entry(r.kind).or_default();
        let mark = format!("m{}", n);
        // names close to what automatic names look like.
        let name = match s.u(4) {
            0 => gen::name(s),
            1 if !e.is_empty() => e.keys().nth(s.u(e.len())).unwrap().clone(),
            2 => format!("{}{}", s.pickc(&["ta", "ro", "co", "ce", "para", "txt", "ruby", "graphic", "val_boolean", "val_number", "val_percentage", "val_currency", "val_text", "val_datetime", "val_timeduration", "page", "mp", "val", "N"]), s.u(4)),
            _ => s.pickc(&["a", "b", "A", "a b", "ä"]).to_string(),
        };
        ctx.nontrivial |= e.contains_key(&name);
        let op = s.u(9);
        repr.push_str(&format!(" {}:{}:{:?}", r.kind, op, name));
        match op {
            0..=1 => {
                let got = (r.add)(&mut b, &name, &mark);
                eq(&format!("reference from adding {} {:?}", r.kind, name), got, name.clone())?;
                e.insert(name, mark);
            }
            2..=3 if r.auto => {
                let got = (r.add)(&mut b, "", &mark);
                if got.is_empty() || e.contains_key(&got) {
                    return Err(format!("adding {} without a name gave {:?}, existing are {:?}", r.kind, got, e.keys()));
                }
                autos.push(r.kind);
                e.insert(got, mark);
                ctx.label("auto-name");
            }
            4 => {
                let w = e.remove(&name).map(|v| (name.clone(), v));
                eq(&format!("removing {} {:?}", r.kind, name), (r.remove)(&mut b, &name), w)?;
            }
            5 => {
                let w = e.get_mut(&name);
                let got = (r.change)(&mut b, &name, &mark);
                eq(&format!("mutable accessor of {} {:?}", r.kind, name), got, w.is_some())?;
                if let Some(w) = w {
                    *w = mark;
                }
            }
            6 => {
                let vt = [ValueType::Boolean, ValueType::Number, ValueType::Percentage, ValueType::Currency, ValueType::Text, ValueType::DateTime, ValueType::TimeDuration, ValueType::TextXml];
                let k = s.u(vt.len());
                b.add_def_style(vt[k], CellStyleRef::from(name.as_str()));
                defs.insert(k as u8, name);
                for (i, v) in vt.iter().enumerate() {
                    eq("def_style", b.def_style(*v).map(|v| v.as_str().to_string()), defs.get(&(i as u8)).cloned())?;
                }
            }
            7 => {
                let mut c = b.clone();
                for r in &regs {
                    (r.add)(&mut c, &name, "clone");
                    (r.remove)(&mut c, "a");
                }
                c.push_sheet(Sheet::new("x"));
                ctx.label("cloned");
            }
            _ => {
                let mut sc = spreadsheet_ods::workbook::Script::new();
                sc.set_script_lang(name.clone());
                b.add_script(sc);
                scripts.push(name);
                eq("scripts", b.iter_scripts().map(|v| v.script_lang().to_string()).collect::<Vec<_>>(), scripts.clone())?;
                eq("scripts", b.scripts().len(), scripts.len())?;
            }
        }
        let k = r.kind;
        same(&format!("after {} {}", n, k), &regs, &b, &m)?;
        let e = &m[k];
        for n in e.keys().map(|v| v.as_str()).chain(["a", "b", "nope", ""]) {
            eq(&format!("looking up {} {:?}", k, n), (r.get)(&b, n), e.get(n).map(|v| (n.to_string(), v.clone())))?;
        }
    }
    ctx.nontrivial |= autos.len() > 1;
    // The automatic names are good names in the file, too.
    if s.pct(20) {
        b.push_sheet(Sheet::new("s"));
        let f = fmt(s);
        let c = roundtrip(&mut b, f)?;
        for r in &regs {
            if !r.auto || r.kind == "master" || r.kind == "page" {
                continue;
            }
            for (k, v) in m.get(r.kind).into_iter().flatten() {
                eq(&format!("{} {:?} after a file", r.kind, k), (r.get)(&c, k), Some((k.clone(), v.clone())))?;
            }
        }
        // and adding goes on after reading.
        let mut c = c;
        for r in regs.iter().filter(|r| r.auto) {
            let old = (r.list)(&c);
            let got = (r.add)(&mut c, "", "later");
            if old.iter().any(|v| v.0 == got) {
                return Err(format!("after reading, adding {} without a name gave {:?}, which exists", r.kind, got));
            }
            eq("number of items after adding one", (r.list)(&c).len(), old.len() + 1)?;
        }
        ctx.label("file");
    }
    ctx.repr = repr;
    Ok(())
}

// ---------------------------------------------------------------- sheets

fn sheets(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut b = WorkBook::new_empty();
    let mut m: Vec<NM> = vec![];
    let mut repr = String::new();
    let mut n = 0;
    let sheet = |nm: &str, mark: &str| {
        let mut sh = Sheet::new(nm);
        sh.set_value(0, 0, mark);
        sh
    };
    let mark = |sh: &Sheet| (sh.name().clone(), sh.value(0, 0).as_str_or("?").to_string());
    while s.more(n, 1, 10, 40) {
        n += 1;
        let op = s.u(7);
        let nm = s.pickc(&["a", "b", "c", "A", ""]).to_string();
        let mk = format!("m{}", n);
        repr.push_str(&format!(" {}:{:?}", op, nm));
        match op {
            0 | 1 => {
                b.push_sheet(sheet(&nm, &mk));
                m.push((nm, mk));
            }
            2 => {
                let i = s.u(m.len() + 1);
                b.insert_sheet(i, sheet(&nm, &mk));
                m.insert(i, (nm, mk));
            }
            3 if !m.is_empty() => {
                let i = s.u(m.len());
                let sh = b.remove_sheet(i);
                eq("removed sheet", mark(&sh), m.remove(i))?;
                if s.coin() {
                    // put it back elsewhere.
                    let j = s.u(m.len() + 1);
                    m.insert(j, mark(&sh));
                    b.insert_sheet(j, sh);
                }
            }
            4 if !m.is_empty() => {
                // detach some, change them and the book, attach in another order.
                let mut idx: Vec<usize> = (0..m.len()).filter(|_| s.coin()).collect();
                let mut det: Vec<_> = idx.iter().map(|i| b.detach_sheet(*i)).collect();
                eq("number of sheets with some detached", b.num_sheets(), m.len())?;
                b.add_cellstyle(CellStyle::new_empty());
                for (i, d) in idx.iter().zip(det.iter_mut()) {
                    eq("detached sheet", mark(d), m[*i].clone())?;
                    d.set_value(0, 0, format!("{}/{}", mk, i));
                    m[*i].1 = format!("{}/{}", mk, i);
                    if s.pct(30) {
                        d.set_name(&nm);
                        m[*i].0 = nm.clone();
                    }
                }
                while !det.is_empty() {
                    let k = s.u(det.len());
                    idx.remove(k);
                    b.attach_sheet(det.remove(k));
                }
                ctx.label("detached");
            }
            5 if !m.is_empty() => {
                let i = s.u(m.len());
                b.sheet_mut(i).set_name(&nm);
                b.sheet_mut(i).set_value(0, 0, &mk);
                m[i] = (nm, mk);
            }
            _ => {
                let mut c = b.clone();
                c.push_sheet(sheet("clone", "clone"));
                if !m.is_empty() {
                    c.sheet_mut(0).set_value(0, 0, "clone");
                    c.remove_sheet(0);
                }
            }
        }
        ctx.nontrivial |= m.len() > 1;
        eq("num_sheets", b.num_sheets(), m.len())?;
        eq("iter_sheets", b.iter_sheets().map(mark).collect::<Vec<_>>(), m.clone())?;
        for i in 0..m.len() {
            eq("sheet", mark(b.sheet(i)), m[i].clone())?;
        }
        for q in ["a", "b", "c", "A", "", "zz"] {
            eq(&format!("sheet_idx {:?}", q), b.sheet_idx(q), m.iter().position(|v| v.0 == q))?;
        }
    }
    ctx.repr = repr;
    Ok(())
}

// ---------------------------------------------------------------- locales

fn kinds<T: ValueFormatTrait>(v: &T) -> Vec<P> {
    v.parts().iter().map(|p: &FormatPart| p.part_type()).filter(|p| *p != P::Text).collect()
}

fn locales(s: &mut Src, ctx: &mut Ctx) -> R {
    let all: Vec<(Locale, Option<(&str, [P; 3])>)> = vec![
        (locale!("en"), Some(("$", [P::Year, P::Month, P::Day]))),
        (locale!("en-US"), Some(("$", [P::Month, P::Day, P::Year]))),
        (locale!("de-AT"), Some(("€", [P::Day, P::Month, P::Year]))),
        (locale!("cs-CZ"), Some(("Kč", [P::Day, P::Month, P::Year]))),
        (locale!("fr-FR"), None),
        (locale!("und"), None),
    ];
    let (mut loc, mut sup) = s.pickc(&all);
    ctx.nontrivial = true;
    let how = s.u(4);
    let mut b = match how {
        3 => {
            // the old way, always the same formats.
            let mut b = match s.u(2) {
                0 => WorkBook::new_empty(),
                _ => WorkBook::new(loc.clone()),
            };
            loc = locale!("de-AT");
            sup = all[2].1;
            #[allow(deprecated)]
            spreadsheet_ods::defaultstyles::create_default_styles(&mut b);
            b
        }
        0 => WorkBook::new(loc.clone()),
        1 => {
            let mut b = WorkBook::new_empty();
            b.locale_settings(loc.clone());
            b
        }
        _ => {
            // a change of mind.
            let l1 = s.pickc(&all);
            let mut b = WorkBook::new(l1.0.clone());
            if l1.1.is_none() || sup.is_some() {
                b.locale_settings(loc.clone());
                b
            } else {
                WorkBook::new(loc.clone())
            }
        }
    };
    let names = [
        ("bool", DefaultStyle::bool(), DefaultFormat::bool()),
        ("number", DefaultStyle::number(), DefaultFormat::number()),
        ("percent", DefaultStyle::percent(), DefaultFormat::percent()),
        ("currency", DefaultStyle::currency(), DefaultFormat::currency()),
        ("date", DefaultStyle::date(), DefaultFormat::date()),
        ("datetime", DefaultStyle::datetime(), DefaultFormat::datetime()),
        ("time", DefaultStyle::time_of_day(), DefaultFormat::time_of_day()),
        ("interval", DefaultStyle::time_interval(), DefaultFormat::time_interval()),
    ];
    let formats = |b: &WorkBook, what: &str| -> R {
        for (k, st, f) in &names {
            let Some(c) = b.cellstyle(st) else {
                return Err(format!("{}: {}: there is no default style for {}", what, loc, k));
            };
            eq(&format!("{}: format of the default style for {}", what, k), c.value_format(), Some(f.as_str()))?;
            let Some((sym, ymd)) = &sup else {
                continue;
            };
            let f = f.as_str();
            let tod = [P::Hours, P::Minutes, P::Seconds];
            let got = match *k {
                "bool" => b.boolean_format(f).map(|v| (kinds(v), v.parts().clone())),
                "number" => b.number_format(f).map(|v| (kinds(v), v.parts().clone())),
                "percent" => b.percentage_format(f).map(|v| (kinds(v), v.parts().clone())),
                "currency" => b.currency_format(f).map(|v| (kinds(v), v.parts().clone())),
                "interval" => b.timeduration_format(f).map(|v| (kinds(v), v.parts().clone())),
                "time" if how == 3 => b.timeduration_format(f).map(|v| (kinds(v), v.parts().clone())),
                _ => b.datetime_format(f).map(|v| (kinds(v), v.parts().clone())),
            };
            let Some((got, parts)) = got else {
                return Err(format!("{}: {}: there is no default format for {}", what, loc, k));
            };
            let count = |p: P| got.iter().filter(|v| **v == p).count();
            let text: String = parts.iter().filter(|p| p.part_type() == P::Text).filter_map(|p| p.content().cloned()).collect();
            let name = format!("{}: {} {}", what, loc, k);
            for p in parts.iter() {
                if p.part_type() == P::Number {
                    eq(&format!("{}: decimals", name), p.attr_def("number:decimal-places", ""), "2")?;
                }
                if matches!(p.part_type(), P::Minutes | P::Seconds) {
                    eq(&format!("{}: two digits", name), p.attr_def("number:style", ""), "long")?;
                }
            }
            if *k == "interval" {
                let t = b.timeduration_format(f).and_then(|v| v.attrmap().attr("number:truncate-on-overflow").map(|v| v.to_string()));
                eq(&format!("{}: beyond a day", name), t.as_deref(), Some("false"))?;
            }
            match *k {
                "bool" => eq(&name, got, vec![P::Boolean])?,
                "number" => eq(&name, got, vec![P::Number])?,
                "percent" => {
                    eq(&name, got, vec![P::Number])?;
                    eq(&name, text.trim(), "%")?;
                }
                "currency" => {
                    eq(&name, (count(P::Number), count(P::CurrencySymbol), got.len()), (1, 1, 2))?;
                    let c = parts.iter().find(|p| p.part_type() == P::CurrencySymbol).unwrap();
                    eq(&name, c.content().map(|v| v.as_str()), Some(*sym))?;
                }
                "date" => eq(&name, got, ymd.to_vec())?,
                "datetime" => {
                    for p in [P::Year, P::Month, P::Day, P::Hours, P::Minutes, P::Seconds] {
                        eq(&format!("{} has {:?}", name, p), count(p), 1)?;
                    }
                }
                _ => {
                    eq(&name, got.iter().filter(|v| **v != P::AmPm).cloned().collect::<Vec<_>>(), tod.to_vec())?;
                }
            }
        }
        let d = |t: ValueType| b.def_style(t).map(|v| v.as_str().to_string());
        let w = |v: CellStyleRef| Some(v.as_str().to_string());
        eq("default for booleans", d(ValueType::Boolean), w(DefaultStyle::bool()))?;
        eq("default for numbers", d(ValueType::Number), w(DefaultStyle::number()))?;
        eq("default for percentages", d(ValueType::Percentage), w(DefaultStyle::percent()))?;
        eq("default for currencies", d(ValueType::Currency), w(DefaultStyle::currency()))?;
        eq("default for dates", d(ValueType::DateTime), w(DefaultStyle::date()))?;
        eq("default for durations", d(ValueType::TimeDuration), w(DefaultStyle::time_interval()))?;
        eq("default for text", d(ValueType::Text), None)
    };
    formats(&b, "new")?;
    // Values without a style are shown with the format for their kind.
    let mut sh = Sheet::new("s");
    let vals: Vec<Value> = s.vec(1, 4, 8, value);
    for (i, v) in vals.iter().enumerate() {
        sh.set_value(i as u32, 0, v.clone());
    }
    b.push_sheet(sh);
    let f = fmt(s);
    let c = roundtrip(&mut b, f)?;
    formats(&c, "after a file")?;
    for (i, v) in vals.iter().enumerate() {
        let st = c.sheet(0).cellstyle(i as u32, 0).map(|v| v.as_str().to_string());
        let w = b.def_style(v.value_type()).map(|v| v.as_str().to_string());
        eq(&format!("style of {:?}", v), &st, &w)?;
        let (Some(st), Some(_)) = (st, &sup) else {
            continue;
        };
        let vf = c.cellstyle(&st).and_then(|v| v.value_format()).unwrap_or("?");
        let ok = match v.value_type() {
            ValueType::Boolean => c.boolean_format(vf).is_some(),
            ValueType::Number => c.number_format(vf).is_some(),
            ValueType::Percentage => c.percentage_format(vf).is_some(),
            ValueType::Currency => c.currency_format(vf).is_some(),
            ValueType::DateTime => c.datetime_format(vf).is_some(),
            ValueType::TimeDuration => c.timeduration_format(vf).is_some(),
            _ => true,
        };
        if !ok {
            return Err(format!("{}: {:?} refers to the format {:?}, which is not there or of another kind", loc, v, vf));
        }
    }
    ctx.repr = format!("{} {} {:?} {:?}", loc, how, f, vals);
    Ok(())
}
