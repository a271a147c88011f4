//! C07 styles and fonts, C08 value formats, C09 page styles and master pages.
use super::c_refs;
use crate::attrs;
use crate::engine::*;
use crate::gen;
use crate::model::*;
use icu_locale_core::{locale, Locale};
use spreadsheet_ods::condition::{Condition, ValueCondition};
use spreadsheet_ods::format::*;
use spreadsheet_ods::style::stylemap::StyleMap;
use spreadsheet_ods::style::tabstop::TabStop;
use spreadsheet_ods::style::units::MasterPageUsage;
use spreadsheet_ods::style::*;
use spreadsheet_ods::xmltree::XmlTag;
use spreadsheet_ods::*;
use std::collections::BTreeMap;

pub type Map = BTreeMap<String, String>;

#[derive(Debug, Clone, PartialEq, Default)]
pub struct Spec {
    pub fam: &'static str,
    pub name: String,
    pub usage: &'static str,
    pub origin: &'static str,
    pub maps: BTreeMap<&'static str, Map>,
    pub tabs: Vec<Map>,
    pub stylemaps: Vec<String>,
}

pub fn c07() -> Check {
    Check {
        id: "C07",
        rule: "workbooks with 1-12 cell, column, row, table, paragraph, text, ruby and graphic styles (automatic, named and default; random attributes in every property group; tab-stops; style maps) and fonts, written as ods, uncompressed ods or fods and read back; every style is compared attribute by attribute; non-trivial: at least 2 styles and one attribute",
        parts: vec![Part { name: "roundtrip", quick: 36_000, thorough: 300_000, run: styles }],
        probes: vec![],
    }
}

const FAMS: &[(&str, &[&str])] = &[
    ("cell", &["attr", "cell", "paragraph", "text"]),
    ("col", &["attr", "col"]),
    ("row", &["attr", "row"]),
    ("table", &["attr", "table"]),
    ("paragraph", &["attr", "paragraph", "text"]),
    ("text", &["attr", "text"]),
    ("ruby", &["attr", "ruby"]),
    ("graphic", &["attr", "graphic", "paragraph", "text"]),
];
pub const KEYS: &[&str] = &[
    "fo:color", "fo:font-size", "style:parent-style-name", "style:display-name", "style:data-style-name", "style:font-name", "fo:border", "fo:border-left",
    "style:column-width", "style:row-height", "fo:break-before", "style:use-optimal-row-height", "style:class", "draw:fill", "svg:stroke-color",
    "style:ruby-align", "style:rotation-angle", "table:display", "style:master-page-name", "style:auto-update", "xml:id", "loext:x", "fo:padding",
];
pub fn map(s: &mut Src, avg: usize) -> Map {
    let mut m = Map::new();
    let n = s.u(avg * 2 + 1);
    for _ in 0..n {
        let k = s.pickc(KEYS).to_string();
        let v = if s.pct(40) { gen::text(s) } else { gen::ident(s) };
        m.insert(k, v);
    }
    m
}
fn usage(u: StyleUse) -> &'static str {
    match u {
        StyleUse::Default => "default",
        StyleUse::Named => "named",
        StyleUse::Automatic => "automatic",
    }
}
fn origin(o: StyleOrigin) -> &'static str {
    match o {
        StyleOrigin::Content => "content",
        StyleOrigin::Styles => "styles",
    }
}
fn usage_of(u: &str) -> StyleUse {
    match u {
        "default" => StyleUse::Default,
        "named" => StyleUse::Named,
        _ => StyleUse::Automatic,
    }
}
fn origin_of(u: &str) -> StyleOrigin {
    match u {
        "content" => StyleOrigin::Content,
        _ => StyleOrigin::Styles,
    }
}
/// What survives by design: named and default styles live in one place only,
/// default styles have no name, a flat file has no parts.
pub fn canon_spec(mut s: Spec, fods: bool) -> Spec {
    if fods || s.usage != "automatic" {
        s.origin = "-";
    }
    if s.usage == "default" {
        s.name = "*".into();
    }
    s.maps.retain(|_, m| !m.is_empty());
    s
}

macro_rules! to_map {
    ($m:expr) => {
        $m.iter().filter(|(k, _)| k.as_ref() as &str != "style:family").map(|(k, v)| (k.to_string(), v.to_string())).collect::<Map>()
    };
}
macro_rules! fill {
    ($spec:expr, $key:literal, $m:expr) => {
        if let Some(m) = $spec.maps.get($key) {
            for (k, v) in m {
                $m.set_attr(k, v.clone());
            }
        }
    };
}

pub fn stylemap_str(m: &StyleMap) -> String {
    format!("{} {:?} {:?}", m.condition(), m.applied_style().as_str(), m.base_cell())
}

pub fn apply(book: &mut WorkBook, spec: &Spec, tabs: bool, sm: &[StyleMap]) {
    let (u, o) = (usage_of(spec.usage), origin_of(spec.origin));
    macro_rules! mk {
        ($ty:ident, $add:ident, [$($key:literal $acc:ident),*], $extra:expr) => {{
            let mut st = $ty::new_empty();
            st.set_name(&spec.name);
            st.set_origin(o);
            st.set_styleuse(u);
            fill!(spec, "attr", st.attrmap_mut());
            $( fill!(spec, $key, st.$acc()); )*
            #[allow(clippy::redundant_closure_call)]
            ($extra)(&mut st);
            book.$add(st);
        }};
    }
    match spec.fam {
        "cell" => mk!(CellStyle, add_cellstyle, ["cell" cellstyle_mut, "paragraph" paragraphstyle_mut, "text" textstyle_mut], |st: &mut CellStyle| {
            for m in sm {
                st.push_stylemap(m.clone());
            }
        }),
        "col" => mk!(ColStyle, add_colstyle, ["col" colstyle_mut], |_| {}),
        "row" => mk!(RowStyle, add_rowstyle, ["row" rowstyle_mut], |_| {}),
        "table" => mk!(TableStyle, add_tablestyle, ["table" tablestyle_mut], |_| {}),
        "paragraph" => mk!(ParagraphStyle, add_paragraphstyle, ["paragraph" paragraphstyle_mut, "text" textstyle_mut], |st: &mut ParagraphStyle| {
            if tabs {
                for t in &spec.tabs {
                    let mut ts = TabStop::new();
                    for (k, v) in t {
                        ts.attrmap_mut().set_attr(k, v.clone());
                    }
                    st.add_tabstop(ts);
                }
            }
        }),
        "text" => mk!(TextStyle, add_textstyle, ["text" textstyle_mut], |_| {}),
        "ruby" => mk!(RubyStyle, add_rubystyle, ["ruby" rubystyle_mut], |_| {}),
        _ => mk!(GraphicStyle, add_graphicstyle, ["graphic" graphicstyle_mut, "paragraph" paragraphstyle_mut, "text" textstyle_mut], |_| {}),
    }
}

/// All styles as seen through the accessors.
pub fn dump_styles(book: &WorkBook, fods: bool) -> BTreeMap<String, Spec> {
    let mut r = BTreeMap::new();
    macro_rules! d {
        ($fam:literal, $iter:ident, [$($key:literal $acc:ident),*], $extra:expr) => {
            for st in book.$iter() {
                let mut sp = Spec { fam: $fam, name: st.name().to_string(), usage: usage(st.styleuse()), origin: origin(st.origin()), ..Default::default() };
                sp.maps.insert("attr", to_map!(st.attrmap()));
                $( sp.maps.insert($key, to_map!(st.$acc())); )*
                #[allow(clippy::redundant_closure_call)]
                ($extra)(st, &mut sp);
                let sp = canon_spec(sp, fods);
                r.insert(format!("{}/{}", sp.fam, sp.name), sp);
            }
        };
    }
    d!("cell", iter_cellstyles, ["cell" cellstyle, "paragraph" paragraphstyle, "text" textstyle], |st: &CellStyle, sp: &mut Spec| {
        sp.stylemaps = st.stylemaps().map(|v| v.iter().map(stylemap_str).collect()).unwrap_or_default();
    });
    d!("col", iter_colstyles, ["col" colstyle], |_: &ColStyle, _: &mut Spec| {});
    d!("row", iter_rowstyles, ["row" rowstyle], |_: &RowStyle, _: &mut Spec| {});
    d!("table", iter_table_styles, ["table" tablestyle], |_: &TableStyle, _: &mut Spec| {});
    d!("paragraph", iter_paragraphstyles, ["paragraph" paragraphstyle, "text" textstyle], |st: &ParagraphStyle, sp: &mut Spec| {
        sp.tabs = st.tabstops().map(|v| v.iter().map(|t| to_map!(t.attrmap())).collect()).unwrap_or_default();
    });
    d!("text", iter_textstyles, ["text" textstyle], |_: &TextStyle, _: &mut Spec| {});
    d!("ruby", iter_rubystyles, ["ruby" rubystyle], |_: &RubyStyle, _: &mut Spec| {});
    d!("graphic", iter_graphicstyles, ["graphic" graphicstyle, "paragraph" paragraphstyle, "text" textstyle], |_: &GraphicStyle, _: &mut Spec| {});
    for f in book.iter_fonts() {
        let mut sp = Spec { fam: "font", name: f.name().clone(), usage: "automatic", origin: origin(f.origin()), ..Default::default() };
        sp.maps.insert("attr", to_map!(f.attrmap()));
        let sp = canon_spec(sp, fods);
        r.insert(format!("font/{}", sp.name), sp);
    }
    r
}

pub fn diff_maps<T: PartialEq + std::fmt::Debug>(what: &str, got: &BTreeMap<String, T>, want: &BTreeMap<String, T>) -> R {
    for (k, w) in want {
        match got.get(k) {
            None => return Err(format!("{}: {:?} is missing, expected {:?}", what, k, w)),
            Some(g) if g != w => return Err(format!("{}: {:?}\n   got {:?}\n  want {:?}", what, k, g, w)),
            _ => {}
        }
    }
    for (k, g) in got {
        if !want.contains_key(k) {
            return Err(format!("{}: unexpected {:?} {:?}", what, k, g));
        }
    }
    Ok(())
}

/// Names that look like automatic names are avoided, they are used for
/// default-styles while reading.
pub fn style_name(s: &mut Src) -> String {
    let n = gen::name(s);
    if n.chars().last().is_some_and(|c| c.is_ascii_digit()) { n + "_" } else { n }
}

pub fn gen_style(s: &mut Src, ctx: &mut Ctx, book: &mut WorkBook, want: &mut BTreeMap<String, Spec>, fods: bool) {
    if s.pct(15) {
        let mut sp = Spec { fam: "font", name: style_name(s), usage: "automatic", origin: s.pickc(&["content", "styles"]), ..Default::default() };
        sp.maps.insert("attr", map(s, 2));
        let mut f = if s.coin() { FontFaceDecl::new(&sp.name) } else { FontFaceDecl::new_empty() };
        f.set_name(&sp.name);
        f.set_origin(origin_of(sp.origin));
        fill!(sp, "attr", f.attrmap_mut());
        book.add_font(f);
        let sp = canon_spec(sp, fods);
        want.insert(format!("font/{}", sp.name), sp);
        ctx.label("font");
        return;
    }
    let (fam, groups) = s.pickc(FAMS);
    let mut sp = Spec { fam, name: style_name(s), usage: s.pickc(&["automatic", "named", "default"]), origin: s.pickc(&["content", "styles"]), ..Default::default() };
    if sp.usage == "default" && want.contains_key(&format!("{}/*", fam)) {
        sp.usage = "named";
    }
    // a style that is replaced by one of another use
    let key = format!("{}/{}", fam, sp.name);
    if let Some(old) = want.get(&key) {
        sp.usage = old.usage;
    }
    if want.get(&format!("{}/*", fam)).is_some() && book_has(book, fam, &sp.name) && !want.contains_key(&key) {
        sp.name.push('x');
    }
    for g in groups {
        sp.maps.insert(g, map(s, 2));
    }
    let mut sm = vec![];
    if fam == "cell" {
        for _ in 0..s.u(3) {
            let mut m = StyleMap::new(condition(s), AnyStyleRef::from(gen::name(s).as_str()), None);
            if s.coin() {
                m.set_base_cell(Some(cellref(s)));
            }
            sp.stylemaps.push(stylemap_str(&m));
            sm.push(m);
            ctx.label("stylemap");
        }
    }
    if fam == "paragraph" {
        for _ in 0..s.u(3) {
            sp.tabs.push(map(s, 1));
            ctx.label("tab-stop");
        }
    }
    apply(book, &sp, true, &sm);
    ctx.label_if(sp.usage == "default", "default");
    ctx.label_if(sp.usage == "named", "named");
    ctx.label_if(sp.usage == "automatic", "automatic");
    let sp = canon_spec(sp, fods);
    want.insert(format!("{}/{}", sp.fam, sp.name), sp);
}
fn book_has(b: &WorkBook, fam: &str, n: &str) -> bool {
    match fam {
        "cell" => b.cellstyle(n).is_some(),
        "col" => b.colstyle(n).is_some(),
        "row" => b.rowstyle(n).is_some(),
        "table" => b.tablestyle(n).is_some(),
        "paragraph" => b.paragraphstyle(n).is_some(),
        "text" => b.textstyle(n).is_some(),
        "ruby" => b.rubystyle(n).is_some(),
        _ => b.graphicstyle(n).is_some(),
    }
}

/// What an empty workbook reads back as.
pub fn plain(f: Fmt) -> Result<WorkBook, String> {
    let mut b = WorkBook::new_empty();
    b.push_sheet(Sheet::new("s"));
    roundtrip(&mut b, f)
}

fn styles(s: &mut Src, ctx: &mut Ctx) -> R {
    let f = fmt(s);
    let fods = f == Fmt::Fods;
    let mut book = WorkBook::new_empty();
    let mut want = BTreeMap::new();
    let n = 1 + s.many(12, 150);
    for _ in 0..n {
        gen_style(s, ctx, &mut book, &mut want, fods);
    }
    book.push_sheet(Sheet::new("s"));
    ctx.nontrivial = want.len() >= 2 && want.values().any(|v| !v.maps.is_empty());
    ctx.repr = format!("{:?} {:?}", f, want.values().collect::<Vec<_>>());
    diff_maps("before writing", &dump_styles(&book, fods), &want)?;
    let back = roundtrip(&mut book, f)?;
    diff_maps("after writing, the original", &dump_styles(&book, fods), &want)?;
    // the reader supplies the locale defaults where the file has none.
    let mut full = dump_styles(&plain(f)?, fods);
    full.extend(want);
    diff_maps(&format!("{:?} styles", f), &dump_styles(&back, fods), &full)
}

// ---------------------------------------------------------------- C08

pub fn c08() -> Check {
    Check {
        id: "C08",
        rule: "workbooks with 1-8 value formats of all 7 kinds built from random builder calls (number, scientific, fraction, currency, date and time parts, text, fill character, embedded text), attributes, text properties and style maps; the parts are compared with the attributes the builder calls stand for, before writing and after reading; non-trivial: a format with at least 2 parts",
        parts: vec![
            Part { name: "roundtrip", quick: 36_000, thorough: 300_000, run: formats },
            Part { name: "create", quick: 6_000, thorough: 20_000, run: create },
            Part { name: "typed", quick: 12_000, thorough: 100_000, run: typed },
        ],
        probes: vec![],
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct MPart {
    pub ty: FormatPartType,
    pub attr: Map,
    pub pos: Option<i32>,
    pub content: String,
}
pub const PART_ATTR: &[&str] = &[
    "number:decimal-places", "number:min-decimal-places", "number:grouping", "number:min-integer-digits", "number:display-factor",
    "number:decimal-replacement", "number:exponent-interval", "number:forced-exponent-sign", "number:min-exponent-digits", "number:denominator-value",
    "number:max-denominator-value", "number:min-denominator-digits", "number:min-numerator-digits", "number:language", "number:country", "number:script",
    "number:style", "number:calendar", "number:textual", "number:possessive-form", "loext:bar",
];
const NO: &str = "\u{0}none";
pub fn mpart(p: &FormatPart) -> MPart {
    let mut attr = Map::new();
    for k in PART_ATTR {
        let v = p.attr_def(k, NO);
        if v != NO {
            attr.insert(k.to_string(), v.to_string());
        }
    }
    let text = matches!(p.part_type(), FormatPartType::Text | FormatPartType::CurrencySymbol | FormatPartType::FillCharacter)
        || (p.part_type() == FormatPartType::Number && p.position().is_some());
    MPart {
        ty: p.part_type(),
        attr,
        pos: p.position(),
        content: if text { p.content().cloned().unwrap_or_default() } else { String::new() },
    }
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct FSpec {
    pub kind: &'static str,
    pub name: String,
    pub usage: &'static str,
    pub origin: &'static str,
    pub attr: Map,
    pub text: Map,
    pub parts: Vec<MPart>,
    pub stylemaps: Vec<String>,
}
pub fn canon_f(mut s: FSpec, fods: bool) -> FSpec {
    if s.usage == "default" {
        s.usage = "named";
    }
    if fods || s.usage == "named" {
        s.origin = "-";
    }
    s
}
fn spec_f<T: ValueFormatTrait>(kind: &'static str, v: &T) -> FSpec {
    FSpec {
        kind,
        name: v.name().clone(),
        usage: usage(v.styleuse()),
        origin: origin(v.origin()),
        attr: to_map!(v.attrmap()),
        text: to_map!(v.textstyle()),
        parts: v.parts().iter().map(mpart).collect(),
        stylemaps: v.stylemaps().map(|m| m.iter().map(|m| format!("{} {:?}", m.condition(), m.applied_style())).collect()).unwrap_or_default(),
    }
}
pub fn dump_formats(b: &WorkBook, fods: bool) -> BTreeMap<String, FSpec> {
    let mut r = vec![];
    r.extend(b.iter_boolean_formats().map(|v| spec_f("boolean", v)));
    r.extend(b.iter_number_formats().map(|v| spec_f("number", v)));
    r.extend(b.iter_percentage_formats().map(|v| spec_f("percentage", v)));
    r.extend(b.iter_currency_formats().map(|v| spec_f("currency", v)));
    r.extend(b.iter_text_formats().map(|v| spec_f("text", v)));
    r.extend(b.iter_datetime_formats().map(|v| spec_f("datetime", v)));
    r.extend(b.iter_timeduration_formats().map(|v| spec_f("time", v)));
    r.into_iter().map(|v| canon_f(v, fods)).map(|v| (format!("{}/{}", v.kind, v.name), v)).collect()
}

fn ins(m: &mut Map, k: &str, v: impl ToString) {
    m.insert(k.to_string(), v.to_string());
}
pub const LOCS: &[(Locale, &str, Option<&str>, Option<&str>)] = &[
    (locale!("en-US"), "en", Some("US"), None),
    (locale!("de"), "de", None, None),
    (locale!("zh-Hant-TW"), "zh", Some("TW"), Some("Hant")),
    (locale!("sr-Latn"), "sr", None, Some("Latn")),
];
const CALS: &[(FormatCalendarStyle, &str)] = &[
    (FormatCalendarStyle::Gregorian, "gregorian"),
    (FormatCalendarStyle::Gengou, "gengou"),
    (FormatCalendarStyle::Roc, "ROC"),
    (FormatCalendarStyle::Hanja, "hanja"),
    (FormatCalendarStyle::Hijri, "hijri"),
    (FormatCalendarStyle::Jewish, "jewish"),
    (FormatCalendarStyle::Buddhist, "buddhist"),
];

/// A conditional step is done exactly if its condition is true.
fn chosen<B>(s: &mut Src, f: impl FnOnce(bool, &dyn Fn()) -> B) -> B {
    let t = s.coin();
    let done = std::cell::Cell::new(false);
    let b = f(t, &|| done.set(true));
    assert_eq!(done.get(), t, "if_then({})", t);
    b
}

/// Adds one part through the builders; returns what it stands for.
/// Drives any format through its trait.
fn part<T: ValueFormatTrait>(s: &mut Src, v: &mut T) -> MPart {
    use FormatPartType as P;
    use spreadsheet_ods::format as fb;
    let mut a = Map::new();
    let mut pos = None;
    let mut content = String::new();
    macro_rules! calls {
        ($b:ident, $( $w:pat => $e:expr ),* $(,)?) => {{
            let n = s.u(6);
            for _ in 0..n { match s.u(10) { $( $w => $e, )* _ => $b = chosen(s, |t, f| $b.if_then(t, |b| { f(); b })) } }
            $b.build();
        }};
    }
    macro_rules! styled {
        ($b:ident, $w:expr) => {
            match $w {
                0 => { $b = $b.long_style(); ins(&mut a, "number:style", "long"); }
                1 => { $b = $b.short_style(); ins(&mut a, "number:style", "short"); }
                2 => { $b = $b.style(FormatNumberStyle::Long); ins(&mut a, "number:style", "long"); }
                _ => { $b = $b.style(FormatNumberStyle::Short); ins(&mut a, "number:style", "short"); }
            }
        };
    }
    macro_rules! cal {
        ($b:ident) => {{ let (c, n) = s.pickc(CALS); $b = $b.calendar(c); ins(&mut a, "number:calendar", n); }};
    }
    let ty = match s.u(20) {
        0 => { let mut b = fb::PartNumberBuilder::new(v);
            calls!(b,
                0 => { let n = s.u(256) as u8; b = b.decimal_places(n); ins(&mut a, "number:decimal-places", n); },
                1 => { let n = s.u(9) as u8; b = b.fixed_decimal_places(n); ins(&mut a, "number:decimal-places", n); ins(&mut a, "number:min-decimal-places", n); },
                2 => { b = b.grouping(); ins(&mut a, "number:grouping", "true"); },
                3 => { let n = s.u(9) as u8; b = b.min_decimal_places(n); ins(&mut a, "number:min-decimal-places", n); },
                4 => { let n = s.u(9) as u8; b = b.min_integer_digits(n); ins(&mut a, "number:min-integer-digits", n); },
                5 => { let n = s.pickc(&[1000f64, 0.001, 1e6, 2.5]); b = b.display_factor(n); ins(&mut a, "number:display-factor", n); },
                6 => { let c = s.pickc(&['-', '&', '"', '–']); b = b.decimal_replacement(c); ins(&mut a, "number:decimal-replacement", c); },
                7 => { let t = gen::text(s); let p = s.range(-3, 12) as i32; b = b.embedded_text(t.clone(), p); pos = Some(p); content = t; },
                8 => { let t = s.coin(); b = b.if_then(t, |b| b.grouping()); if t { ins(&mut a, "number:grouping", "true"); } },
            );
            P::Number }
        1 => { let mut b = fb::PartFillCharacterBuilder::new(v); let c = s.pickc(&['*', '&', ' ', 'ä', '<']); b = b.fill_char(c); b = chosen(s, |t, f| b.if_then(t, |b| { f(); b })); b.build(); content = c.to_string(); P::FillCharacter }
        2 => { let mut b = fb::PartScientificBuilder::new(v);
            calls!(b,
                0 => { let n = s.u(9) as u8; b = b.decimal_places(n); ins(&mut a, "number:decimal-places", n); },
                1 => { let n = s.u(9) as u8; b = b.expontent_interval(n); ins(&mut a, "number:exponent-interval", n); },
                2 => { let n = s.coin(); b = b.forced_exponent_sign(n); ins(&mut a, "number:forced-exponent-sign", n); },
                3 => { b = b.grouping(); ins(&mut a, "number:grouping", "true"); },
                4 => { let n = s.u(9) as u8; b = b.min_decimal_places(n); ins(&mut a, "number:min-decimal-places", n); },
                5 => { let n = s.u(9) as u8; b = b.min_exponent_digits(n); ins(&mut a, "number:min-exponent-digits", n); },
                6 => { let n = s.u(9) as u8; b = b.min_integer_digits(n); ins(&mut a, "number:min-integer-digits", n); },
            );
            P::ScientificNumber }
        3 => { let mut b = fb::PartFractionBuilder::new(v);
            calls!(b,
                0 => { let n = s.range(1, 1 << 40); b = b.denominator(n); ins(&mut a, "number:denominator-value", n); },
                1 => { b = b.grouping(); ins(&mut a, "number:grouping", "true"); },
                2 => { let n = s.range(1, 999); b = b.max_denominator(n); ins(&mut a, "number:max-denominator-value", n); },
                3 => { let n = s.u(9) as u8; b = b.min_denominator_digits(n); ins(&mut a, "number:min-denominator-digits", n); },
                4 => { let n = s.u(9) as u8; b = b.min_integer_digits(n); ins(&mut a, "number:min-integer-digits", n); },
                5 => { let n = s.u(9) as u8; b = b.min_numerator_digits(n); ins(&mut a, "number:min-numerator-digits", n); },
            );
            P::Fraction }
        4 => { let mut b = fb::PartCurrencySymbolBuilder::new(v);
            if s.coin() {
                let (l, la, co, sc) = s.pickc(LOCS);
                b = b.locale(l);
                ins(&mut a, "number:language", la);
                if let Some(c) = co { ins(&mut a, "number:country", c); }
                if let Some(c) = sc { ins(&mut a, "number:script", c); }
            }
            let t = gen::text(s); b = b.symbol(t.clone()); content = t; b = chosen(s, |t, f| b.if_then(t, |b| { f(); b })); b.build(); P::CurrencySymbol }
        5 => { let mut b = fb::PartDayBuilder::new(v); calls!(b, w @ 0..=3 => styled!(b, w), 4 => cal!(b), 5 => cal!(b)); P::Day }
        6 => { let mut b = fb::PartMonthBuilder::new(v);
            calls!(b, w @ 0..=3 => styled!(b, w), 4 => cal!(b), 5 => { b = b.textual(); ins(&mut a, "number:textual", true); },
                 6 => { b = b.possessive_form(); ins(&mut a, "number:possessive-form", true); }, 7 => cal!(b)); P::Month }
        7 => { let mut b = fb::PartYearBuilder::new(v); calls!(b, w @ 0..=3 => styled!(b, w), 4 => cal!(b), 5 => cal!(b)); P::Year }
        8 => { let mut b = fb::PartEraBuilder::new(v); calls!(b, w @ 0..=3 => styled!(b, w), 4 => cal!(b), 5 => cal!(b)); P::Era }
        9 => { let mut b = fb::PartDayOfWeekBuilder::new(v); calls!(b, w @ 0..=3 => styled!(b, w), 4 => cal!(b), 5 => cal!(b)); P::DayOfWeek }
        10 => { let mut b = fb::PartWeekOfYearBuilder::new(v); calls!(b, 0 => cal!(b)); P::WeekOfYear }
        11 => { let mut b = fb::PartQuarterBuilder::new(v); calls!(b, w @ 0..=3 => styled!(b, w), 4 => cal!(b), 5 => cal!(b)); P::Quarter }
        12 => { let mut b = fb::PartHoursBuilder::new(v); calls!(b, w @ 0..=3 => styled!(b, w)); P::Hours }
        13 => { let mut b = fb::PartMinutesBuilder::new(v); calls!(b, w @ 0..=3 => styled!(b, w)); P::Minutes }
        14 => { let mut b = fb::PartSecondsBuilder::new(v);
            calls!(b, w @ 0..=3 => styled!(b, w), 4 => { let n = s.u(9) as u8; b = b.decimal_places(n); ins(&mut a, "number:decimal-places", n); }); P::Seconds }
        15 => { fb::PartAmPmBuilder::new(v).build(); P::AmPm }
        16 => { fb::PartBooleanBuilder::new(v).build(); P::Boolean }
        17 => { let t = gen::text(s); let b = fb::PartTextBuilder::new(v).text(t.clone()); let b = chosen(s, |t, f| b.if_then(t, |b| { f(); b })); b.build(); content = t; P::Text }
        18 => { fb::PartTextContentBuilder::new(v).build(); P::TextContent }
        _ => {
            let mut p = FormatPart::new(if s.coin() { P::Day } else { P::Text });
            p.set_part_type(P::Text);
            if s.coin() {
                p.set_position(s.range(-9, 9) as i32);
                p.clear_position();
                p.set_content(gen::text(s));
                p.clear_content();
                assert!(p.content().is_none() && p.position().is_none());
            }
            let t = gen::text(s);
            if s.coin() {
                p.set_content(t.clone());
            } else {
                p.append_content(&t);
            }
            let u = gen::text(s);
            p.append_content(&u);
            let w = gen::text(s);
            p.set_attr("loext:bar", w.clone());
            ins(&mut a, "loext:bar", w);
            v.push_part(p);
            content = t + &u;
            P::Text
        }
    };
    MPart { ty, attr: a, pos, content }
}

fn fill_format<T: ValueFormatTrait>(s: &mut Src, v: &mut T, sp: &mut FSpec) {
    v.set_name(sp.name.as_str());
    v.set_origin(origin_of(sp.origin));
    v.set_styleuse(usage_of(sp.usage));
    sp.attr = map(s, 1);
    for (k, x) in &sp.attr {
        v.attrmap_mut().set_attr(k, x.clone());
    }
    sp.text = map(s, 1);
    for (k, x) in &sp.text {
        v.textstyle_mut().set_attr(k, x.clone());
    }
    for _ in 0..s.many(5, 30) {
        let p = part(s, v);
        sp.parts.push(p);
    }
    for _ in 0..s.u(3) {
        let m = ValueStyleMap::new(
            match s.u(3) {
                0 => ValueCondition::value_ge(0),
                1 => ValueCondition::value_lt(s.range(-5, 5) as i32),
                _ => ValueCondition::value_ne(gen::line(s)),
            },
            gen::name(s),
        );
        sp.stylemaps.push(format!("{} {:?}", m.condition(), m.applied_style()));
        v.push_stylemap(m);
    }
}

pub fn gen_format(s: &mut Src, book: &mut WorkBook, want: &mut BTreeMap<String, FSpec>, fods: bool) {
    let mut sp = FSpec {
        kind: s.pickc(&["number", "boolean", "percentage", "currency", "text", "datetime", "time"]),
        name: style_name(s),
        usage: s.pickc(&["automatic", "named", "default"]),
        origin: s.pickc(&["content", "styles"]),
        ..Default::default()
    };
    macro_rules! mk {
        ($ty:ident, $add:ident) => {{
            let mut v = if s.coin() { $ty::new_empty() } else { $ty::new_named(&sp.name) };
            fill_format(s, &mut v, &mut sp);
            let r = book.$add(v);
            assert_eq!(r.as_str(), sp.name);
        }};
    }
    match sp.kind {
        "number" => mk!(ValueFormatNumber, add_number_format),
        "boolean" => mk!(ValueFormatBoolean, add_boolean_format),
        "percentage" => mk!(ValueFormatPercentage, add_percentage_format),
        "currency" => mk!(ValueFormatCurrency, add_currency_format),
        "text" => mk!(ValueFormatText, add_text_format),
        "datetime" => mk!(ValueFormatDateTime, add_datetime_format),
        _ => mk!(ValueFormatTimeDuration, add_timeduration_format),
    }
    let sp = canon_f(sp, fods);
    want.insert(format!("{}/{}", sp.kind, sp.name), sp);
}

fn formats(s: &mut Src, ctx: &mut Ctx) -> R {
    let f = fmt(s);
    let fods = f == Fmt::Fods;
    let mut book = WorkBook::new_empty();
    let mut want = BTreeMap::new();
    let n = 1 + s.many(8, 100);
    for _ in 0..n {
        gen_format(s, &mut book, &mut want, fods);
    }
    book.push_sheet(Sheet::new("s"));
    ctx.nontrivial = want.values().any(|v| v.parts.len() >= 2);
    ctx.label_if(want.values().any(|v| v.parts.iter().any(|p| p.pos.is_some())), "embedded-text");
    ctx.label_if(want.values().any(|v| !v.stylemaps.is_empty()), "stylemap");
    ctx.repr = format!("{:?} {:?}", f, want.values().collect::<Vec<_>>());
    diff_maps("before writing", &dump_formats(&book, fods), &want)?;
    let back = roundtrip(&mut book, f)?;
    diff_maps("after writing, the original", &dump_formats(&book, fods), &want)?;
    let mut full = dump_formats(&plain(f)?, fods);
    full.extend(want);
    diff_maps(&format!("{:?} formats", f), &dump_formats(&back, fods), &full)
}

/// The ready made formats show each part of the value exactly once, in the order of the name.
fn create(s: &mut Src, ctx: &mut Ctx) -> R {
    use spreadsheet_ods::format::*;
    use FormatPartType as P;
    let (l, la, co, sc) = s.pickc(LOCS);
    let (l2, la2, co2, _) = s.pickc(LOCS);
    let dec = s.u(9) as u8;
    let grp = s.coin();
    let sym = gen::text(s);
    let name = gen::name(s);
    let loc = s.coin();
    ctx.nontrivial = true;
    let which = s.u(12);
    ctx.repr = format!("create {} {} {} {} {} {:?}", which, loc, dec, grp, la, sym);
    fn kinds<T: ValueFormatTrait>(v: &T) -> (String, Map, Vec<(P, Map, String)>) {
        (
            v.name().clone(),
            to_map!(v.attrmap()),
            v.parts().iter().map(mpart).map(|p| (p.ty, p.attr, p.content)).collect(),
        )
    }
    let t = |x: &str| (P::Text, Map::new(), x.to_string());
    let long = |p: P| {
        let mut m = Map::new();
        ins(&mut m, "number:style", "long");
        (p, m, String::new())
    };
    let hms = |v: &mut Vec<(P, Map, String)>| v.extend([long(P::Hours), t(":"), long(P::Minutes), t(":"), long(P::Seconds)]);
    // of a number part only the digits are pinned
    let num = |v: &(P, Map, String), fixed: Option<bool>, grouping: bool, dec: u8| -> R {
        eq("number part", v.0, P::Number)?;
        eq("decimal places", v.1.get("number:decimal-places").cloned(), Some(dec.to_string()))?;
        if fixed == Some(true) {
            eq("min decimal places", v.1.get("number:min-decimal-places").cloned(), Some(dec.to_string()))?;
        }
        eq("grouping", v.1.get("number:grouping").cloned(), if grouping { Some("true".to_string()) } else { None })
    };
    let cur = |v: &(P, Map, String)| -> R {
        eq("currency part", v.0, P::CurrencySymbol)?;
        eq("symbol", &v.2, &sym)?;
        eq("symbol language", v.1.get("number:language").map(|v| v.as_str()), Some(la2))?;
        eq("symbol country", v.1.get("number:country").map(|v| v.as_str()), co2)
    };
    let (n, attr, parts) = match which {
        0 => kinds(&if loc { create_loc_boolean_format(&name, l) } else { create_boolean_format(&name) }),
        1 => kinds(&if loc { create_loc_number_format(&name, l, dec, grp) } else { create_number_format(&name, dec, grp) }),
        2 => kinds(&if loc { create_loc_number_format_fixed(&name, l, dec, grp) } else { create_number_format_fixed(&name, dec, grp) }),
        3 => kinds(&if loc { create_loc_percentage_format(&name, l, dec) } else { create_percentage_format(&name, dec) }),
        4 => kinds(&if loc { create_loc_currency_prefix(&name, l, l2, sym.clone()) } else { create_currency_prefix(&name, l2, sym.clone()) }),
        5 => kinds(&if loc { create_loc_currency_suffix(&name, l, l2, sym.clone()) } else { create_currency_suffix(&name, l2, sym.clone()) }),
        6 => kinds(&if loc { create_loc_date_dmy_format(&name, l) } else { create_date_dmy_format(&name) }),
        7 => kinds(&if loc { create_loc_date_mdy_format(&name, l) } else { create_date_mdy_format(&name) }),
        10 => kinds(&if loc { create_loc_datetime_format(&name, l) } else { create_datetime_format(&name) }),
        11 => kinds(&if loc { create_loc_date_dmy_format(&name, l) } else { create_date_iso_format(&name) }),
        8 => kinds(&if loc { create_loc_time_format(&name, l) } else { create_time_of_day_format(&name) }),
        _ => kinds(&if loc { create_loc_time_interval_format(&name, l) } else { create_time_interval_format(&name) }),
    };
    eq("name", &n, &name)?;
    if loc {
        eq("language", attr.get("number:language").map(|v| v.as_str()), Some(la))?;
        eq("country", attr.get("number:country").map(|v| v.as_str()), co)?;
        eq("script", attr.get("number:script").map(|v| v.as_str()), sc)?;
    }
    let len = |n: usize| eq("number of parts", parts.len(), n);
    match which {
        0 => {
            len(1)?;
            eq("boolean", parts[0].0, P::Boolean)
        }
        1 | 2 => {
            len(1)?;
            if loc || which == 2 {
                eq("integer digits", parts[0].1.get("number:min-integer-digits").map(|v| v.as_str()), Some("1"))?;
            }
            num(&parts[0], Some(which == 2), grp, dec)
        }
        3 => {
            len(2)?;
            num(&parts[0], None, false, dec)?;
            eq("percent", &parts[1], &t("%"))
        }
        4 => {
            len(3)?;
            cur(&parts[0])?;
            eq("space", &parts[1], &t(" "))?;
            num(&parts[2], Some(true), true, 2)
        }
        5 => {
            len(3)?;
            num(&parts[0], Some(true), true, 2)?;
            eq("space", &parts[1], &t(" "))?;
            cur(&parts[2])
        }
        10 => {
            let mut w = if loc { vec![long(P::Day), t("."), long(P::Month), t("."), long(P::Year)] } else { vec![long(P::Year), t("-"), long(P::Month), t("-"), long(P::Day)] };
            w.push(t(" "));
            hms(&mut w);
            eq("parts", parts, w)
        }
        11 if !loc => eq("parts", parts, vec![long(P::Year), t("-"), long(P::Month), t("-"), long(P::Day)]),
        6 | 11 => eq("parts", parts, vec![long(P::Day), t("."), long(P::Month), t("."), long(P::Year)]),
        7 => eq("parts", parts, vec![long(P::Month), t("/"), long(P::Day), t("/"), long(P::Year)]),
        _ => {
            let mut v = vec![];
            hms(&mut v);
            eq("parts", parts, v)?;
            eq(
                "truncate",
                attr.get("number:truncate-on-overflow").map(|v| v.as_str()),
                if which == 9 { Some("false") } else { None },
            )
        }
    }
}

// ---------------------------------------------------------------- C09

// ------------------------------------------------------------ the methods of the format types
macro_rules! eq {
    ($what:expr, $a:expr, $b:expr) => {
        if $a != $b {
            return Err(format!("{}: {:?}, expected {:?}", $what, $a, $b));
        }
    };
}
type TOp<T> = fn(&mut T, &mut Src) -> MPart;
fn mp(ty: FormatPartType, attr: &[(&str, String)], content: impl Into<String>) -> MPart {
    MPart { ty, attr: attr.iter().map(|(k, v)| (k.to_string(), v.clone())).collect(), pos: None, content: content.into() }
}
fn nst(s: &mut Src) -> (FormatNumberStyle, String) {
    if s.coin() { (FormatNumberStyle::Short, "short".into()) } else { (FormatNumberStyle::Long, "long".into()) }
}
fn cals(s: &mut Src) -> (FormatCalendarStyle, String) {
    let (a, b) = s.pickc(CALS);
    (a, b.to_string())
}
fn b8(s: &mut Src) -> u8 {
    s.u(20) as u8
}
fn group(g: bool, mut a: Vec<(&'static str, String)>) -> Vec<(&'static str, String)> {
    if g {
        a.push(("number:grouping", "true".into()));
    }
    a
}
macro_rules! tops {
    ($n:ident, $T:ident, [$($k:ident)*]) => {
        #[allow(deprecated)]
        fn $n() -> Vec<TOp<$T>> {
            let mut v: Vec<TOp<$T>> = vec![];
            $( tops!(@ $k, v, $T); )*
            v
        }
    };
    (@ number, $v:ident, $T:ty) => {
        $v.push(|f, s| {
            let (d, g) = (b8(s), s.coin());
            let a = if s.coin() {
                f.push_number(d, g);
                vec![("number:decimal-places", d.to_string()), ("number:min-decimal-places", "0".into()), ("number:min-integer-digits", "1".into())]
            } else {
                f.push_number_fix(d, g);
                vec![("number:decimal-places", d.to_string()), ("number:min-decimal-places", d.to_string()), ("number:min-integer-digits", "1".into())]
            };
            mp(FormatPartType::Number, &group(g, a), "")
        });
        $v.push(|f, s| { let d = b8(s); f.part_number().min_integer_digits(d).build(); mp(FormatPartType::Number, &[("number:min-integer-digits", d.to_string())], "") });
    };
    (@ fill, $v:ident, $T:ty) => {
        $v.push(|f, s| { let c = s.pickc(&['*', 'x', '&', 'ß']); f.part_fill_character().fill_char(c).build(); mp(FormatPartType::FillCharacter, &[], c) });
    };
    (@ scientific, $v:ident, $T:ty) => {
        $v.push(|f, s| { let d = b8(s); if s.coin() { f.push_scientific(d) } else { f.part_scientific().decimal_places(d).build() } mp(FormatPartType::ScientificNumber, &[("number:decimal-places", d.to_string())], "") });
    };
    (@ fraction, $v:ident, $T:ty) => {
        $v.push(|f, s| {
            let (d, a, b, c, g) = (s.range(1, 1 << 20), b8(s), b8(s), b8(s), s.coin());
            f.push_fraction(d, a, b, c, g);
            mp(FormatPartType::Fraction, &group(g, vec![("number:denominator-value", d.to_string()), ("number:min-denominator-digits", a.to_string()), ("number:min-integer-digits", b.to_string()), ("number:min-numerator-digits", c.to_string())]), "")
        });
        $v.push(|f, s| { let d = s.range(1, 99); f.part_fraction().max_denominator(d).build(); mp(FormatPartType::Fraction, &[("number:max-denominator-value", d.to_string())], "") });
    };
    (@ currency, $v:ident, $T:ty) => {
        $v.push(|f, s| {
            let (l, la, co, sc) = s.pickc(LOCS);
            let t = gen::line(s);
            let mut a = vec![("number:language", la.to_string())];
            if let Some(c) = co { a.push(("number:country", c.to_string())); }
            if let Some(c) = sc { a.push(("number:script", c.to_string())); }
            if s.coin() { f.push_currency_symbol(l, t.clone()) } else { f.part_currency().locale(l).symbol(t.clone()).build() }
            mp(FormatPartType::CurrencySymbol, &a, t)
        });
    };
    (@ text, $v:ident, $T:ty) => {
        $v.push(|f, s| { let t = gen::text(s); if s.coin() { f.push_text(t.clone()) } else { f.part_text(t.clone()).build() } mp(FormatPartType::Text, &[], t) });
    };
    (@ text_content, $v:ident, $T:ty) => {
        $v.push(|f, s| { if s.coin() { f.push_text_content() } else { f.part_text_content().build() } mp(FormatPartType::TextContent, &[], "") });
    };
    (@ boolean, $v:ident, $T:ty) => {
        $v.push(|f, s| { if s.coin() { f.push_boolean() } else { f.part_boolean().build() } mp(FormatPartType::Boolean, &[], "") });
    };
    (@ am_pm, $v:ident, $T:ty) => {
        $v.push(|f, s| { if s.coin() { f.push_am_pm() } else { f.part_am_pm().build() } mp(FormatPartType::AmPm, &[], "") });
    };
    (@ time, $v:ident, $T:ty) => {
        tops!(@ am_pm, $v, $T);
        $v.push(|f, s| { let (x, t) = nst(s); if s.coin() { f.push_hours(x) } else { f.part_hours().style(x).build() } mp(FormatPartType::Hours, &[("number:style", t)], "") });
        $v.push(|f, s| { let (x, t) = nst(s); if s.coin() { f.push_minutes(x) } else { f.part_minutes().style(x).build() } mp(FormatPartType::Minutes, &[("number:style", t)], "") });
        $v.push(|f, s| { let ((x, t), d) = (nst(s), b8(s)); if s.coin() { f.push_seconds(x, d) } else { f.part_seconds().style(x).decimal_places(d).build() } mp(FormatPartType::Seconds, &[("number:style", t), ("number:decimal-places", d.to_string())], "") });
    };
    (@ date, $v:ident, $T:ty) => {
        $v.push(|f, s| { let (x, t) = nst(s); if s.coin() { f.push_day(x) } else { f.part_day().style(x).build() } mp(FormatPartType::Day, &[("number:style", t)], "") });
        $v.push(|f, s| {
            let ((x, t), w) = (nst(s), s.coin());
            if s.coin() { f.push_month(x, w) } else { f.part_month().style(x).if_then(w, |p| p.textual()).build() }
            let mut a = vec![("number:style", t)];
            if w { a.push(("number:textual", "true".into())); }
            mp(FormatPartType::Month, &a, "")
        });
        $v.push(|f, s| { let (x, t) = nst(s); if s.coin() { f.push_year(x) } else { f.part_year().style(x).build() } mp(FormatPartType::Year, &[("number:style", t)], "") });
        $v.push(|f, s| { let ((x, t), (c, ct)) = (nst(s), cals(s)); if s.coin() { f.push_era(x, c) } else { f.part_era().calendar(c).style(x).build() } mp(FormatPartType::Era, &[("number:style", t), ("number:calendar", ct)], "") });
        $v.push(|f, s| { let ((x, t), (c, ct)) = (nst(s), cals(s)); if s.coin() { f.push_day_of_week(x, c) } else { f.part_day_of_week().calendar(c).style(x).build() } mp(FormatPartType::DayOfWeek, &[("number:style", t), ("number:calendar", ct)], "") });
        $v.push(|f, s| { let ((x, t), (c, ct)) = (nst(s), cals(s)); if s.coin() { f.push_quarter(x, c) } else { f.part_quarter().calendar(c).style(x).build() } mp(FormatPartType::Quarter, &[("number:style", t), ("number:calendar", ct)], "") });
        $v.push(|f, s| { let (c, ct) = cals(s); if s.coin() { f.push_week_of_year(c) } else { f.part_week_of_year().calendar(c).build() } mp(FormatPartType::WeekOfYear, &[("number:calendar", ct)], "") });
    };
}
tops!(tbool, ValueFormatBoolean, [boolean]);
tops!(tnum, ValueFormatNumber, [number fill scientific fraction text]);
tops!(tperc, ValueFormatPercentage, [number fill text]);
tops!(tcurr, ValueFormatCurrency, [number fill currency text]);
tops!(ttext, ValueFormatText, [fill text text_content]);
tops!(tdate, ValueFormatDateTime, [fill text time date]);
tops!(ttime, ValueFormatTimeDuration, [fill text time]);

/// Histories of the methods of the format types (part_*, push_*, parts_mut, stylemaps_mut and
/// the entries of the workbook) against a list of parts; then the file, read by the XML parser
/// and by the library.
fn typed(s: &mut Src, ctx: &mut Ctx) -> R {
    let f = fmt(s);
    let mut book = WorkBook::new_empty();
    let name = gen::ident(s);
    let kind = s.u(7);
    let mut want: Vec<MPart> = vec![];
    let mut maps: Vec<String> = vec![];
    let mut log = vec![];
    fn steps<T: ValueFormatTrait>(s: &mut Src, v: &mut T, ops: &[TOp<T>], fresh: fn() -> T, want: &mut Vec<MPart>, maps: &mut Vec<String>, log: &mut Vec<&'static str>) {
        for _ in 0..1 + s.u(8) {
            match s.u(16) {
                0 => {
                    let mut o = fresh();
                    let mut more = vec![];
                    for _ in 0..s.u(4) {
                        more.push((s.pick(ops))(&mut o, s));
                    }
                    let mut l: Vec<FormatPart> = o.parts().clone();
                    v.push_parts(&mut l);
                    want.extend(more);
                    log.push("push_parts");
                }
                1 if !want.is_empty() => {
                    let i = s.u(want.len());
                    v.parts_mut().remove(i);
                    want.remove(i);
                    log.push("parts_mut remove");
                }
                2 if want.len() > 1 => {
                    let i = s.u(want.len() - 1);
                    v.parts_mut().swap(i, i + 1);
                    want.swap(i, i + 1);
                    log.push("parts_mut swap");
                }
                3 => {
                    let m = ValueStyleMap::new(ValueCondition::value_ge(s.range(-9, 9) as i32), gen::ident(s));
                    maps.push(format!("{} {:?}", m.condition(), m.applied_style()));
                    if s.coin() { v.push_stylemap(m) } else { v.stylemaps_mut().push(m) }
                    log.push("stylemap");
                }
                4 if !maps.is_empty() => {
                    let i = s.u(maps.len());
                    v.stylemaps_mut().remove(i);
                    maps.remove(i);
                    log.push("stylemaps_mut remove");
                }
                _ => {
                    want.push((s.pick(ops))(v, s));
                    log.push("part");
                }
            }
        }
    }
    macro_rules! go {
        ($T:ident, $ops:ident, $add:ident, $get:ident, $get_mut:ident, $remove:ident, $tag:literal) => {{
            let mut v = $T::new_named(&name);
            let ops = $ops();
            steps(s, &mut v, &ops, $T::new_empty, &mut want, &mut maps, &mut log);
            let r = book.$add(v);
            if s.pct(30) {
                let v = book.$get_mut(r.as_str()).ok_or("format not found after adding")?;
                steps(s, v, &ops, $T::new_empty, &mut want, &mut maps, &mut log);
            }
            if s.pct(20) {
                let v = book.$remove(r.as_str()).ok_or("nothing removed")?;
                eq!("after removing", book.$get(r.as_str()).is_some(), false);
                book.$add(v);
            }
            let sp = spec_f($tag, book.$get(r.as_str()).ok_or("format not found")?);
            ($tag, sp)
        }};
    }
    let (tag, sp) = match kind {
        0 => go!(ValueFormatBoolean, tbool, add_boolean_format, boolean_format, boolean_format_mut, remove_boolean_format, "number:boolean-style"),
        1 => go!(ValueFormatNumber, tnum, add_number_format, number_format, number_format_mut, remove_number_format, "number:number-style"),
        2 => go!(ValueFormatPercentage, tperc, add_percentage_format, percentage_format, percentage_format_mut, remove_percentage_format, "number:percentage-style"),
        3 => go!(ValueFormatCurrency, tcurr, add_currency_format, currency_format, currency_format_mut, remove_currency_format, "number:currency-style"),
        4 => go!(ValueFormatText, ttext, add_text_format, text_format, text_format_mut, remove_text_format, "number:text-style"),
        5 => go!(ValueFormatDateTime, tdate, add_datetime_format, datetime_format, datetime_format_mut, remove_datetime_format, "number:date-style"),
        _ => go!(ValueFormatTimeDuration, ttime, add_timeduration_format, timeduration_format, timeduration_format_mut, remove_timeduration_format, "number:time-style"),
    };
    ctx.label(tag);
    ctx.nontrivial = want.len() >= 2;
    ctx.repr = format!("{:?} {} {:?} {:?}", f, tag, log, want);
    eq!("parts in memory", &sp.parts, &want);
    eq!("style maps in memory", &sp.stylemaps, &maps);
    book.push_sheet(Sheet::new("s"));
    let buf = write(&mut book, f)?;
    // the file
    let mut found = vec![];
    let docs = if f == Fmt::Fods { vec![buf.clone()] } else { crate::xmlp::unzip_map(&buf)?.into_iter().filter(|(n, _)| *n == "content.xml" || *n == "styles.xml").map(|v| v.1).collect() };
    for d in &docs {
        crate::xmlp::parse(d, true)?.walk(&mut |e| {
            if e.name == tag && e.attr("style:name") == Some(&name) {
                let l: Vec<MPart> = e
                    .elems()
                    .filter_map(|c| {
                        use FormatPartType::*;
                        let ty = match c.name.as_str() {
                            "number:number" => Number,
                            "number:fill-character" => FillCharacter,
                            "number:scientific-number" => ScientificNumber,
                            "number:fraction" => Fraction,
                            "number:currency-symbol" => CurrencySymbol,
                            "number:day" => Day,
                            "number:month" => Month,
                            "number:year" => Year,
                            "number:era" => Era,
                            "number:day-of-week" => DayOfWeek,
                            "number:week-of-year" => WeekOfYear,
                            "number:quarter" => Quarter,
                            "number:hours" => Hours,
                            "number:minutes" => Minutes,
                            "number:seconds" => Seconds,
                            "number:am-pm" => AmPm,
                            "number:boolean" => Boolean,
                            "number:text" => Text,
                            "number:text-content" => TextContent,
                            "style:map" | "style:text-properties" => return None,
                            o => panic!("unexpected element {} in {}", o, tag),
                        };
                        Some(MPart { ty, attr: c.attrs.iter().map(|(k, v)| (k.clone(), v.clone())).collect(), pos: None, content: c.text() })
                    })
                    .collect();
                found.push(l);
            }
        });
    }
    eq!("formats of this name in the file", found.len(), 1);
    eq!("parts in the file", &found[0], &want);
    let back = read(&buf, f)?;
    let d = dump_formats(&back, f == Fmt::Fods);
    let b = d.values().find(|v| v.name == name && !v.parts.is_empty() == !want.is_empty() && v.kind == kind_of(tag)).ok_or("format not found after reading")?;
    eq!("parts after reading", &b.parts, &want);
    eq!("style maps after reading", &b.stylemaps, &maps);
    Ok(())
}
fn kind_of(tag: &str) -> &'static str {
    match tag {
        "number:boolean-style" => "boolean",
        "number:number-style" => "number",
        "number:percentage-style" => "percentage",
        "number:currency-style" => "currency",
        "number:text-style" => "text",
        "number:date-style" => "datetime",
        _ => "time",
    }
}

pub fn c09() -> Check {
    Check {
        id: "C09",
        rule: "workbooks with 1-4 page styles (page, header and footer properties, usage) and 1-4 master pages (names, links, six headers/footers with regions or content of nested paragraphs and headings, shown or hidden), written and read back; non-trivial: a header or footer with content",
        parts: vec![Part { name: "roundtrip", quick: 32_000, thorough: 300_000, run: pages }],
        probes: vec![],
    }
}

fn hf_str(h: &HeaderFooter, main: bool) -> String {
    if h.is_empty() && !main {
        return "-".into();
    }
    let l = |v: &Vec<XmlTag>| v.iter().map(gen::xml_str).collect::<String>();
    format!("{} L{} C{} R{} T{}", h.display(), l(h.left()), l(h.center()), l(h.right()), l(h.content()))
}
fn usage_str(u: OdsResult<Option<MasterPageUsage>>) -> String {
    match u {
        Ok(Some(v)) => v.to_string(),
        Ok(None) => "-".into(),
        Err(e) => e.to_string(),
    }
}
pub fn dump_pages(b: &WorkBook) -> BTreeMap<String, String> {
    let mut r = BTreeMap::new();
    for p in b.iter_pagestyles() {
        r.insert(
            format!("page/{}", p.name()),
            format!(
                "usage={} {{{}}} h{{{}}} f{{{}}}",
                usage_str(p.page_usage()),
                attrs!(p.style()),
                attrs!(p.headerstyle().style()),
                attrs!(p.footerstyle().style())
            ),
        );
    }
    for m in b.iter_masterpages() {
        r.insert(
            format!("master/{}", m.name()),
            format!(
                "{:?} {:?} {:?}\n h={}\n h1={}\n hl={}\n f={}\n f1={}\n fl={}",
                m.display_name(),
                m.pagestyle().map(|v| v.as_str()),
                m.next_masterpage().map(|v| v.as_str()),
                hf_str(m.header(), true),
                hf_str(m.header_first(), false),
                hf_str(m.header_left(), false),
                hf_str(m.footer(), true),
                hf_str(m.footer_first(), false),
                hf_str(m.footer_left(), false)
            ),
        );
    }
    r
}

fn hf_tag(s: &mut Src) -> XmlTag {
    match s.u(4) {
        0 | 1 => paragraph(s),
        2 => gen::xmltag(s, &["text:p"], 2),
        _ => gen::xmltag(s, &["text:h"], 1),
    }
}
fn gen_hf(s: &mut Src, ctx: &mut Ctx, h: &mut HeaderFooter) -> ([Vec<String>; 4], bool) {
    let mut m: [Vec<String>; 4] = Default::default();
    // displayed unless told otherwise
    let mut d = true;
    if s.pct(50) {
        d = s.coin();
        h.set_display(d);
    }
    if s.pct(60) {
        let regions = s.coin();
        let mut n = 0;
        while s.more(n, 0, 3, 8) {
            n += 1;
            let i = if regions { s.u(3) } else { 3 };
            macro_rules! list {
                ($set:ident, $add:ident, $clear:expr, $mutable:ident) => {
                    match s.u(8) {
                        0 => { $clear; m[i].clear(); }
                        1 => {
                            let l: Vec<XmlTag> = (0..s.u(3)).map(|_| hf_tag(s)).collect();
                            m[i] = l.iter().map(gen::xml_str).collect();
                            h.$set(l);
                        }
                        2 if !m[i].is_empty() => {
                            let k = s.u(m[i].len());
                            h.$mutable().remove(k);
                            m[i].remove(k);
                        }
                        3 | 4 => { let t = hf_tag(s); m[i].push(gen::xml_str(&t)); h.$mutable().push(t); }
                        _ => { let t = hf_tag(s); m[i].push(gen::xml_str(&t)); h.$add(t); }
                    }
                };
            }
            match i {
                0 => list!(set_left, add_left, h.clear_left(), left_mut),
                1 => list!(set_center, add_center, h.clear_center(), center_mut),
                2 => list!(set_right, add_right, h.clear_right(), right_mut),
                _ => list!(set_content, add_content, h.content_mut().clear(), content_mut),
            }
            assert_eq!(h.is_empty(), m.iter().all(|v| v.is_empty()), "is_empty()");
        }
        if m.iter().any(|v| !v.is_empty()) {
            ctx.label(if regions { "region" } else { "content" });
            ctx.nontrivial = true;
        }
    }
    (m, d)
}
fn model_hf(m: &[Vec<String>; 4], d: bool, main: bool) -> String {
    if !main && m.iter().all(|v| v.is_empty()) {
        return "-".into();
    }
    format!("{} L{} C{} R{} T{}", d, m[0].concat(), m[1].concat(), m[2].concat(), m[3].concat())
}

pub fn gen_pages(s: &mut Src, ctx: &mut Ctx, book: &mut WorkBook) -> BTreeMap<String, String> {
    let mut want = BTreeMap::new();
    let fm = |m: &Map| attrs!(m);
    for _ in 0..s.u(4) {
        let name = style_name(s);
        let mut p = PageStyle::new(&name);
        let (a, b, c) = (map(s, 2), map(s, 1), map(s, 1));
        for (k, v) in &a {
            p.style_mut().set_attr(k, v.clone());
        }
        for (k, v) in &b {
            p.headerstyle_mut().style_mut().set_attr(k, v.clone());
        }
        for (k, v) in &c {
            p.footerstyle_mut().style_mut().set_attr(k, v.clone());
        }
        let mut u = "-".to_string();
        if s.coin() {
            let (x, n) = match s.u(4) {
                0 => (MasterPageUsage::All, "all"),
                1 => (MasterPageUsage::Left, "left"),
                2 => (MasterPageUsage::Mirrored, "mirrored"),
                _ => (MasterPageUsage::Right, "right"),
            };
            p.set_page_usage(x);
            u = n.to_string();
        }
        want.insert(format!("page/{}", name), format!("usage={} {{{}}} h{{{}}} f{{{}}}", u, fm(&a), fm(&b), fm(&c)));
        book.add_pagestyle(p);
    }
    for _ in 0..1 + s.u(3) {
        let name = style_name(s);
        let mut m = MasterPage::new(&name);
        let dn = if s.coin() { gen::text(s) } else { String::new() };
        m.set_display_name(dn.clone());
        let ps = s.opt(50, gen::name);
        if let Some(ps) = &ps {
            m.set_pagestyle(&PageStyleRef::from(ps.as_str()));
        }
        let nx = s.opt(40, gen::name);
        if let Some(nx) = &nx {
            m.set_next_masterpage(&MasterPageRef::from(nx.as_str()));
        }
        let mut hs = vec![];
        for i in 0..6 {
            let main = i == 0 || i == 3;
            if s.coin() {
                let h = match i {
                    0 => m.header_mut(),
                    1 => m.header_first_mut(),
                    2 => m.header_left_mut(),
                    3 => m.footer_mut(),
                    4 => m.footer_first_mut(),
                    _ => m.footer_left_mut(),
                };
                let (x, d) = gen_hf(s, ctx, h);
                hs.push(model_hf(&x, d, main));
                continue;
            }
            let mut h = HeaderFooter::new();
            let (x, d) = gen_hf(s, ctx, &mut h);
            hs.push(model_hf(&x, d, main));
            match i {
                0 => m.set_header(h),
                1 => m.set_header_first(h),
                2 => m.set_header_left(h),
                3 => m.set_footer(h),
                4 => m.set_footer_first(h),
                _ => m.set_footer_left(h),
            }
        }
        want.insert(
            format!("master/{}", name),
            format!("{:?} {:?} {:?}\n h={}\n h1={}\n hl={}\n f={}\n f1={}\n fl={}", dn, ps, nx, hs[0], hs[1], hs[2], hs[3], hs[4], hs[5]),
        );
        book.add_masterpage(m);
    }
    want
}

fn pages(s: &mut Src, ctx: &mut Ctx) -> R {
    let f = fmt(s);
    let mut book = WorkBook::new_empty();
    let want = gen_pages(s, ctx, &mut book);
    book.push_sheet(Sheet::new("s"));
    ctx.repr = format!("{:?} {:?}", f, want);
    diff_maps("before writing", &dump_pages(&book), &want)?;
    let back = roundtrip(&mut book, f)?;
    diff_maps(&format!("{:?} pages", f), &dump_pages(&back), &want)
}

pub fn cellref(s: &mut Src) -> CellRef {
    let (r, c) = (c_refs::index(s) % 1_048_576, c_refs::index(s) % 16_384);
    if s.coin() {
        CellRef::remote(gen::name(s), r, c)
    } else {
        CellRef::local(r, c)
    }
}

/// Any condition the public constructors can build.
pub fn condition(s: &mut Src) -> Condition {
    match s.u(12) {
        0 => Condition::content_eq(gen::line(s)),
        1 => Condition::content_ne(s.range(-9, 9)),
        2 => Condition::content_lt(gen::f64_small(s)),
        3 => Condition::content_ge(s.coin()),
        4 => Condition::content_text_length_le(s.r32(0, 99)),
        5 => Condition::content_text_length_is_between(s.r32(0, 9), s.r32(0, 99)),
        6 => Condition::content_is_in_list(&s.vec(0, 2, 5, gen::line)),
        7 => Condition::content_is_date_and(Condition::content_gt(s.range(0, 40000))),
        8 => Condition::content_is_time_and(Condition::content_le(0.5)),
        9 => Condition::content_is_decimal_number_and(Condition::content_text_length_gt(1)),
        10 => Condition::content_is_whole_number_and(Condition::content_eq("x")),
        _ => Condition::is_true_formula(gen::line(s)),
    }
}
