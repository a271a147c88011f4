//! Shared generators.
use crate::engine::Src;
use chrono::{Duration, NaiveDate, NaiveDateTime, NaiveTime};
use spreadsheet_ods::xmltree::{XmlContent, XmlTag};
use spreadsheet_ods::Length;

/// Characters that XML can carry. Index 0 is the simplest.
const CHARS: &[&str] = &[
    "a", "b", "Z", "0", " ", "<", ">", "&", "\"", "'", "\\", "\n", "\t", "\r", "ä", "€", "日", "😀", "]]>", "&amp;", "&lt;", "&#65;",
    "<b>", "</text:p>", "<!--", "-->", "<![CDATA[", "?>", "%", "#", "$", "{", "}", "[", "]", ";", ":", ".", ",", "=", "/", "_", "-", "\u{a0}",
    "\u{2028}", "\u{85}", "\u{feff}", "\u{fffd}", "  ", "\r\n", "of:", "xmlns", "\u{e000}", "\u{301}",
];

/// Any text XML 1.0 can carry, including the nasty parts.
pub fn text(s: &mut Src) -> String {
    text_n(s, 0, 5, 14)
}
pub fn text1(s: &mut Src) -> String {
    text_n(s, 1, 4, 12)
}
pub fn text_n(s: &mut Src, min: usize, avg: usize, max: usize) -> String {
    let mut r = String::new();
    let mut n = 0;
    while s.more(n, min, avg, max) {
        n += 1;
        match s.weighted(&[6, 8, 1]) {
            0 => r.push((b'a' + s.u(26) as u8) as char),
            1 => r.push_str(s.pick(CHARS)),
            _ => {
                // any valid xml char
                let c = match s.u(3) {
                    0 => 0x20 + s.draw(0xd800 - 0x20),
                    1 => 0xe000 + s.draw(0xfffe - 0xe000),
                    _ => 0x10000 + s.draw(0x100000),
                };
                if let Some(c) = char::from_u32(c as u32) {
                    r.push(c)
                }
            }
        }
    }
    // some are long
    if !r.is_empty() && max > 5 && s.u(100) == 99 {
        let n = s.pickc(&[40usize, 130, 260, 600, 1100, 4200, 9000, 66_000]);
        let t = r.clone();
        while r.len() < n {
            r.push_str(&t);
        }
    }
    r
}
/// text on one line
pub fn line(s: &mut Src) -> String {
    text(s).replace(['\n', '\r'], "~")
}
pub fn line1(s: &mut Src) -> String {
    text1(s).replace(['\n', '\r'], "~")
}
/// Identifier-like name.
pub fn ident(s: &mut Src) -> String {
    let mut r = String::new();
    let n = 1 + s.u(5);
    for i in 0..n {
        let t: &[u8] = if i == 0 { b"abcxyzABC" } else { b"abcxyzABC012_-" };
        r.push(t[s.u(t.len())] as char);
    }
    r
}
/// Mostly ident, sometimes anything non-empty.
pub fn name(s: &mut Src) -> String {
    if s.pct(30) {
        let t = line1(s);
        if t.is_empty() { "n".into() } else { t }
    } else {
        ident(s)
    }
}

pub fn f64_any(s: &mut Src) -> f64 {
    match s.weighted(&[4, 3, 3, 2, 2, 1]) {
        0 => s.range(-20, 20) as f64,
        1 => s.range(-1_000_000, 1_000_000) as f64 / 1000.0,
        2 => {
            let m = s.range(1, 9_999_999) as f64;
            let e = s.range(-320, 300) as i32;
            let v: f64 = format!("{}e{}", m, e).parse().unwrap();
            if s.coin() { -v } else { v }
        }
        3 => {
            let v = f64::from_bits(s.draw(0));
            if v.is_finite() { v } else { 0.1 }
        }
        4 => s.pickc(&[
            0.0,
            -0.0,
            f64::INFINITY,
            f64::NEG_INFINITY,
            f64::NAN,
            f64::MAX,
            f64::MIN,
            f64::MIN_POSITIVE,
            5e-324,
            1e15,
            1e16,
            1e17,
            1e21,
            123456789012345680.0,
            0.1 + 0.2,
            1.0 / 3.0,
            9007199254740993.0,
        ]),
        _ => s.draw(0) as i64 as f64,
    }
}
pub fn f64_small(s: &mut Src) -> f64 {
    s.range(-9999, 9999) as f64 / s.pickc(&[1.0, 10.0, 100.0, 8.0])
}

pub fn datetime(s: &mut Src) -> NaiveDateTime {
    let y = match s.weighted(&[6, 2, 1, 1, 1]) {
        0 => s.range(1990, 2030),
        1 => s.range(1, 9999),
        2 => s.range(10000, 262_142),
        3 => s.range(-262_143, 0),
        _ => s.pickc(&[0, 1, -1, 99, 999, 1000, 1582, 1899, 1900, 1904, 1970, 2000, 9999, 10_000, 10_001, -9999, -10_000, 99_999, 100_000, 262_142, -262_143]),
    } as i32;
    let doy = if s.pct(80) { 1 + s.u(366) as u32 } else { s.pickc(&[1, 31, 32, 59, 60, 61, 365, 366]) };
    let d = NaiveDate::from_yo_opt(y, doy).unwrap_or_else(|| NaiveDate::from_yo_opt(y, 1).unwrap());
    let secs = if s.coin() { s.u(86400) as u32 } else { s.pickc(&[0u32, 86399, 43200, 43199, 1, 59, 60, 3599, 3600]) };
    NaiveDateTime::new(d, NaiveTime::from_num_seconds_from_midnight_opt(secs, nanos(s)).unwrap())
}
fn nanos(s: &mut Src) -> u32 {
    match s.weighted(&[4, 3, 2, 2, 1]) {
        0 => 0,
        1 => s.u(1000) as u32 * 1_000_000,
        2 => s.u(1_000_000) as u32 * 1000,
        3 => s.u(1_000_000_000) as u32,
        _ => s.pickc(&[1u32, 999_999_999, 10, 100_000_000, 1000, 999_999, 1_000_001]),
    }
}
/// Over the whole range.
pub fn duration(s: &mut Src) -> Duration {
    let secs = match s.weighted(&[8, 6, 2, 1, 3]) {
        0 => s.range(0, 200_000),
        1 => s.range(-200_000, 200_000),
        2 => s.range(-400_000_000_000, 400_000_000_000),
        3 => s.range(-9_223_372_036_854_774, 9_223_372_036_854_774),
        _ => s.pickc(&[0, -1, 1, 59, 60, 3599, 3600, 86_399, 86_400, -59, -60, -3600, -86_400]),
    };
    if s.pct(1) {
        return s.pickc(&[Duration::zero(), Duration::MAX, Duration::MIN]);
    }
    Duration::seconds(secs) + Duration::nanoseconds(nanos(s) as i64)
}

pub fn length(s: &mut Src) -> Length {
    let v = s.range(1, 5000) as f64 / s.pickc(&[1.0, 10.0, 100.0, 1000.0]);
    match s.u(7) {
        0 => Length::Cm(v),
        1 => Length::Mm(v),
        2 => Length::In(v),
        3 => Length::Pt(v),
        4 => Length::Pc(v),
        5 => Length::Em(v),
        _ => Length::Cm(v / 3.0),
    }
}

const TAGS: &[&str] = &["text:span", "text:a", "text:s", "text:tab", "text:line-break", "text:p", "draw:x", "loext:bar", "text:h", "text:list"];
const ATTRS: &[&str] = &["text:style-name", "xlink:href", "text:c", "loext:a", "loext:b", "style:name", "xml:id"];

/// Arbitrary xml subtree.
pub fn xmltag(s: &mut Src, names: &[&str], depth: usize) -> XmlTag {
    let mut t = XmlTag::new(s.pickc(names));
    xml_fill(s, &mut t, depth);
    t
}
pub fn xml_fill(s: &mut Src, t: &mut XmlTag, depth: usize) {
    for _ in 0..s.u(3) {
        let k = s.pickc(ATTRS);
        let v = text(s);
        t.set_attr(k, v);
    }
    let mut n = 0;
    let mut last_text = false;
    while s.more(n, 0, 1, 5) {
        n += 1;
        if depth > 0 && s.coin() {
            let c = xmltag(s, TAGS, depth - 1);
            t.add_tag(c);
            last_text = false;
        } else if !last_text {
            t.add_text(text1(s));
            last_text = true;
        }
    }
}

/// Canonical form: adjacent texts are joined, empty ones dropped.
pub fn xml_str(t: &XmlTag) -> String {
    let mut o = String::new();
    xml_into(t, &mut o);
    o
}
fn xml_into(t: &XmlTag, o: &mut String) {
    o.push('<');
    o.push_str(t.name());
    let mut a: Vec<_> = t.attrmap().iter().map(|(k, v)| format!(" {}={:?}", k, v)).collect();
    a.sort();
    for a in a {
        o.push_str(&a);
    }
    o.push('>');
    xml_list_into(t.content(), o);
    o.push_str("</>");
}
pub fn xml_list_into(c: &[XmlContent], o: &mut String) {
    let mut txt = String::new();
    for c in c {
        match c {
            XmlContent::Text(x) => txt.push_str(x),
            XmlContent::Tag(x) => {
                if !txt.is_empty() {
                    o.push_str(&format!("{:?}", txt));
                    txt.clear();
                }
                xml_into(x, o);
            }
        }
    }
    if !txt.is_empty() {
        o.push_str(&format!("{:?}", txt));
    }
}
pub fn xml_list_str(c: &[XmlContent]) -> String {
    let mut o = String::new();
    xml_list_into(c, &mut o);
    o
}
