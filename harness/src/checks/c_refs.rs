//! C21: cell references.
use crate::engine::*;
use crate::gen;
use spreadsheet_ods::refs::{parse_cellrange, parse_cellranges, parse_cellref, parse_colrange, parse_rowrange};
use spreadsheet_ods::{CCol, CRow, CellRange, CellRef, ColRange, RowRange};

pub fn check() -> Check {
    Check {
        id: "C21",
        rule: "random references (document, sheet name, absolute flags, indexes over the whole u32 range) formatted and compared with a reference grammar and parsed back; setter histories on references of each kind against a record of the fields; random strings parsed by the library and by a reference recogniser; non-trivial: has a sheet name that needs quotes, a document, an absolute flag or an index of more than 2 letters/4 digits, or (strings) at least one parser result is Ok",
        parts: vec![
            Part { name: "format-parse", quick: 240_000, thorough: 2_000_000, run: format_parse },
            Part { name: "parse-any", quick: 240_000, thorough: 2_000_000, run: parse_any },
            Part { name: "lists", quick: 60_000, thorough: 300_000, run: lists },
            Part { name: "setters", quick: 60_000, thorough: 400_000, run: setters },
            Part { name: "formula-builders", quick: 80_000, thorough: 300_000, run: builders },
        ],
        probes: vec![],
    }
}

/// reference: bijective base 26.
pub fn colname(col: u32) -> String {
    let mut c = col as u64 + 1;
    let mut r = vec![];
    while c > 0 {
        c -= 1;
        r.push((b'A' + (c % 26) as u8) as char);
        c /= 26;
    }
    r.iter().rev().collect()
}
fn ref_col(s: &str) -> Option<u32> {
    if s.is_empty() || s.len() > 8 {
        return None;
    }
    let mut v = 0u64;
    for c in s.bytes() {
        if !c.is_ascii_uppercase() {
            return None;
        }
        v = v * 26 + (c - b'A' + 1) as u64;
    }
    u32::try_from(v - 1).ok()
}
fn ref_row(s: &str) -> Option<u32> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let t = s.trim_start_matches('0');
    if t.is_empty() || t.len() > 12 {
        return None;
    }
    u32::try_from(t.parse::<u64>().ok()? - 1).ok()
}

pub fn index(s: &mut Src) -> u32 {
    match s.weighted(&[5, 4, 3, 2]) {
        0 => s.r32(0, 30),
        1 => s.r32(0, 1100),
        2 => s.pickc(&[25u32, 26, 51, 52, 700, 701, 702, 703, 18277, 18278, 16383, 1048575, 475253, 475254, 9, 99, 999, 12356629, 12356630, 321272405, 321272406, u32::MAX, u32::MAX - 1]),
        _ => s.draw(1 << 32) as u32,
    }
}
fn sheetname(s: &mut Src) -> String {
    match s.weighted(&[3, 3, 3]) {
        0 => gen::ident(s).replace('-', "_"),
        1 => gen::text_n(s, 0, 3, 8),
        _ => {
            let mut r = String::new();
            let n = 1 + s.u(4);
            for _ in 0..n {
                r.push(s.pickc(&['a', '1', '\'', '.', ' ', '$', '#', ':', '[', ']', '-', '!', 'ü', '_', '\'', '(', '"', '\n']));
            }
            r
        }
    }
}

struct P {
    iri: Option<String>,
    table: Option<String>,
    to_table: Option<String>,
    r: (bool, u32),
    c: (bool, u32),
    r2: (bool, u32),
    c2: (bool, u32),
}
fn parts(s: &mut Src, ctx: &mut Ctx) -> P {
    let p = P {
        iri: s.opt(20, sheetname),
        table: s.opt(60, sheetname),
        to_table: s.opt(20, sheetname),
        r: (s.coin(), index(s)),
        c: (s.coin(), index(s)),
        r2: (s.coin(), index(s)),
        c2: (s.coin(), index(s)),
    };
    ctx.nontrivial = p.iri.is_some() || p.table.as_ref().map(|t| !plain(t)).unwrap_or(false) || p.r.0 || p.c.0 || p.r.1 > 999 || p.c.1 > 701;
    ctx.label_if(p.iri.is_some(), "document");
    ctx.label_if(p.table.as_ref().map(|t| !plain(t)).unwrap_or(false), "quoted-sheet");
    ctx.label_if(p.c.1 > 18277, "long-column");
    p
}
fn plain(t: &str) -> bool {
    !t.is_empty() && t.chars().all(|c| !c.is_ascii() || c.is_ascii_alphanumeric() || c == '_')
}

/// Splits a formatted reference with an independent recogniser.
#[derive(Debug, PartialEq, Clone)]
struct Pt {
    table: Option<String>,
    col: Option<(bool, u32)>,
    row: Option<(bool, u32)>,
}
#[derive(Debug, PartialEq, Clone)]
struct Rf {
    iri: Option<String>,
    from: Pt,
    to: Option<Pt>,
}
fn quoted<'a>(s: &'a str) -> Option<(String, &'a str)> {
    let mut it = s.char_indices();
    if it.next()?.1 != '\'' {
        return None;
    }
    let mut r = String::new();
    let mut i = 1;
    let b: Vec<(usize, char)> = s.char_indices().collect();
    while i < b.len() {
        if b[i].1 == '\'' {
            if i + 1 < b.len() && b[i + 1].1 == '\'' {
                r.push('\'');
                i += 2;
                continue;
            }
            return Some((r, &s[b[i].0 + 1..]));
        }
        r.push(b[i].1);
        i += 1;
    }
    None
}
fn point<'a>(s: &'a str, want_col: bool, want_row: bool) -> Option<(Pt, &'a str)> {
    let mut s = s.strip_prefix('$').unwrap_or(s);
    let mut table = None;
    if s.starts_with('\'') {
        let (t, rest) = quoted(s)?;
        table = Some(t);
        s = rest;
    } else {
        let n = s.find(|c: char| c.is_ascii() && !(c.is_ascii_alphanumeric() || c == '_')).unwrap_or(s.len());
        if n > 0 {
            table = Some(s[..n].to_string());
            s = &s[n..];
        }
    }
    s = s.strip_prefix('.')?;
    let mut p = Pt { table, col: None, row: None };
    if want_col {
        let a = s.starts_with('$');
        let t = s.strip_prefix('$').unwrap_or(s);
        let n = t.find(|c: char| !c.is_ascii_alphabetic()).unwrap_or(t.len());
        p.col = Some((a, ref_col(&t[..n])?));
        s = &t[n..];
    }
    if want_row {
        let a = s.starts_with('$');
        let t = s.strip_prefix('$').unwrap_or(s);
        let n = t.find(|c: char| !c.is_ascii_digit()).unwrap_or(t.len());
        p.row = Some((a, ref_row(&t[..n])?));
        s = &t[n..];
    }
    Some((p, s))
}
fn recognise(s: &str, col: bool, row: bool, range: bool) -> Option<Rf> {
    let mut rest = s;
    let mut iri = None;
    if let Some((t, r)) = quoted(s) {
        if let Some(r) = r.strip_prefix('#') {
            iri = Some(t);
            rest = r;
        }
    }
    let (from, rest) = point(rest, col, row)?;
    let (to, rest) = if range {
        let r = rest.strip_prefix(':')?;
        let (to, r) = point(r, col, row)?;
        (Some(to), r)
    } else {
        (None, rest)
    };
    if !rest.is_empty() {
        return None;
    }
    Some(Rf { iri, from, to })
}

fn rf_cell(v: &CellRef) -> Rf {
    Rf {
        iri: v.iri().cloned(),
        from: Pt { table: v.table().cloned(), col: Some((v.col_abs(), v.col())), row: Some((v.row_abs(), v.row())) },
        to: None,
    }
}
fn rf_range(v: &CellRange) -> Rf {
    Rf {
        iri: v.iri().cloned(),
        from: Pt { table: v.table().cloned(), col: Some((v.col_abs(), v.col())), row: Some((v.row_abs(), v.row())) },
        to: Some(Pt { table: v.to_table().cloned(), col: Some((v.to_col_abs(), v.to_col())), row: Some((v.to_row_abs(), v.to_row())) }),
    }
}
fn rf_colr(v: &ColRange) -> Rf {
    Rf {
        iri: v.iri().cloned(),
        from: Pt { table: v.table().cloned(), col: Some((v.col_abs(), v.col())), row: None },
        to: Some(Pt { table: v.to_table().cloned(), col: Some((v.to_col_abs(), v.to_col())), row: None }),
    }
}
fn rf_rowr(v: &RowRange) -> Rf {
    Rf {
        iri: v.iri().cloned(),
        from: Pt { table: v.table().cloned(), col: None, row: Some((v.row_abs(), v.row())) },
        to: Some(Pt { table: v.to_table().cloned(), col: None, row: Some((v.to_row_abs(), v.to_row())) }),
    }
}
fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> R {
    if got == want { Ok(()) } else { Err(format!("{}: got {:?}, want {:?}", what, got, want)) }
}

fn format_parse(s: &mut Src, ctx: &mut Ctx) -> R {
    let kind = s.u(4);
    let p = parts(s, ctx);
    let (txt, want, parsed, conv, formula) = match kind {
        0 => {
            let v = CellRef::new_all(p.iri.clone(), p.table.clone(), p.r.0, p.r.1, p.c.0, p.c.1);
            let t = v.to_string();
            let pr = parse_cellref(&t).map(|q| (q == v, rf_cell(&q)));
            let cv = CellRef::try_from(t.as_str()).map(|q| q == v).unwrap_or(false);
            let w = Rf {
                iri: p.iri.clone(),
                from: Pt { table: p.table.clone(), col: Some(p.c), row: Some(p.r) },
                to: None,
            };
            eq("getters", rf_cell(&v), w.clone())?;
            (t, w, pr, cv, v.to_formula())
        }
        1 => {
            let v = CellRange::new_all(p.iri.clone(), p.table.clone(), p.r.0, p.r.1, p.c.0, p.c.1, p.to_table.clone(), p.r2.0, p.r2.1, p.c2.0, p.c2.1);
            let t = v.to_string();
            let pr = parse_cellrange(&t).map(|q| (q == v, rf_range(&q)));
            let cv = CellRange::try_from(t.as_str()).map(|q| q == v).unwrap_or(false);
            let w = Rf {
                iri: p.iri.clone(),
                from: Pt { table: p.table.clone(), col: Some(p.c), row: Some(p.r) },
                to: Some(Pt { table: p.to_table.clone(), col: Some(p.c2), row: Some(p.r2) }),
            };
            eq("getters", rf_range(&v), w.clone())?;
            (t, w, pr, cv, v.to_formula())
        }
        2 => {
            let v = ColRange::new_all(p.iri.clone(), p.table.clone(), p.c.0, p.c.1, p.to_table.clone(), p.c2.0, p.c2.1);
            let t = v.to_string();
            let pr = parse_colrange(&t).map(|q| (q == v, rf_colr(&q)));
            let cv = ColRange::try_from(t.as_str()).map(|q| q == v).unwrap_or(false);
            let w = Rf {
                iri: p.iri.clone(),
                from: Pt { table: p.table.clone(), col: Some(p.c), row: None },
                to: Some(Pt { table: p.to_table.clone(), col: Some(p.c2), row: None }),
            };
            eq("getters", rf_colr(&v), w.clone())?;
            (t, w, pr, cv, v.to_formula())
        }
        _ => {
            let v = RowRange::new_all(p.iri.clone(), p.table.clone(), p.r.0, p.r.1, p.to_table.clone(), p.r2.0, p.r2.1);
            let t = v.to_string();
            let pr = parse_rowrange(&t).map(|q| (q == v, rf_rowr(&q)));
            let cv = RowRange::try_from(t.as_str()).map(|q| q == v).unwrap_or(false);
            let w = Rf {
                iri: p.iri.clone(),
                from: Pt { table: p.table.clone(), col: None, row: Some(p.r) },
                to: Some(Pt { table: p.to_table.clone(), col: None, row: Some(p.r2) }),
            };
            eq("getters", rf_rowr(&v), w.clone())?;
            (t, w, pr, cv, v.to_formula())
        }
    };
    ctx.repr = format!("{} {:?}", kind, txt);
    // The text must denote the same reference by the grammar.
    let rec = recognise(&txt, kind != 3, kind != 2, kind != 0);
    eq(&format!("reference grammar for {:?}", txt), rec, Some(want.clone()))?;
    match parsed {
        Ok((same, q)) => {
            eq(&format!("parsed {:?}", txt), q, want)?;
            if !same {
                return Err(format!("{:?} parses to a different reference", txt));
            }
        }
        Err(e) => return Err(format!("{:?} doesn't parse: {}", txt, e)),
    }
    if !conv {
        return Err(format!("{:?} doesn't convert back", txt));
    }
    eq("formula form", formula, format!("[{}]", txt))?;
    // the simple parts too
    let mut cc = CCol::new(p.c.1);
    cc.set_col_abs(p.c.0);
    eq("column", cc.to_string(), format!("{}{}", if p.c.0 { "$" } else { "" }, colname(p.c.1)))?;
    let mut cr = CRow::new(p.r.1);
    cr.set_row_abs(p.r.0);
    eq("row", cr.to_string(), format!("{}{}", if p.r.0 { "$" } else { "" }, p.r.1 as u64 + 1))?;
    Ok(())
}

/// A reference after any sequence of setters is the one with these fields.
fn setters(s: &mut Src, ctx: &mut Ctx) -> R {
    let kind = s.u(4);
    let idx = |s: &mut Src| if s.coin() { s.r32(0, 12) } else { index(s) };
    let mut log: Vec<String> = vec![];
    let n = 1 + s.u(10);
    macro_rules! run {
        ($v:ident, $w:ident, $rf:ident, $parse:ident, $( $k:pat => $e:expr ),* $(,)?) => {{
            for _ in 0..n {
                match s.u(16) { $( $k => { log.push(stringify!($e).to_string()); $e } )* _ => {} }
                eq(&format!("fields after {:?}", log), $rf(&$v), $w.clone())?;
            }
            let t = $v.to_string();
            eq(&format!("reference grammar for {:?} after {:?}", t, log), recognise(&t, kind != 3, kind != 2, kind != 0), Some($w.clone()))?;
            eq("formula form", $v.to_formula(), format!("[{}]", t))?;
            let p = $parse(&t).map_err(|e| format!("{:?} doesn't parse: {}", t, e))?;
            eq("parsed again", $rf(&p), $w.clone())?;
            eq("equality", p == $v, true)?;
            ctx.repr = format!("{} {:?} {:?}", kind, log, t);
        }};
    }
    fn pt(c: Option<u32>, r: Option<u32>) -> Pt {
        Pt { table: None, col: c.map(|c| (false, c)), row: r.map(|r| (false, r)) }
    }
    let (a, b, c, d) = (idx(s), idx(s), idx(s), idx(s));
    // the constructors of ranges want them in order
    let (a, b, c, d) = match kind {
        1 => (a.min(c), b.min(d), a.max(c), b.max(d)),
        2 | 3 => (a.min(b), a.max(b), c, d),
        _ => (a, b, c, d),
    };
    let t0 = s.coin().then(|| sheetname(s));
    match kind {
        0 => {
            let mut v = match &t0 { Some(t) => CellRef::remote(t.clone(), a, b), None if a == 0 && b == 0 => CellRef::new(), None => CellRef::local(a, b) };
            let mut w = Rf { iri: None, from: pt(Some(b), Some(a)), to: None };
            w.from.table = t0;
            run!(v, w, rf_cell, parse_cellref,
                0 => { let t = sheetname(s); v.set_iri(t.clone()); w.iri = Some(t); },
                1 => { let t = sheetname(s); v.set_table(t.clone()); w.from.table = Some(t); },
                2 => { let i = idx(s); v.set_row(i); w.from.row.as_mut().unwrap().1 = i; },
                3 => { let i = idx(s); v.set_col(i); w.from.col.as_mut().unwrap().1 = i; },
                4 => { let i = s.coin(); v.set_row_abs(i); w.from.row.as_mut().unwrap().0 = i; },
                5 => { let i = s.coin(); v.set_col_abs(i); w.from.col.as_mut().unwrap().0 = i; },
                6 => { v = v.absolute(); w.from.row.as_mut().unwrap().0 = true; w.from.col.as_mut().unwrap().0 = true; },
                7 => { v = v.absolute_row(); w.from.row.as_mut().unwrap().0 = true; },
                8 => { v = v.absolute_col(); w.from.col.as_mut().unwrap().0 = true; },
            );
        }
        1 => {
            let mut w = Rf { iri: None, from: pt(Some(b), Some(a)), to: Some(pt(Some(d), Some(c))) };
            let mut v = match &t0 {
                Some(t) => { w.from.table = Some(t.clone()); CellRange::remote(t.clone(), a, b, c, d) }
                None if s.pct(20) => { w.from = pt(Some(0), Some(0)); w.to = Some(pt(Some(0), Some(0))); CellRange::new() }
                None if s.pct(30) && a < 1 << 20 && b < 1 << 20 => {
                    let (h, k) = (s.r32(1, 9), s.r32(1, 9));
                    w.to = Some(pt(Some(b + k - 1), Some(a + h - 1)));
                    CellRange::origin_span(a, b, (h, k))
                }
                None => CellRange::local(a, b, c, d),
            };
            run!(v, w, rf_range, parse_cellrange,
                0 => { let t = sheetname(s); v.set_iri(t.clone()); w.iri = Some(t); },
                1 => { let t = sheetname(s); v.set_table(t.clone()); w.from.table = Some(t); },
                2 => { let i = idx(s); v.set_row(i); w.from.row.as_mut().unwrap().1 = i; },
                3 => { let i = idx(s); v.set_col(i); w.from.col.as_mut().unwrap().1 = i; },
                4 => { let i = s.coin(); v.set_row_abs(i); w.from.row.as_mut().unwrap().0 = i; },
                5 => { let i = s.coin(); v.set_col_abs(i); w.from.col.as_mut().unwrap().0 = i; },
                6 => { let t = sheetname(s); v.set_to_table(t.clone()); w.to.as_mut().unwrap().table = Some(t); },
                7 => { let i = idx(s); v.set_to_row(i); w.to.as_mut().unwrap().row.as_mut().unwrap().1 = i; },
                8 => { let i = idx(s); v.set_to_col(i); w.to.as_mut().unwrap().col.as_mut().unwrap().1 = i; },
                9 => { let i = s.coin(); v.set_to_row_abs(i); w.to.as_mut().unwrap().row.as_mut().unwrap().0 = i; },
                10 => { let i = s.coin(); v.set_to_col_abs(i); w.to.as_mut().unwrap().col.as_mut().unwrap().0 = i; },
                11 => { v = v.absolute(); absolute(&mut w, true, true); },
                12 => { v = v.absolute_rows(); absolute(&mut w, false, true); },
                13 => { v = v.absolute_cols(); absolute(&mut w, true, false); },
            );
            let to = w.to.as_ref().unwrap();
            let ((r1, c1), (r2, c2)) = ((w.from.row.unwrap().1, w.from.col.unwrap().1), (to.row.unwrap().1, to.col.unwrap().1));
            for (r, c) in around(s, (r1, c1), (r2, c2)) {
                eq(&format!("{} contains row {} column {}", v, r, c), v.contains(r, c), (r1..=r2).contains(&r) && (c1..=c2).contains(&c))?;
                eq(&format!("{} out_looped row {} column {}", v, r, c), v.out_looped(r, c), (r, c) > (r2, c2))?;
            }
        }
        2 => {
            let mut v = ColRange::new(a, b);
            let mut w = Rf { iri: None, from: pt(Some(a), None), to: Some(pt(Some(b), None)) };
            run!(v, w, rf_colr, parse_colrange,
                0 => { let t = sheetname(s); v.set_iri(t.clone()); w.iri = Some(t); },
                1 => { let t = sheetname(s); v.set_table(t.clone()); w.from.table = Some(t); },
                3 => { let i = idx(s); v.set_col(i); w.from.col.as_mut().unwrap().1 = i; },
                5 => { let i = s.coin(); v.set_col_abs(i); w.from.col.as_mut().unwrap().0 = i; },
                6 => { let t = sheetname(s); v.set_to_table(t.clone()); w.to.as_mut().unwrap().table = Some(t); },
                8 => { let i = idx(s); v.set_to_col(i); w.to.as_mut().unwrap().col.as_mut().unwrap().1 = i; },
                10 => { let i = s.coin(); v.set_to_col_abs(i); w.to.as_mut().unwrap().col.as_mut().unwrap().0 = i; },
                11 => { v = v.absolute(); absolute(&mut w, true, true); },
            );
            let (x, y) = (w.from.col.unwrap().1, w.to.as_ref().unwrap().col.unwrap().1);
            for (r, _) in around(s, (x, x), (y, y)) {
                eq(&format!("{} contains column {}", v, r), v.contains(r), (x..=y).contains(&r))?;
            }
        }
        _ => {
            let mut v = RowRange::new(a, b);
            let mut w = Rf { iri: None, from: pt(None, Some(a)), to: Some(pt(None, Some(b))) };
            run!(v, w, rf_rowr, parse_rowrange,
                0 => { let t = sheetname(s); v.set_iri(t.clone()); w.iri = Some(t); },
                1 => { let t = sheetname(s); v.set_table(t.clone()); w.from.table = Some(t); },
                2 => { let i = idx(s); v.set_row(i); w.from.row.as_mut().unwrap().1 = i; },
                4 => { let i = s.coin(); v.set_row_abs(i); w.from.row.as_mut().unwrap().0 = i; },
                6 => { let t = sheetname(s); v.set_to_table(t.clone()); w.to.as_mut().unwrap().table = Some(t); },
                7 => { let i = idx(s); v.set_to_row(i); w.to.as_mut().unwrap().row.as_mut().unwrap().1 = i; },
                9 => { let i = s.coin(); v.set_to_row_abs(i); w.to.as_mut().unwrap().row.as_mut().unwrap().0 = i; },
                11 => { v = v.absolute(); absolute(&mut w, true, true); },
            );
            let (x, y) = (w.from.row.unwrap().1, w.to.as_ref().unwrap().row.unwrap().1);
            for (r, _) in around(s, (x, x), (y, y)) {
                eq(&format!("{} contains row {}", v, r), v.contains(r), (x..=y).contains(&r))?;
            }
        }
    }
    let (mut r, mut rw) = (CRow::new(a), (false, a));
    let (mut k, mut kw) = (CCol::new(b), (false, b));
    for _ in 0..s.u(4) {
        match s.u(8) {
            0 => { let i = idx(s); r.set_row(i); rw.1 = i; }
            1 => { let i = s.coin(); r.set_row_abs(i); rw.0 = i; }
            2 => { r = r.absolute(); rw.0 = true; }
            3 => { r = r.absolute_row(); rw.0 = true; }
            4 => { let i = idx(s); k.set_col(i); kw.1 = i; }
            5 => { let i = s.coin(); k.set_col_abs(i); kw.0 = i; }
            6 => { k = k.absolute(); kw.0 = true; }
            _ => { k = k.absolute_col(); kw.0 = true; }
        }
    }
    eq("row", (r.row_abs(), r.row(), r.to_string()), (rw.0, rw.1, format!("{}{}", if rw.0 { "$" } else { "" }, rw.1 as u64 + 1)))?;
    eq("column", (k.col_abs(), k.col(), k.to_string()), (kw.0, kw.1, format!("{}{}", if kw.0 { "$" } else { "" }, colname(kw.1))))?;
    ctx.nontrivial = log.len() >= 3;
    Ok(())
}
fn absolute(w: &mut Rf, cols: bool, rows: bool) {
    for p in std::iter::once(&mut w.from).chain(w.to.as_mut()) {
        if let (true, Some(c)) = (cols, &mut p.col) {
            c.0 = true;
        }
        if let (true, Some(c)) = (rows, &mut p.row) {
            c.0 = true;
        }
    }
}
/// Positions near the corners of a range, and some other.
fn around(s: &mut Src, a: (u32, u32), b: (u32, u32)) -> Vec<(u32, u32)> {
    let mut l = vec![];
    for _ in 0..6 {
        let near = |s: &mut Src, x: u32, y: u32| match s.u(5) {
            0 => x.saturating_sub(s.r32(0, 2)),
            1 => x.saturating_add(s.r32(0, 2)),
            2 => y.saturating_sub(s.r32(0, 2)),
            3 => y.saturating_add(s.r32(0, 2)),
            _ => index(s),
        };
        l.push((near(s, a.0, b.0), near(s, a.1, b.1)));
    }
    l
}

const BITS: &[&str] = &[
    ".", "A1", ":", "$", "A", "1", "Z", "'", "a b", "sheet", "#", "'x'#", "[", "]", "B7", "$C$9", "AMJ1048576", "0", "01", "ZZZZZZZ", "4294967296", "4294967297", "99999999999999999999", " ", "ä", "MWLQKWV", "MWLQKWU", "a1", ".A1:.B2", "'s'.", "''",
];

fn parse_any(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut t = String::new();
    match s.u(3) {
        0 => {
            // a valid one, mutated
            let p = parts(s, &mut Ctx::default());
            t = match s.u(3) {
                0 => CellRef::new_all(p.iri, p.table, p.r.0, p.r.1, p.c.0, p.c.1).to_string(),
                1 => CellRange::new_all(p.iri, p.table, p.r.0, p.r.1, p.c.0, p.c.1, p.to_table, p.r2.0, p.r2.1, p.c2.0, p.c2.1).to_string(),
                _ => ColRange::new_all(p.iri, p.table, p.c.0, p.c.1, p.to_table, p.c2.0, p.c2.1).to_string(),
            };
            let mut cs: Vec<char> = t.chars().collect();
            for _ in 0..1 + s.u(2) {
                let i = s.u(cs.len() + 1);
                match s.u(3) {
                    0 if i < cs.len() => {
                        cs.remove(i);
                    }
                    1 => cs.insert(i, s.pickc(&['.', '$', ':', '\'', 'A', '1', ' ', '#', 'a'])),
                    _ if i < cs.len() => cs[i] = s.pickc(&['.', '$', ':', '\'', 'A', '1', ' ', '#']),
                    _ => {}
                }
            }
            t = cs.into_iter().collect();
        }
        _ => {
            let n = s.u(9);
            for _ in 0..n {
                t.push_str(s.pick(BITS));
            }
        }
    }
    ctx.repr = t.clone();
    let mut ok = 0;
    let r = parse_cellref(&t).ok().map(|v| rf_cell(&v));
    ok += r.is_some() as u32;
    eq(&format!("cell {:?}", t), r, recognise(&t, true, true, false))?;
    let r = parse_cellrange(&t).ok().map(|v| rf_range(&v));
    ok += r.is_some() as u32;
    eq(&format!("range {:?}", t), r, recognise(&t, true, true, true))?;
    let r = parse_colrange(&t).ok().map(|v| rf_colr(&v));
    ok += r.is_some() as u32;
    eq(&format!("columns {:?}", t), r, recognise(&t, true, false, true))?;
    let r = parse_rowrange(&t).ok().map(|v| rf_rowr(&v));
    ok += r.is_some() as u32;
    eq(&format!("rows {:?}", t), r, recognise(&t, false, true, true))?;
    let _ = parse_cellranges(&t);
    ctx.nontrivial = ok > 0;
    ctx.label_if(ok > 0, "accepted");
    ctx.label_if(ok == 0, "rejected");
    Ok(())
}

fn lists(s: &mut Src, ctx: &mut Ctx) -> R {
    let v = s.vec(0, 3, 6, |s| {
        let p = parts(s, &mut Ctx::default());
        CellRange::new_all(p.iri, p.table, p.r.0, p.r.1, p.c.0, p.c.1, p.to_table, p.r2.0, p.r2.1, p.c2.0, p.c2.1)
    });
    let mut t = String::new();
    for (i, r) in v.iter().enumerate() {
        if i > 0 {
            for _ in 0..1 + s.u(2) {
                t.push(s.pickc(&[' ', ' ', '\n', '\t']));
            }
        }
        t.push_str(&r.to_string());
    }
    ctx.repr = t.clone();
    ctx.nontrivial = v.len() > 1;
    let got = parse_cellranges(&t).map_err(|e| format!("{:?} doesn't parse: {}", t, e))?;
    eq(&format!("list {:?}", t), got.unwrap_or_default(), v)
}

fn builders(s: &mut Src, ctx: &mut Ctx) -> R {
    use spreadsheet_ods::formula::*;
    use spreadsheet_ods::{cell, fcell, formula};
    let (r, c) = (index(s), index(s));
    let (r2, c2) = (r.max(index(s)), c.max(index(s)));
    let t = sheetname(s);
    ctx.nontrivial = true;
    ctx.repr = format!("{:?} {} {} {} {}", t, r, c, r2, c2);
    let rc = |txt: &str| -> Option<Rf> {
        let i = txt.strip_prefix('[')?.strip_suffix(']')?;
        recognise(i, true, true, false).or_else(|| recognise(i, true, true, true))
    };
    let cl = |t: Option<&String>, ra: bool, ca: bool| Some(Rf { iri: None, from: Pt { table: t.cloned(), col: Some((ca, c)), row: Some((ra, r)) }, to: None });
    let rg = |t: Option<&String>, ra: bool, ca: bool, ra2: bool, ca2: bool| {
        Some(Rf {
            iri: None,
            from: Pt { table: t.cloned(), col: Some((ca, c)), row: Some((ra, r)) },
            to: Some(Pt { table: None, col: Some((ca2, c2)), row: Some((ra2, r2)) }),
        })
    };
    let tt = Some(&t);
    let list = vec![
        ("fcellref", fcellref(r, c), cl(None, false, false)),
        ("fcellrefr", fcellrefr(r, c), cl(None, true, false)),
        ("fcellrefc", fcellrefc(r, c), cl(None, false, true)),
        ("fcellrefa", fcellrefa(r, c), cl(None, true, true)),
        ("fcellref_table", fcellref_table(&t, r, c), cl(tt, false, false)),
        ("fcellrefr_table", fcellrefr_table(&t, r, c), cl(tt, true, false)),
        ("fcellrefc_table", fcellrefc_table(&t, r, c), cl(tt, false, true)),
        ("fcellrefa_table", fcellrefa_table(&t, r, c), cl(tt, true, true)),
        ("frangeref", frangeref(r, c, r2, c2), rg(None, false, false, false, false)),
        ("frangerefr", frangerefr(r, c, r2, c2), rg(None, true, false, true, false)),
        ("frangerefc", frangerefc(r, c, r2, c2), rg(None, false, true, false, true)),
        ("frangerefa", frangerefa(r, c, r2, c2), rg(None, true, true, true, true)),
        ("frangeref_table", frangeref_table(&t, r, c, r2, c2), rg(tt, false, false, false, false)),
        ("frangerefr_table", frangerefr_table(&t, r, c, r2, c2), rg(tt, true, false, true, false)),
        ("frangerefc_table", frangerefc_table(&t, r, c, r2, c2), rg(tt, false, true, false, true)),
        ("frangerefa_table", frangerefa_table(&t, r, c, r2, c2), rg(tt, true, true, true, true)),
        ("cell", fcell!(r, c), cl(None, false, false)),
        ("cell abs row", fcell!(abs r, c), cl(None, true, false)),
        ("cell abs col", fcell!(r, abs c), cl(None, false, true)),
        ("cell abs", fcell!(abs r, abs c), cl(None, true, true)),
        ("cell table", fcell!(&t => r, c), cl(tt, false, false)),
        ("cell table abs row", fcell!(&t => abs r, c), cl(tt, true, false)),
        ("cell table abs col", fcell!(&t => r, abs c), cl(tt, false, true)),
        ("cell table abs", fcell!(&t => abs r, abs c), cl(tt, true, true)),
        ("range 0000", fcell!(r, c, r2, c2), rg(None, false, false, false, false)),
        ("range 0001", fcell!(r, c, r2, abs c2), rg(None, false, false, false, true)),
        ("range 0010", fcell!(r, c, abs r2, c2), rg(None, false, false, true, false)),
        ("range 0011", fcell!(r, c, abs r2, abs c2), rg(None, false, false, true, true)),
        ("range 0100", fcell!(r, abs c, r2, c2), rg(None, false, true, false, false)),
        ("range 0101", fcell!(r, abs c, r2, abs c2), rg(None, false, true, false, true)),
        ("range 0110", fcell!(r, abs c, abs r2, c2), rg(None, false, true, true, false)),
        ("range 0111", fcell!(r, abs c, abs r2, abs c2), rg(None, false, true, true, true)),
        ("range 1000", fcell!(abs r, c, r2, c2), rg(None, true, false, false, false)),
        ("range 1001", fcell!(abs r, c, r2, abs c2), rg(None, true, false, false, true)),
        ("range 1010", fcell!(abs r, c, abs r2, c2), rg(None, true, false, true, false)),
        ("range 1011", fcell!(abs r, c, abs r2, abs c2), rg(None, true, false, true, true)),
        ("range 1100", fcell!(abs r, abs c, r2, c2), rg(None, true, true, false, false)),
        ("range 1101", fcell!(abs r, abs c, r2, abs c2), rg(None, true, true, false, true)),
        ("range 1110", fcell!(abs r, abs c, abs r2, c2), rg(None, true, true, true, false)),
        ("range 1111", fcell!(abs r, abs c, abs r2, abs c2), rg(None, true, true, true, true)),
        ("trange 0000", fcell!(&t => r, c, r2, c2), rg(tt, false, false, false, false)),
        ("trange 0001", fcell!(&t => r, c, r2, abs c2), rg(tt, false, false, false, true)),
        ("trange 0010", fcell!(&t => r, c, abs r2, c2), rg(tt, false, false, true, false)),
        ("trange 0011", fcell!(&t => r, c, abs r2, abs c2), rg(tt, false, false, true, true)),
        ("trange 0100", fcell!(&t => r, abs c, r2, c2), rg(tt, false, true, false, false)),
        ("trange 0101", fcell!(&t => r, abs c, r2, abs c2), rg(tt, false, true, false, true)),
        ("trange 0110", fcell!(&t => r, abs c, abs r2, c2), rg(tt, false, true, true, false)),
        ("trange 0111", fcell!(&t => r, abs c, abs r2, abs c2), rg(tt, false, true, true, true)),
        ("trange 1000", fcell!(&t => abs r, c, r2, c2), rg(tt, true, false, false, false)),
        ("trange 1001", fcell!(&t => abs r, c, r2, abs c2), rg(tt, true, false, false, true)),
        ("trange 1010", fcell!(&t => abs r, c, abs r2, c2), rg(tt, true, false, true, false)),
        ("trange 1011", fcell!(&t => abs r, c, abs r2, abs c2), rg(tt, true, false, true, true)),
        ("trange 1100", fcell!(&t => abs r, abs c, r2, c2), rg(tt, true, true, false, false)),
        ("trange 1101", fcell!(&t => abs r, abs c, r2, abs c2), rg(tt, true, true, false, true)),
        ("trange 1110", fcell!(&t => abs r, abs c, abs r2, c2), rg(tt, true, true, true, false)),
        ("trange 1111", fcell!(&t => abs r, abs c, abs r2, abs c2), rg(tt, true, true, true, true)),
    ];
    for (n, got, want) in list {
        eq(&format!("{} {:?}", n, got), rc(&got), want)?;
    }
    eq("formula", formula!("SUM({})", fcell!(r, c)), format!("of:=SUM([.{}{}])", colname(c), r as u64 + 1))?;
    // containment of ranges
    let (pr, pc) = (index(s), index(s));
    let cr = CellRange::local(r, c, r2, c2);
    eq("contains", cr.contains(pr, pc), r <= pr && pr <= r2 && c <= pc && pc <= c2)?;
    eq("row contains", RowRange::new(r, r2).contains(pr), r <= pr && pr <= r2)?;
    eq("col contains", ColRange::new(c, c2).contains(pc), c <= pc && pc <= c2)?;
    Ok(())
}
