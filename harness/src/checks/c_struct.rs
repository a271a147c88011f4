//! C05 sheet structure, C06 row/column attributes, C20 histories of row/column attributes.
use super::c_refs;
use crate::engine::*;
use crate::gen;
use crate::model::*;
use spreadsheet_ods::style::{CellStyleRef, ColStyle, RowStyle, TableStyleRef};
use spreadsheet_ods::xmltree::XmlTag;
use spreadsheet_ods::sheet::Visibility;
use spreadsheet_ods::*;
use std::collections::BTreeMap;

pub fn c05() -> Check {
    Check {
        id: "C05",
        rule: "workbooks of 1-4 sheets with random names, table style, display/print flags, print ranges, nested row and column groups (shown or collapsed), header rows and columns, over sparse data; written and read back; non-trivial: at least one group, header range, print range or flag",
        parts: vec![Part { name: "roundtrip", quick: 36_000, thorough: 300_000, run: structure }],
        probes: vec![],
    }
}

/// Random laminar family of ranges.
pub fn groups(s: &mut Src, lim: u32) -> Vec<(u32, u32, bool)> {
    let mut v: Vec<(u32, u32, bool)> = vec![];
    let n = s.u(5);
    for _ in 0..n {
        let (a, b) = if !v.is_empty() && s.coin() {
            // inside an existing one
            let p = s.pickc(&v);
            let a = s.r32(p.0, p.1);
            (a, s.r32(a, p.1))
        } else {
            let a = s.r32(0, lim - 1);
            (a, (a + s.r32(0, 5)).min(lim))
        };
        let ok = v.iter().all(|x| (x.0 <= a && x.1 >= b) || (a <= x.0 && b >= x.1) || x.1 < a || b < x.0);
        if ok {
            v.push((a, b, s.coin()));
        }
    }
    v
}

#[derive(Debug, PartialEq, Clone)]
pub struct MSheet {
    name: String,
    style: Option<String>,
    display: bool,
    print: bool,
    ranges: Vec<CellRange>,
    rows: Vec<(u32, u32, bool)>,
    cols: Vec<(u32, u32, bool)>,
    hrows: Option<(u32, u32)>,
    hcols: Option<(u32, u32)>,
    pub grid: Grid,
}
pub fn msheet(book: &WorkBook, sh: &Sheet, def: bool) -> MSheet {
    let mut rows: Vec<_> = sh.row_group_iter().map(|g| (g.from(), g.to(), g.display())).collect();
    rows.sort();
    let mut cols: Vec<_> = sh.col_group_iter().map(|g| (g.from(), g.to(), g.display())).collect();
    cols.sort();
    MSheet {
        name: sh.name().clone(),
        style: sh.style().map(|v| v.as_str().to_string()),
        display: sh.display(),
        print: sh.print(),
        ranges: sh.print_ranges().cloned().unwrap_or_default(),
        rows,
        cols,
        hrows: sh.header_rows().map(|h| (h.from, h.to)),
        hcols: sh.header_cols().map(|h| (h.from, h.to)),
        grid: effective(book, sh, def),
    }
}

fn structure(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut book = WorkBook::new_empty();
    let f = fmt(s);
    let n = 1 + s.many(4, 40);
    let mut want = vec![];
    for i in 0..n {
        let name = if s.coin() { format!("{}{}", gen::name(s), i) } else { format!("sheet {}", i) };
        let mut sh = Sheet::new(name.clone());
        let mut m = MSheet { name, style: None, display: true, print: true, ranges: vec![], rows: vec![], cols: vec![], hrows: None, hcols: None, grid: Grid::new() };
        if s.pct(40) {
            let t = gen::name(s);
            sh.set_style(&TableStyleRef::from(t.as_str()));
            m.style = Some(t);
        }
        if s.pct(30) {
            sh.set_display(false);
            m.display = false;
            ctx.label("hidden");
        }
        if s.pct(30) {
            sh.set_print(false);
            m.print = false;
            ctx.label("no-print");
        }
        if s.pct(40) {
            let r = s.vec(1, 1, 3, |s| {
                let (a, b) = (c_refs::index(s), c_refs::index(s));
                CellRange::remote(gen::name(s), a, b, a.max(c_refs::index(s)), b.max(c_refs::index(s)))
            });
            for r in &r {
                sh.add_print_range(r.clone());
            }
            m.ranges = r;
            ctx.label("print-range");
        }
        let lim = s.pickc(&[6u32, 12, 30]);
        m.rows = groups(s, lim);
        for g in &m.rows {
            sh.add_row_group(g.0, g.1);
        }
        m.cols = groups(s, lim);
        for g in &m.cols {
            sh.add_col_group(g.0, g.1);
        }
        // display flags without touching the visibility
        for (i, g) in m.cols.clone().iter().enumerate() {
            sh.col_group_mut(i).unwrap().set_display(g.2);
        }
        for g in m.rows.iter_mut() {
            if !g.2 {
                if s.coin() {
                    sh.set_row_group_displayed(g.0, g.1, false);
                } else {
                    g.2 = true;
                }
            }
        }
        if dup(&m.rows) {
            // several groups over the same rows: the flag goes to the first.
            m.rows = sh.row_group_iter().map(|g| (g.from(), g.to(), g.display())).collect();
        }
        m.rows.sort();
        m.cols.sort();
        ctx.label_if(!m.rows.is_empty(), "row-group");
        ctx.label_if(!m.cols.is_empty(), "col-group");
        ctx.label_if(m.rows.iter().any(|g| !g.2), "collapsed");
        if s.pct(40) {
            let a = s.r32(0, lim);
            let b = a + s.r32(0, 4);
            sh.set_header_rows(a, b);
            m.hrows = Some((a, b));
            ctx.label("header-rows");
        }
        if s.pct(40) {
            let a = s.r32(0, lim);
            let b = a + s.r32(0, 4);
            sh.set_header_cols(a, b);
            m.hcols = Some((a, b));
            ctx.label("header-cols");
        }
        let cells = s.u(6);
        for _ in 0..cells {
            let (r, c) = (s.r32(0, lim + 3), s.r32(0, lim + 3));
            sh.set_value(r, c, s.range(0, 9) as i32);
        }
        m.grid = effective(&book, &sh, true);
        ctx.nontrivial |= m.hrows.is_some() || m.hcols.is_some() || !m.rows.is_empty() || !m.cols.is_empty() || !m.ranges.is_empty() || !m.display || !m.print;
        eq("sheet before writing", msheet(&book, &sh, true), m.clone())?;
        book.push_sheet(sh);
        want.push(m);
    }
    ctx.repr = format!("{:?} {:?}", f, want);
    let back = roundtrip(&mut book, f)?;
    let got: Vec<MSheet> = (0..back.num_sheets()).map(|i| msheet(&back, back.sheet(i), false)).collect();
    eq("number of sheets", got.len(), want.len())?;
    for (g, w) in got.iter().zip(want.iter()) {
        eq(&format!("{:?} sheet {:?}", f, w.name), g, w)?;
    }
    Ok(())
}
fn dup(v: &[(u32, u32, bool)]) -> bool {
    v.iter().enumerate().any(|(i, a)| v[..i].iter().any(|b| a.0 == b.0 && a.1 == b.1))
}

// ---------------------------------------------------------------- C06

pub fn c06() -> Check {
    Check {
        id: "C06",
        rule: "sheets where random columns and rows get width/height, style, default cell style and visibility (styles shared between differently sized columns/rows and between sheets, rows with and without data, repeated rows, groups and header columns that split column runs); after writing and reading, every attribute of every column/row is compared; non-trivial: at least two attributes set",
        parts: vec![Part { name: "roundtrip", quick: 36_000, thorough: 300_000, run: attributes }],
        probes: vec![],
    }
}

#[derive(Debug, PartialEq, Clone, Default)]
pub struct Attr {
    /// marker attribute of the style
    pub style: Option<String>,
    pub cell: Option<String>,
    pub vis: u8,
    pub size: String,
}
fn vis(s: &mut Src) -> Visibility {
    s.pickc(&[Visibility::Visible, Visibility::Collapsed, Visibility::Filtered])
}
fn visn(v: Visibility) -> u8 {
    match v {
        Visibility::Visible => 0,
        Visibility::Collapsed => 1,
        Visibility::Filtered => 2,
    }
}
fn lens(v: Length) -> String {
    format!("{:?}", v)
}
pub fn col_attr(book: &WorkBook, sh: &Sheet, c: u32) -> Attr {
    Attr {
        style: sh.colstyle(c).and_then(|n| book.colstyle(n)).and_then(|v| v.colstyle().attr("loext:marker").map(|v| v.to_string())),
        cell: sh.col_cellstyle(c).map(|v| v.as_str().to_string()),
        vis: visn(sh.col_visible(c)),
        size: lens(sh.col_width(c)),
    }
}
pub fn row_attr(book: &WorkBook, sh: &Sheet, r: u32) -> Attr {
    Attr {
        style: sh.rowstyle(r).and_then(|n| book.rowstyle(n)).and_then(|v| v.rowstyle().attr("loext:marker").map(|v| v.to_string())),
        cell: sh.row_cellstyle(r).map(|v| v.as_str().to_string()),
        vis: visn(sh.row_visible(r)),
        size: lens(sh.row_height(r)),
    }
}

fn attributes(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut book = WorkBook::new_empty();
    let f = fmt(s);
    // styles with a marker to recognise copies
    let mut cs = vec![];
    let mut rs = vec![];
    for i in 0..1 + s.u(2) {
        let mut st = if s.coin() { ColStyle::new(gen::ident(s)) } else { ColStyle::new_empty() };
        st.colstyle_mut().set_attr("loext:marker", format!("c{}", i));
        cs.push(book.add_colstyle(st));
        let mut st = if s.coin() { RowStyle::new(gen::ident(s)) } else { RowStyle::new_empty() };
        st.rowstyle_mut().set_attr("loext:marker", format!("r{}", i));
        rs.push(book.add_rowstyle(st));
    }
    let mut repr = format!("{:?}", f);
    let n = 1 + s.many(2, 12);
    let mut nattr = 0;
    let mut want: Vec<(BTreeMap<u32, Attr>, BTreeMap<u32, Attr>)> = vec![];
    for si in 0..n {
        let mut sh = Sheet::new(format!("s{}", si));
        let mut cols: BTreeMap<u32, Attr> = BTreeMap::new();
        let mut rows: BTreeMap<u32, Attr> = BTreeMap::new();
        let sizes: Vec<Length> = (0..2).map(|_| gen::length(s)).collect();
        let lim = s.pickc(&[4u32, 10, 40]);
        let base = if s.pct(10) { s.r32(0, 500) } else { 0 };
        let ops = s.u(12);
        for _ in 0..ops {
            let c = base + s.r32(0, lim);
            let run = if s.pct(30) { s.r32(1, 4) } else { 0 };
            let what = s.u(4);
            let k = s.u(4);
            let vv = vis(s);
            for c in c..=c + run {
                let a = cols.entry(c).or_insert_with(|| Attr { size: lens(Length::Default), ..Default::default() });
                nattr += 1;
                match what {
                    0 => {
                        let st = &cs[k % cs.len()];
                        sh.set_colstyle(c, st);
                        a.style = book.colstyle(st).and_then(|v| v.colstyle().attr("loext:marker").map(|v| v.to_string()));
                    }
                    1 => {
                        let st = ["ce1", "ce2"][k % 2];
                        sh.set_col_cellstyle(c, &CellStyleRef::from(st));
                        a.cell = Some(st.into());
                    }
                    2 => {
                        sh.set_col_visible(c, vv);
                        a.vis = visn(vv);
                    }
                    _ => {
                        sh.set_col_width(c, sizes[k % 2]);
                        a.size = lens(sizes[k % 2]);
                    }
                }
                repr.push_str(&format!(" col{}:{}:{}", c, what, k));
            }
        }
        // rows, in ascending blocks so that a repeat never runs into the next.
        let mut r = s.r32(0, 3);
        let blocks = s.u(6);
        for _ in 0..blocks {
            let mut a = Attr { size: lens(Length::Default), ..Default::default() };
            for _ in 0..s.u(4) {
                nattr += 1;
                match s.u(4) {
                    0 => {
                        let st = s.pickc(&rs);
                        sh.set_rowstyle(r, &st);
                        a.style = book.rowstyle(&st).and_then(|v| v.rowstyle().attr("loext:marker").map(|v| v.to_string()));
                    }
                    1 => {
                        let st = s.pickc(&["re1", "re2"]);
                        sh.set_row_cellstyle(r, &CellStyleRef::from(st));
                        a.cell = Some(st.into());
                    }
                    2 => {
                        let v = vis(s);
                        sh.set_row_visible(r, v);
                        a.vis = visn(v);
                    }
                    _ => {
                        let l = s.pickc(&sizes);
                        sh.set_row_height(r, l);
                        a.size = lens(l);
                    }
                }
            }
            let rep = if s.pct(25) { s.r32(2, 5) } else { 1 };
            if rep > 1 {
                sh.set_row_repeat(r, rep);
                ctx.label("row-repeat");
            }
            if s.coin() {
                sh.set_value(r, s.r32(0, 5), 1);
                ctx.label("row-with-data");
            } else {
                ctx.label("row-without-data");
            }
            repr.push_str(&format!(" row{}*{}:{:?}", r, rep, a));
            for i in 0..rep {
                rows.insert(r + i, a.clone());
            }
            r += rep + if s.coin() { s.r32(0, 4) } else { 0 };
        }
        if s.pct(25) {
            for g in groups(s, base + lim) {
                sh.add_col_group(g.0, g.1);
                repr.push_str(&format!(" cg{}-{}", g.0, g.1));
                ctx.label("col-groups");
            }
        }
        if s.pct(15) {
            let a = base + s.r32(0, lim);
            sh.set_header_cols(a, a + s.r32(0, 3));
            ctx.label("header-cols");
        }
        for _ in 0..s.u(3) {
            sh.set_value(r + s.r32(0, 3), s.r32(0, lim), 2);
        }
        for (c, a) in &cols {
            eq(&format!("column {} before writing", c), col_attr(&book, &sh, *c), a.clone())?;
        }
        want.push((cols, rows));
        book.push_sheet(sh);
    }
    ctx.nontrivial = nattr > 1;
    ctx.repr = repr;
    let back = roundtrip(&mut book, f)?;
    let none = Attr { size: lens(Length::Default), ..Default::default() };
    for (si, (cols, rows)) in want.iter().enumerate() {
        let sh = back.sheet(si);
        for c in 0..cols.keys().next_back().copied().unwrap_or(0) + 3 {
            eq(&format!("{:?} sheet {} column {}", f, si, c), &col_attr(&back, sh, c), cols.get(&c).unwrap_or(&none))?;
        }
        for r in 0..rows.keys().next_back().copied().unwrap_or(0) + 3 {
            eq(&format!("{:?} sheet {} row {}", f, si, r), &row_attr(&back, sh, r), rows.get(&r).unwrap_or(&none))?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C20

pub fn c20() -> Check {
    Check {
        id: "C20",
        rule: "histories of up to 40 set/clear operations on single rows and columns, mixed with group operations, on a fresh sheet or one read from a file with runs of equal rows/columns; after every operation the attributes of all rows/columns in the window are compared with a map model; non-trivial: the sheet has runs, or an operation hits a row/column set before",
        parts: vec![Part { name: "history", quick: 48_000, thorough: 400_000, run: history }],
        probes: vec![],
    }
}
#[derive(Debug, PartialEq, Clone)]
struct HA {
    pub style: Option<String>,
    pub cell: Option<String>,
    pub vis: u8,
    pub size: String,
}
impl Default for HA {
    fn default() -> Self {
        HA { style: None, cell: None, vis: 0, size: lens(Length::Default) }
    }
}
fn hcol(sh: &Sheet, c: u32) -> HA {
    HA { style: sh.colstyle(c).map(|v| v.as_str().into()), cell: sh.col_cellstyle(c).map(|v| v.as_str().into()), vis: visn(sh.col_visible(c)), size: lens(sh.col_width(c)) }
}
fn hrow(sh: &Sheet, c: u32) -> HA {
    HA { style: sh.rowstyle(c).map(|v| v.as_str().into()), cell: sh.row_cellstyle(c).map(|v| v.as_str().into()), vis: visn(sh.row_visible(c)), size: lens(sh.row_height(c)) }
}
const WIN: u32 = 14;

fn history(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut repr = String::new();
    let mut sh = Sheet::new("h");
    let mut cols: Vec<HA> = vec![HA::default(); WIN as usize];
    let mut rows = cols.clone();
    if s.coin() {
        // runs of equal rows and columns, as a file has them.
        let mut x = XmlTag::new("x");
        x.set_attr("x", "");
        let mut t = String::from("<?xml version=\"1.0\"?><office:document><office:body><office:spreadsheet><table:table table:name=\"h\">");
        for part in 0..2 {
            let mut p = 0;
            while p < WIN {
                let run = s.r32(1, 6).min(WIN - p);
                let mut a = HA::default();
                let tag = if part == 0 { "table-column" } else { "table-row" };
                let rep = if part == 0 { "columns" } else { "rows" };
                t.push_str(&format!("<table:{} table:number-{}-repeated=\"{}\"", tag, rep, run));
                if s.coin() {
                    a.style = Some(s.pickc(&["a", "b"]).to_string());
                    t.push_str(&format!(" table:style-name=\"{}\"", a.style.as_ref().unwrap()));
                }
                if s.coin() {
                    a.cell = Some(s.pickc(&["ca", "cb"]).to_string());
                    t.push_str(&format!(" table:default-cell-style-name=\"{}\"", a.cell.as_ref().unwrap()));
                }
                if s.pct(30) {
                    a.vis = s.u(3) as u8;
                    t.push_str(&format!(" table:visibility=\"{}\"", ["visible", "collapse", "filter"][a.vis as usize]));
                }
                if part == 0 {
                    t.push_str("/>");
                } else {
                    t.push_str("><table:table-cell/></table:table-row>");
                }
                for i in p..p + run {
                    if part == 0 {
                        cols[i as usize] = a.clone();
                    } else {
                        rows[i as usize] = a.clone();
                    }
                }
                p += run;
            }
        }
        t.push_str("</table:table></office:spreadsheet></office:body></office:document>");
        let mut b = read_fods_buf(t.as_bytes()).map_err(|e| format!("read {}: {}", t, e))?;
        sh = b.remove_sheet(0);
        repr.push_str(&t);
        ctx.label("runs");
        ctx.nontrivial = true;
    }
    let cmp = |what: &str, sh: &Sheet, cols: &[HA], rows: &[HA]| -> R {
        for i in 0..WIN {
            eq(&format!("{}: column {}", what, i), &hcol(sh, i), &cols[i as usize])?;
            eq(&format!("{}: row {}", what, i), &hrow(sh, i), &rows[i as usize])?;
        }
        Ok(())
    };
    cmp("start", &sh, &cols, &rows)?;
    // relations of groups
    {
        let (a, b, c, d) = (s.r32(0, 6), s.r32(0, 4), s.r32(0, 6), s.r32(0, 4));
        let mut g = sheet::Grouped::new(9, 9, false);
        g.set_from(a);
        g.set_to(a + b);
        g.set_display(true);
        let o = sheet::Grouped::new(c, c + d, false);
        eq("group", (g.from(), g.to(), g.display()), (a, a + b, true))?;
        eq(&format!("{:?} contains {:?}", g, o), g.contains(&o), a <= c && c + d <= a + b)?;
        eq(&format!("{:?} disjunct {:?}", g, o), g.disjunct(&o), (a..=a + b).all(|x| !(c..=c + d).contains(&x)))?;
    }
    let mut cg: Vec<(u32, u32)> = vec![];
    let mut rg: Vec<(u32, u32)> = vec![];
    let (mut hr, mut hc): (Option<(u32, u32)>, Option<(u32, u32)>) = (None, None);
    let mut pr: Option<Vec<CellRange>> = None;
    let mut n = 0;
    while s.more(n, 1, 12, 40) {
        n += 1;
        // header rows and columns, print ranges
        if s.pct(20) {
            let (a, b) = (s.r32(0, WIN - 1), s.r32(0, 5));
            match s.u(6) {
                0 => { sh.set_header_rows(a, a + b); hr = Some((a, a + b)); }
                1 => { sh.set_header_cols(a, a + b); hc = Some((a, a + b)); }
                2 => { sh.clear_header_rows(); hr = None; }
                3 => { sh.clear_header_cols(); hc = None; }
                4 => { let r = CellRange::local(a, b, a + 3, b + 2); sh.add_print_range(r.clone()); pr.get_or_insert_with(Vec::new).push(r); }
                _ => { sh.clear_print_ranges(); pr = None; }
            }
        }
        let i = s.r32(0, WIN - 1);
        let iu = i as usize;
        let col = s.coin();
        let k = s.u(3);
        let st = ["x", "y", "a"][k];
        let len = [Length::Cm(1.0), Length::Mm(2.5), Length::Default][k];
        let vv = [Visibility::Visible, Visibility::Collapsed, Visibility::Filtered][k];
        let op = s.u(9);
        repr.push_str(&format!(" {}{}:{}:{}", if col { "c" } else { "r" }, i, op, k));
        ctx.nontrivial |= if col { cols[iu] != HA::default() } else { rows[iu] != HA::default() };
        let m = if col { &mut cols } else { &mut rows };
        match op {
            0 => {
                m[iu].style = Some(st.into());
                if col { sh.set_colstyle(i, &st.into()) } else { sh.set_rowstyle(i, &st.into()) }
            }
            1 => {
                m[iu].style = None;
                if col { sh.clear_colstyle(i) } else { sh.clear_rowstyle(i) }
            }
            2 => {
                m[iu].cell = Some(st.into());
                if col { sh.set_col_cellstyle(i, &st.into()) } else { sh.set_row_cellstyle(i, &st.into()) }
            }
            3 => {
                m[iu].cell = None;
                if col { sh.clear_col_cellstyle(i) } else { sh.clear_row_cellstyle(i) }
            }
            4 => {
                m[iu].vis = visn(vv);
                if col { sh.set_col_visible(i, vv) } else { sh.set_row_visible(i, vv) }
            }
            5 => {
                m[iu].size = lens(len);
                if col { sh.set_col_width(i, len) } else { sh.set_row_height(i, len) }
            }
            6 => {
                let g = if col { &mut cg } else { &mut rg };
                let (a, b) = (i, s.r32(i, WIN - 1));
                if g.iter().all(|x| (x.0 <= a && x.1 >= b) || (a <= x.0 && b >= x.1) || x.1 < a || b < x.0) && !g.contains(&(a, b)) {
                    g.push((a, b));
                    if col { sh.add_col_group(a, b) } else { sh.add_row_group(a, b) }
                }
            }
            7 => {
                let g = if col { &mut cg } else { &mut rg };
                if !g.is_empty() {
                    let (a, b) = g[s.u(g.len())];
                    let d = s.coin();
                    for j in a..=b {
                        m[j as usize].vis = if d { 0 } else { 1 };
                    }
                    if col { sh.set_col_group_displayed(a, b, d) } else { sh.set_row_group_displayed(a, b, d) }
                    ctx.label("group-display");
                }
            }
            _ => {
                let g = if col { &mut cg } else { &mut rg };
                if !g.is_empty() {
                    let j = s.u(g.len());
                    let (a, b) = g.remove(j);
                    if col { sh.remove_col_group(a, b) } else { sh.remove_row_group(a, b) }
                }
            }
        }
        cmp(&format!("after {}", n), &sh, &cols, &rows)?;
        eq("column groups", sh.col_group_iter().map(|g| (g.from(), g.to())).collect::<Vec<_>>(), cg.clone())?;
        eq("row groups", sh.row_group_iter().map(|g| (g.from(), g.to())).collect::<Vec<_>>(), rg.clone())?;
        eq("header rows", sh.header_rows().map(<(u32, u32)>::from), hr)?;
        eq("header columns", sh.header_cols().map(<(u32, u32)>::from), hc)?;
        eq("print ranges", sh.print_ranges().filter(|v| !v.is_empty()), pr.as_ref())?;
        for k in 0..=cg.len() {
            eq("column group by index", sh.col_group(k).map(|g| (g.from(), g.to())), cg.get(k).copied())?;
            eq("column group by index, mutable", sh.col_group_mut(k).map(|g| (g.from(), g.to())), cg.get(k).copied())?;
        }
        for k in 0..=rg.len() {
            eq("row group by index", sh.row_group(k).map(|g| (g.from(), g.to())), rg.get(k).copied())?;
        }
        eq("column group count", sh.col_group_count(), cg.len())?;
        eq("row group count", sh.row_group_count(), rg.len())?;
    }
    ctx.repr = repr;
    Ok(())
}
