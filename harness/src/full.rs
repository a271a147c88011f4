//! Workbooks that use everything at once, and a dump of everything the API shows.
use crate::checks::{c_cells, c_doc, c_struct, c_styles};
use crate::engine::*;
use crate::gen;
use crate::model::*;
use spreadsheet_ods::manifest::Manifest;
use spreadsheet_ods::sheet::Visibility;
use spreadsheet_ods::style::{CellStyleRef, ColStyle, RowStyle, TableStyleRef};
use spreadsheet_ods::*;
use std::collections::BTreeMap;

pub type Dump = BTreeMap<String, String>;

/// One sheet with cells, attachments, structure and row/column attributes.
pub fn gen_sheet(s: &mut Src, ctx: &mut Ctx, name: String, cs: &[style::ColStyleRef], rs: &[style::RowStyleRef]) -> Sheet {
    let mut sh = Sheet::new(name);
    let cells = s.u(7);
    let rep = s.pct(30);
    let mut row = s.r32(0, 2);
    for _ in 0..cells {
        let mut col = 0;
        let h = if rep && s.pct(40) { s.r32(2, 5) } else { 1 };
        if h > 1 {
            sh.set_row_repeat(row, h);
            ctx.label("row-repeat");
        }
        for _ in 0..1 + s.u(3) {
            col += s.pickc(&[0u32, 0, 1, 2, 9]);
            c_cells::gen_attach(s, ctx, &mut sh, row, col);
            let mut w = 1;
            if sh.cell(row, col).is_some() {
                if rep && s.pct(30) && !sh.value(row, col).as_str_or("x").is_empty() {
                    w = s.r32(2, 6);
                    sh.set_cell_repeat(row, col, w);
                    ctx.label("cell-repeat");
                } else if s.pct(10) {
                    sh.set_row_span(row, col, s.r32(1, 3));
                    sh.set_col_span(row, col, s.r32(1, 3));
                    ctx.label("span");
                }
            }
            col += w;
        }
        row += h + s.pickc(&[0u32, 0, 0, 1, 5, 40]);
    }
    if s.pct(25) {
        sh.set_style(&TableStyleRef::from(gen::name(s).as_str()));
    }
    sh.set_display(!s.pct(20));
    sh.set_print(!s.pct(20));
    if s.pct(20) {
        sh.add_print_range(CellRange::remote(gen::name(s), 0, 0, s.r32(0, 9), s.r32(0, 9)));
    }
    if !rep {
        for g in c_struct::groups(s, 12) {
            sh.add_row_group(g.0, g.1);
            ctx.label("row-group");
        }
        if s.pct(25) {
            let a = s.r32(0, 6);
            sh.set_header_rows(a, a + s.r32(0, 2));
        }
    }
    for g in c_struct::groups(s, 8) {
        sh.add_col_group(g.0, g.1);
        ctx.label("col-group");
    }
    if s.pct(25) {
        let a = s.r32(0, 6);
        sh.set_header_cols(a, a + s.r32(0, 2));
    }
    for _ in 0..s.u(5) {
        let c = s.r32(0, 9);
        match s.u(4) {
            0 => sh.set_col_width(c, gen::length(s)),
            1 => sh.set_colstyle(c, s.pick(cs)),
            2 => sh.set_col_cellstyle(c, &CellStyleRef::from(gen::ident(s).as_str())),
            _ => sh.set_col_visible(c, s.pickc(&[Visibility::Visible, Visibility::Collapsed, Visibility::Filtered])),
        }
    }
    if !rep {
        for _ in 0..s.u(5) {
            let r = s.r32(0, 9);
            match s.u(4) {
                0 => sh.set_row_height(r, gen::length(s)),
                1 => sh.set_rowstyle(r, s.pick(rs)),
                2 => sh.set_row_cellstyle(r, &CellStyleRef::from(gen::ident(s).as_str())),
                _ => sh.set_row_visible(r, s.pickc(&[Visibility::Visible, Visibility::Collapsed, Visibility::Filtered])),
            }
        }
    }
    if s.pct(50) {
        c_doc::gen_sheet_config(s, &mut sh);
    }
    sh
}

pub fn gen_book(s: &mut Src, ctx: &mut Ctx) -> WorkBook {
    let mut book = book_new(s);
    let mut w1 = BTreeMap::new();
    for _ in 0..s.u(4) {
        c_styles::gen_style(s, ctx, &mut book, &mut w1, false);
    }
    let mut w2 = BTreeMap::new();
    for _ in 0..s.u(3) {
        c_styles::gen_format(s, &mut book, &mut w2, false);
    }
    if s.pct(30) {
        c_styles::gen_pages(s, ctx, &mut book);
    }
    if s.pct(30) {
        c_doc::gen_valid(s, ctx, &mut book);
    }
    if s.pct(40) {
        let (m, _) = c_doc::gen_meta(s);
        *book.metadata_mut() = m;
    }
    let mut st = ColStyle::new("cmark_");
    st.colstyle_mut().set_attr("loext:marker", "c");
    let cs = vec![book.add_colstyle(st)];
    let mut st = RowStyle::new("rmark_");
    st.rowstyle_mut().set_attr("loext:marker", "r");
    let rs = vec![book.add_rowstyle(st)];
    let n = 1 + s.many(3, 15);
    let mut names: Vec<String> = vec![];
    for _ in 0..n {
        let mut nm = gen::name(s);
        while names.contains(&nm) {
            nm.push('x');
        }
        let sh = gen_sheet(s, ctx, nm.clone(), &cs, &rs);
        names.push(nm);
        book.push_sheet(sh);
    }
    let c = book.config_mut();
    if s.pct(40) {
        c.show_grid = s.coin();
        c.show_page_breaks = s.coin();
        c.has_sheet_tabs = s.coin();
        c.active_table = if s.pct(80) { s.pickc(&names) } else { gen::name(s) };
    }
    if s.pct(10) {
        book.set_version("1.2".into());
    }
    book
}

/// Extra files for the container.
pub fn gen_extra_files(s: &mut Src, book: &mut WorkBook) -> BTreeMap<String, (String, Vec<u8>)> {
    let mut r = BTreeMap::new();
    for i in 0..s.many(4, 40) {
        let p = match s.u(4) {
            0 => format!("Pictures/p{}.png", i),
            1 => format!("Object {}/content.xml", i),
            2 => format!("Configurations2/x{}/ä b.xml", i),
            _ => format!("f{}", i),
        };
        let b: Vec<u8> = match s.u(3) {
            0 => s.vec(0, 20, 200, |s| s.u(256) as u8),
            1 => b"<?xml version=\"1.0\"?><a b='&lt;'>\r\n</a>".to_vec(),
            _ => {
                let (mut x, step) = (s.u(256) as u32, s.pickc(&[0u32, 2654435761]));
                (0..s.u(70_000)).map(|_| { x = x.wrapping_add(step); (x ^ x >> 15) as u8 }).collect()
            }
        };
        let mt = s.pickc(&["", "image/png", "application/x-a;b=\"c\"", "text/xml"]).to_string();
        book.add_manifest(Manifest::with_buf(p.clone(), mt.clone(), b.clone()));
        r.insert(p, (mt, b));
    }
    if s.pct(30) {
        book.add_manifest(Manifest::new("Empty/dir/", "application/dir"));
        r.insert("Empty/dir/".into(), ("application/dir".into(), vec![]));
    }
    r
}

/// Everything the accessors show. Cells are shown as they would be written,
/// with repeats expanded. With `flat`, where automatic styles live does not matter.
pub fn dump(b: &WorkBook, flat: bool) -> Dump {
    let mut r = Dump::new();
    dump_content(b, &mut r, true);
    for (k, v) in c_styles::dump_styles(b, flat) {
        r.insert(format!("style {}", k), format!("{:?}", v));
    }
    for (k, v) in c_styles::dump_formats(b, flat) {
        r.insert(format!("format {}", k), format!("{:?}", v));
    }
    for (k, v) in c_styles::dump_pages(b) {
        r.insert(format!("page {}", k), v);
    }
    for (k, v) in c_doc::dump_valid(b) {
        r.insert(k, v);
    }
    for (k, v) in c_doc::meta_map(b.metadata()) {
        r.insert(format!("meta {}", k), v);
    }
    for (k, v) in c_doc::config_map(b) {
        r.insert(format!("config {}", k), v);
    }
    r.insert("version".into(), b.version().clone());
    r
}
pub fn dump_content(b: &WorkBook, r: &mut Dump, resolve: bool) {
    for (i, sh) in b.iter_sheets().enumerate() {
        for ((row, col), t) in effective(b, sh, resolve) {
            r.insert(format!("sheet {} cell {} {}", i, row, col), t);
        }
        let mut m = c_struct::msheet(b, sh, false);
        m.grid.clear();
        r.insert(format!("sheet {}", i), format!("{:?}", m));
        for k in 0..16 {
            r.insert(format!("sheet {} col {}", i, k), format!("{:?}", c_struct::col_attr(b, sh, k)));
            r.insert(format!("sheet {} row {}", i, k), format!("{:?}", c_struct::row_attr(b, sh, k)));
        }
    }
    r.insert("sheets".into(), b.num_sheets().to_string());
}
