//! C01 values, C02 grid geometry, C03 attachments.
use crate::engine::*;
use crate::gen;
use crate::model::*;
use spreadsheet_ods::style::CellStyleRef;
use spreadsheet_ods::*;

pub fn c01() -> Check {
    Check {
        id: "C01",
        rule: "workbooks of 1-2 sheets with 1-14 random values of all types, written as ods (deflated or stored) or fods and read back; each cell compared with a canonical rendering of the value set; non-trivial: at least one text, rich text, currency, date, duration or a number that is not a small integer",
        parts: vec![
            Part { name: "roundtrip", quick: 48_000, thorough: 400_000, run: values },
            Part { name: "set-get", quick: 80_000, thorough: 300_000, run: set_get },
        ],
        probes: vec![],
    }
}

fn values(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut book = book_new(s);
    let f = fmt(s);
    let ns = 1 + s.many(2, 30);
    let mut repr = format!("{:?}", f);
    for i in 0..ns {
        let mut sh = Sheet::new(format!("s{}", i));
        let n = 1 + s.many(7, 80);
        for _ in 0..n {
            let (r, c) = pos(s);
            let v = value(s);
            ctx.label(label(&v));
            ctx.nontrivial |= !matches!(&v, Value::Boolean(_)) && !matches!(&v, Value::Number(n) if n.abs() < 21.0 && n.fract()==0.0);
            repr.push_str(&format!(" {}!{},{}={}", i, r, c, canon_value(&v)));
            sh.set_value(r, c, v);
        }
        book.push_sheet(sh);
    }
    ctx.repr = repr;
    check_rt(&mut book, f)
}
pub fn label(v: &Value) -> &'static str {
    match v {
        Value::Empty => "empty",
        Value::Boolean(_) => "boolean",
        Value::Number(_) => "number",
        Value::Percentage(_) => "percentage",
        Value::Currency(_, _) => "currency",
        Value::Text(t) => {
            if t.contains('\n') {
                "text-lines"
            } else {
                "text"
            }
        }
        Value::TextXml(_) => "rich-text",
        Value::DateTime(_) => "datetime",
        Value::TimeDuration(_) => "duration",
    }
}
pub fn check_rt(book: &mut WorkBook, f: Fmt) -> R {
    let want: Vec<Grid> = (0..book.num_sheets()).map(|i| effective(book, book.sheet(i), true)).collect();
    let back = roundtrip(book, f)?;
    eq("number of sheets", back.num_sheets(), want.len())?;
    for (i, w) in want.iter().enumerate() {
        diff_grid(&format!("{:?} sheet {}", f, i), &effective(&back, back.sheet(i), false), w)?;
    }
    Ok(())
}

/// What is set is what every accessor returns, before any file is involved.
fn set_get(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut sh = Sheet::new("x");
    let v = value(s);
    let (r, c) = pos(s);
    ctx.nontrivial = !matches!(v, Value::Boolean(_));
    ctx.repr = canon_value(&v);
    let st = CellStyleRef::from("st");
    match s.u(3) {
        0 => sh.set_value(r, c, v.clone()),
        1 => sh.set_styled(r, c, v.clone(), &st),
        _ => {
            let mut cc = CellContent::new();
            cc.set_value(v.clone());
            sh.add_cell(r, c, cc);
        }
    }
    eq("value", canon_value(sh.value(r, c)), canon_value(&v))?;
    eq("cell", sh.cell(r, c).map(|x| canon_value(x.value())), Some(canon_value(&v)))?;
    eq("cell_ref", sh.cell_ref(r, c).map(|x| canon_value(x.value())), Some(canon_value(&v)))?;
    eq("iter", sh.iter().map(|(p, x)| (p, canon_value(x.value()))).collect::<Vec<_>>(), vec![((r, c), canon_value(&v))])?;
    eq("type", sh.value(r, c).value_type(), v.value_type())?;
    Ok(())
}

pub fn c02() -> Check {
    Check {
        id: "C02",
        rule: "sheets with random sparse cells, horizontal repeats, repeated rows, cell spans and matrix spans (overlapping ones too), far positions and empty sheets, written and read in every mode; the expanded grid of content is compared position by position; non-trivial: a repeat, a span or a gap of more than one row/column",
        parts: vec![
            Part { name: "roundtrip", quick: 48_000, thorough: 400_000, run: geometry },
            Part { name: "overlap", quick: 16_000, thorough: 100_000, run: overlap },
        ],
        probes: vec![],
    }
}

struct Geo {
    sheet: Sheet,
    repr: String,
    nontriv: bool,
}
fn small_val(s: &mut Src) -> Value {
    match s.u(3) {
        0 => Value::Number(s.range(0, 99) as f64),
        1 => Value::Text(gen::ident(s)),
        _ => Value::Boolean(s.coin()),
    }
}
fn gap(s: &mut Src, big: u32) -> u32 {
    match s.weighted(&[6, 4, 2, 1]) {
        0 => 0,
        1 => s.r32(1, 3),
        2 => s.r32(1, 20),
        _ => s.r32(1, big),
    }
}
fn geo(s: &mut Src, ctx: &mut Ctx) -> Geo {
    let mut sh = Sheet::new("g");
    let mut repr = String::new();
    let mut nontriv = false;
    let mut row = 0u32;
    let rows = s.many(6, 60);
    for _ in 0..rows {
        row += gap(s, 100_000);
        let rep = if s.pct(20) { s.r32(2, 6) } else { 1 };
        if rep > 1 {
            sh.set_row_repeat(row, rep);
            repr.push_str(&format!(" row{}*{}", row, rep));
            ctx.label("row-repeat");
            nontriv = true;
        }
        let mut col = 0u32;
        let cells = 1 + s.many(4, 60);
        for _ in 0..cells {
            let g = gap(s, 5_000);
            col += g;
            nontriv |= g > 1;
            let mut v = small_val(s);
            let mut crep = if s.pct(25) { s.r32(2, 7) } else { 1 };
            let kind = s.weighted(&[6, 2, 1, 1]);
            if kind == 3 {
                v = Value::Empty;
                crep = 1;
            }
            sh.set_value(row, col, v);
            if kind == 1 {
                sh.set_formula(row, col, "of:=1");
            }
            if kind == 3 {
                sh.set_cellstyle(row, col, &CellStyleRef::from("only"));
                ctx.label("style-only");
            }
            if crep > 1 {
                sh.set_cell_repeat(row, col, crep);
                ctx.label("col-repeat");
                nontriv = true;
            }
            if s.pct(25) {
                let (a, b) = (s.r32(1, 4), s.r32(1, 4));
                sh.set_row_span(row, col, a);
                sh.set_col_span(row, col, b);
                ctx.label("span");
                nontriv |= a > 1 || b > 1;
            }
            if s.pct(10) {
                let (a, b) = (s.r32(1, 4), s.r32(1, 4));
                sh.set_matrix_row_span(row, col, a);
                sh.set_matrix_col_span(row, col, b);
                ctx.label("matrix-span");
                nontriv |= a > 1 || b > 1;
            }
            let cr = sh.cell_ref(row, col).unwrap();
            repr.push_str(&format!(" {},{}x{}={}", row, col, crep, canon_cell(&cr, cr.style)));
            col += crep;
        }
        row += rep;
    }
    Geo { sheet: sh, repr, nontriv }
}

fn geometry(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut book = WorkBook::new_empty();
    let f = fmt(s);
    let n = 1 + s.many(2, 20);
    let mut repr = format!("{:?}", f);
    for _ in 0..n {
        let g = geo(s, ctx);
        ctx.nontrivial |= g.nontriv;
        repr.push_str(" |");
        repr.push_str(&g.repr);
        book.push_sheet(g.sheet);
    }
    let rep_mode = s.coin();
    ctx.repr = repr;
    let want: Vec<Grid> = (0..n).map(|i| effective(&book, book.sheet(i), true)).collect();
    let buf = write(&mut book, f)?;
    let back = read(&buf, f)?;
    eq("number of sheets", back.num_sheets(), n)?;
    for (i, w) in want.iter().enumerate() {
        let sh = back.sheet(i);
        // everything is expanded
        for ((r, c), cell) in sh.iter() {
            if cell.repeat != 1 {
                return Err(format!("cell {},{} still has repeat {}", r, c, cell.repeat));
            }
        }
        let mut got = Grid::new();
        for ((r, c), cell) in sh.iter() {
            got.insert((r, c), canon_cell(&cell, cell.style));
        }
        diff_grid(&format!("{:?} sheet {}", f, i), &got, w)?;
        let dim = w.keys().fold((1, 1), |a, k| (a.0.max(k.0 + 1), a.1.max(k.1 + 1)));
        eq("used grid", sh.used_grid_size(), dim)?;
        eq("cell count", sh.cell_count(), w.len())?;
    }
    if rep_mode {
        let back = read_opt(&buf, f, &OdsOptions::default().use_repeat_for_cells())?;
        for (i, w) in want.iter().enumerate() {
            diff_grid(&format!("{:?} repeated sheet {}", f, i), &effective(&back, back.sheet(i), false), w)?;
        }
        ctx.label("repeat-mode");
    }
    Ok(())
}

/// A repeat that runs into the next data can't be written; it is refused
/// instead of moving cells around.
fn overlap(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut sh = Sheet::new("o");
    let (r, c) = (s.r32(0, 5), s.r32(0, 5));
    let dist = s.r32(1, 5);
    let rep = s.r32(1, 8);
    let rows = s.coin();
    sh.set_value(r, c, 1);
    if rows {
        sh.set_value(r + dist, s.r32(0, 5), 2);
        sh.set_row_repeat(r, rep);
    } else {
        sh.set_value(r, c + dist, 2);
        sh.set_cell_repeat(r, c, rep);
    }
    let mut book = WorkBook::new_empty();
    book.push_sheet(sh);
    let f = fmt(s);
    ctx.nontrivial = rep > 1;
    ctx.repr = format!("{:?} rows={} {},{} repeat {} next +{}", f, rows, r, c, rep, dist);
    if rep > dist {
        ctx.label("refused");
        match write(&mut book, f) {
            Err(_) => Ok(()),
            Ok(_) => Err("overlapping repeat was written".into()),
        }
    } else {
        ctx.label("accepted");
        check_rt(&mut book, f)
    }
}

pub fn c03() -> Check {
    Check {
        id: "C03",
        rule: "cells with random formulas, styles, validations, annotations and draw-frames with images, in any combination and with any text; written and read back, every attachment compared; non-trivial: at least one attachment besides the value",
        parts: vec![
            Part { name: "roundtrip", quick: 32_000, thorough: 300_000, run: attach },
            Part { name: "styled-empty", quick: 32_000, thorough: 300_000, run: styled_empty },
        ],
        probes: vec![],
    }
}
fn attach(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut book = book_new(s);
    let f = fmt(s);
    let mut sh = Sheet::new("a");
    let mut repr = format!("{:?}", f);
    let n = 1 + s.u(5);
    let close = s.pct(30);
    for _ in 0..n {
        let (r, c) = if close { (s.r32(0, 3), s.r32(0, 3)) } else { pos(s) };
        let some = gen_attach(s, ctx, &mut sh, r, c);
        if close && s.pct(40) {
            sh.set_row_span(r, c, s.r32(1, 4));
            sh.set_col_span(r, c, s.r32(1, 4));
            ctx.label("span");
        }
        ctx.nontrivial |= some;
        if let Some(cr) = sh.cell_ref(r, c) {
            repr.push_str(&format!(" {},{}={}", r, c, canon_cell(&cr, cr.style)));
        }
    }
    // some workbook defaults by type
    if s.coin() {
        for t in [ValueType::Boolean, ValueType::Number, ValueType::Text, ValueType::Currency] {
            if s.coin() {
                book.add_def_style(t, CellStyleRef::from(format!("def{:?}", t).as_str()));
            }
        }
        ctx.label("default-styles");
    }
    book.push_sheet(sh);
    ctx.repr = repr;
    check_rt(&mut book, f)
}

/// Cells without a value but with a style, among columns and rows with default styles.
fn styled_empty(s: &mut Src, ctx: &mut Ctx) -> R {
    let names = ["a", "b", "c"];
    let mut book = book_new(s);
    let f = fmt(s);
    let mut sh = Sheet::new("s");
    let mut repr = format!("{:?}", f);
    for c in 0..8 {
        if s.coin() {
            let n = s.pickc(&names);
            sh.set_col_cellstyle(c, &CellStyleRef::from(n));
            repr.push_str(&format!(" col{}={}", c, n));
        }
    }
    let mut want = Grid::new();
    for r in 0..1 + s.r32(0, 3) {
        if s.pct(30) {
            let n = s.pickc(&names);
            sh.set_row_cellstyle(r, &CellStyleRef::from(n));
            repr.push_str(&format!(" row{}={}", r, n));
        }
        let mut c = 0;
        while c < 9 {
            if s.coin() {
                c += 1;
                continue;
            }
            let rep = 1 + s.r32(0, 3);
            let n = s.pickc(&names);
            sh.set_cellstyle(r, c, &CellStyleRef::from(n));
            let v = s.pct(15);
            if v {
                sh.set_value(r, c, 7);
            }
            sh.set_cell_repeat(r, c, rep);
            repr.push_str(&format!(" {},{}x{}={}{}", r, c, rep, n, if v { "!" } else { "" }));
            for i in 0..rep {
                if v || sh.row_cellstyle(r).is_some() || sh.col_cellstyle(c + i).map(|v| v.as_str()) != Some(n) {
                    want.insert((r, c + i), n.to_string());
                }
            }
            ctx.label_if(rep > 1, "repeat");
            c += rep;
        }
        // keeps all of the row
        sh.set_value(r, 20, 1);
    }
    ctx.nontrivial = !want.is_empty();
    ctx.repr = repr;
    book.push_sheet(sh);
    let b = roundtrip(&mut book, f)?;
    let sh = b.sheet(0);
    for (k, w) in &want {
        eq(&format!("style of {:?}", k), sh.cellstyle(k.0, k.1).map(|v| v.as_str()), Some(w.as_str()))?;
    }
    for ((r, c), cell) in sh.iter() {
        if c < 20 && !want.contains_key(&(r, c)) && (cell.value != &Value::Empty || cell.style != sh.col_cellstyle(c)) {
            return Err(format!("cell {},{} has unexpected content {:?} {:?}", r, c, cell.value, cell.style));
        }
    }
    Ok(())
}

pub fn gen_attach(s: &mut Src, ctx: &mut Ctx, sh: &mut Sheet, r: u32, c: u32) -> bool {
    if s.pct(70) {
        sh.set_value(r, c, value(s));
    }
    let mut some = false;
    if s.pct(50) {
        let t = if s.pct(30) { format!("{}:={}", s.pick(&["of", "oooc"]), gen::text(s)) } else { gen::text(s) };
        sh.set_formula(r, c, t);
        ctx.label("formula");
        some = true;
    }
    if s.pct(50) {
        sh.set_cellstyle(r, c, &CellStyleRef::from(gen::name(s).as_str()));
        ctx.label("style");
        some = true;
    }
    if s.pct(30) {
        sh.set_validation(r, c, &vref(&gen::name(s)));
        ctx.label("validation");
        some = true;
    }
    if s.pct(40) {
        sh.set_annotation(r, c, annotation(s));
        ctx.label("annotation");
        some = true;
    }
    if s.pct(40) {
        for _ in 0..1 + s.u(2) {
            sh.add_draw_frame(r, c, frame(s));
        }
        ctx.label("frame");
        some = true;
    }
    some
}
