//! C18 cell operations, C19 iterators, C22 value conversions.
use crate::engine::*;
use crate::gen;
use crate::model::*;
use chrono::{Duration, NaiveDate, NaiveDateTime, NaiveTime, Timelike};
use rust_decimal::prelude::{FromPrimitive, ToPrimitive};
use rust_decimal::Decimal;
use spreadsheet_ods::style::CellStyleRef;
use spreadsheet_ods::xmltree::{XmlContent, XmlTag};
use spreadsheet_ods::*;
use std::collections::BTreeMap;
use std::ops::Bound;

// ---------------------------------------------------------------- C18

pub fn c18() -> Check {
    Check {
        id: "C18",
        rule: "histories of up to 60 operations on the cells of a sheet (all setters, clearers, mutable accessors, adding, removing and moving whole cells, cloning the sheet), after every operation all accessors of all positions compared with a map model; histories of setters on a detached cell; non-trivial: an operation hits a position that holds a cell",
        parts: vec![
            Part { name: "history", quick: 80_000, thorough: 1_000_000, run: cell_history },
            Part { name: "content", quick: 80_000, thorough: 500_000, run: content_history },
        ],
        probes: vec![],
    }
}

#[derive(Clone, Debug, PartialEq)]
struct MCell {
    value: String,
    formula: Option<String>,
    style: Option<String>,
    valid: Option<String>,
    repeat: u32,
    span: (u32, u32),
    mat: (u32, u32),
    ann: Option<String>,
    frames: Vec<String>,
}
impl Default for MCell {
    fn default() -> Self {
        MCell { value: canon_raw(&Value::Empty), formula: None, style: None, valid: None, repeat: 1, span: (1, 1), mat: (1, 1), ann: None, frames: vec![] }
    }
}
/// exact rendering, without the file format's equivalences.
fn canon_raw(v: &Value) -> String {
    match v {
        Value::TextXml(x) => format!("xml {}", x.iter().map(gen::xml_str).collect::<Vec<_>>().join(" ")),
        v => canon_value(v),
    }
}
type Pos = (u32, u32);
type Model = BTreeMap<Pos, MCell>;

fn from_ref(c: &CellContentRef<'_>) -> MCell {
    MCell {
        value: canon_raw(c.value()),
        formula: c.formula().cloned(),
        style: c.style().map(|v| v.as_str().to_string()),
        valid: c.validation().map(|v| v.as_str().to_string()),
        repeat: c.repeat(),
        span: (c.row_span(), c.col_span()),
        mat: (c.matrix_row_span(), c.matrix_col_span()),
        ann: c.annotation().map(canon_annotation),
        frames: c.draw_frames().map(|v| v.iter().map(canon_frame).collect()).unwrap_or_default(),
    }
}
fn from_content(c: &CellContent) -> MCell {
    MCell {
        value: canon_raw(c.value()),
        formula: c.formula().cloned(),
        style: c.style().map(|v| v.as_str().to_string()),
        valid: c.validation().map(|v| v.as_str().to_string()),
        repeat: c.clone().get_repeat(),
        span: (c.row_span(), c.col_span()),
        mat: (c.matrix_row_span(), c.matrix_col_span()),
        ann: c.annotation().map(canon_annotation),
        frames: c.draw_frames().iter().map(canon_frame).collect(),
    }
}
fn from_sheet(sh: &Sheet, (r, c): Pos) -> MCell {
    MCell {
        value: canon_raw(sh.value(r, c)),
        formula: sh.formula(r, c).cloned(),
        style: sh.cellstyle(r, c).map(|v| v.as_str().to_string()),
        valid: sh.validation(r, c).map(|v| v.as_str().to_string()),
        repeat: sh.cell_repeat(r, c),
        span: (sh.row_span(r, c), sh.col_span(r, c)),
        mat: (sh.matrix_row_span(r, c), sh.matrix_col_span(r, c)),
        ann: sh.annotation(r, c).map(canon_annotation),
        frames: sh.draw_frames(r, c).map(|v| v.iter().map(canon_frame).collect()).unwrap_or_default(),
    }
}
fn same_cells(what: &str, sh: &Sheet, m: &Model, pool: &[Pos]) -> R {
    eq(&format!("{}: cell_count", what), sh.cell_count(), m.len())?;
    for &p in pool {
        let want = m.get(&p);
        eq(&format!("{}: is_empty {:?}", what, p), sh.is_empty(p.0, p.1), want.is_none())?;
        eq(&format!("{}: accessors {:?}", what, p), from_sheet(sh, p), want.cloned().unwrap_or_default())?;
        eq(&format!("{}: cell_ref {:?}", what, p), sh.cell_ref(p.0, p.1).map(|v| from_ref(&v)), want.cloned())?;
        eq(&format!("{}: cell {:?}", what, p), sh.cell(p.0, p.1).map(|v| from_content(&v)), want.cloned())?;
    }
    eq(&format!("{}: iter", what), sh.iter().map(|(p, c)| (p, from_ref(&c))).collect::<Vec<_>>(), m.iter().map(|(p, c)| (*p, c.clone())).collect())?;
    eq(&format!("{}: iter to_owned", what), sh.iter().map(|(_, c)| from_content(&c.to_owned())).collect::<Vec<_>>(), m.values().cloned().collect())?;
    let max = m.keys().fold((0, 0), |a: Pos, b| (a.0.max(b.0), a.1.max(b.1)));
    eq(&format!("{}: used_grid_size", what), sh.used_grid_size(), (max.0 + 1, max.1 + 1))
}

fn cell_history(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut sh = Sheet::new("h");
    let mut m = Model::new();
    let mut pool: Vec<Pos> = vec![(0, 0), (0, 1), (1, 0), (2, 2)];
    for _ in 0..s.u(4) {
        let p = pos(s);
        if !pool.contains(&p) {
            pool.push(p);
        }
    }
    if s.pct(20) {
        pool.push((u32::MAX - 1, u32::MAX - 1));
        pool.push((1048575, 16383));
    }
    let mut repr = format!("{:?}", pool);
    let mut n = 0;
    while s.more(n, 1, 12, 60) {
        n += 1;
        let p = s.pickc(&pool);
        let (r, c) = p;
        ctx.nontrivial |= m.contains_key(&p);
        let op = s.u(26);
        repr.push_str(&format!(" {}@{:?}", op, p));
        match op {
            0 | 1 => {
                let v = value(s);
                m.entry(p).or_default().value = canon_raw(&v);
                sh.set_value(r, c, v);
            }
            2 | 3 => {
                let v = value(s);
                let st = gen::ident(s);
                let e = m.entry(p).or_default();
                e.value = canon_raw(&v);
                e.style = Some(st.clone());
                if op == 2 {
                    sh.set_styled_value(r, c, v, &CellStyleRef::from(st.as_str()));
                } else {
                    sh.set_styled(r, c, v, &CellStyleRef::from(st.as_str()));
                }
            }
            4 => {
                let t = gen::text(s);
                m.entry(p).or_default().formula = Some(t.clone());
                sh.set_formula(r, c, t);
            }
            5 => {
                if let Some(e) = m.get_mut(&p) {
                    e.formula = None;
                }
                sh.clear_formula(r, c);
            }
            6 => {
                let t = gen::ident(s);
                m.entry(p).or_default().style = Some(t.clone());
                sh.set_cellstyle(r, c, &CellStyleRef::from(t.as_str()));
            }
            7 => {
                if let Some(e) = m.get_mut(&p) {
                    e.style = None;
                }
                sh.clear_cellstyle(r, c);
            }
            8 => {
                let t = gen::ident(s);
                m.entry(p).or_default().valid = Some(t.clone());
                sh.set_validation(r, c, &vref(&t));
            }
            9 => {
                if let Some(e) = m.get_mut(&p) {
                    e.valid = None;
                }
                sh.clear_validation(r, c);
            }
            10 => {
                let x = s.r32(1, 5);
                m.entry(p).or_default().span.0 = x;
                sh.set_row_span(r, c, x);
            }
            11 => {
                let x = s.r32(1, 5);
                m.entry(p).or_default().span.1 = x;
                sh.set_col_span(r, c, x);
            }
            12 => {
                let x = s.r32(1, 5);
                m.entry(p).or_default().mat.0 = x;
                sh.set_matrix_row_span(r, c, x);
            }
            13 => {
                let x = s.r32(1, 5);
                m.entry(p).or_default().mat.1 = x;
                sh.set_matrix_col_span(r, c, x);
            }
            14 => {
                let x = s.r32(1, 5);
                m.entry(p).or_default().repeat = x;
                sh.set_cell_repeat(r, c, x);
            }
            15 => {
                let a = annotation(s);
                m.entry(p).or_default().ann = Some(canon_annotation(&a));
                sh.set_annotation(r, c, a);
            }
            16 => {
                if let Some(e) = m.get_mut(&p) {
                    e.ann = None;
                }
                sh.clear_annotation(r, c);
            }
            17 => {
                let a = annotation(s);
                let e = sh.annotation_mut(r, c);
                eq("annotation_mut exists", e.is_some(), m.get(&p).is_some_and(|v| v.ann.is_some()))?;
                if let Some(e) = e {
                    m.get_mut(&p).unwrap().ann = Some(canon_annotation(&a));
                    *e = a;
                }
            }
            18 | 19 => {
                let f = frame(s);
                m.entry(p).or_default().frames.push(canon_frame(&f));
                sh.add_draw_frame(r, c, f);
            }
            20 => {
                if let Some(e) = m.get_mut(&p) {
                    e.frames.clear();
                }
                sh.clear_draw_frames(r, c);
            }
            21 => {
                if let Some(v) = sh.draw_frames_mut(r, c) {
                    if v.len() > 1 && s.coin() {
                        v.remove(0);
                        m.get_mut(&p).unwrap().frames.remove(0);
                    } else {
                        let f = frame(s);
                        m.get_mut(&p).unwrap().frames.insert(0, canon_frame(&f));
                        v.insert(0, f);
                    }
                }
            }
            22 => {
                let got = sh.remove_cell(r, c);
                eq("removed cell", got.map(|v| from_content(&v)), m.remove(&p))?;
            }
            23 => {
                // move or copy
                let q = s.pickc(&pool);
                let cell = if s.coin() {
                    let x = sh.remove_cell(r, c);
                    eq("moved cell", x.as_ref().map(from_content), m.remove(&p))?;
                    x
                } else {
                    sh.cell(r, c)
                };
                if let Some(cell) = cell {
                    m.insert(q, from_content(&cell));
                    sh.add_cell(q.0, q.1, cell);
                    ctx.label("moved");
                }
            }
            24 => {
                let (c1, w) = gen_content(s);
                m.insert(p, w);
                sh.add_cell(r, c, c1);
            }
            _ => {
                // a clone is independent.
                let mut c2 = sh.clone();
                let e = sh.clone_no_data();
                eq("clone_no_data: cells", e.cell_count(), 0)?;
                eq("clone_no_data: name", e.name(), sh.name())?;
                c2.set_value(r, c, "clone");
                c2.add_draw_frame(r, c, frame(s));
                c2.remove_cell(0, 0);
                ctx.label("cloned");
            }
        }
        same_cells(&format!("after operation {} ({}) at {:?}", n, op, p), &sh, &m, &pool)?;
    }
    ctx.repr = repr;
    Ok(())
}

fn gen_content(s: &mut Src) -> (CellContent, MCell) {
    let mut c = if s.coin() { CellContent::new() } else { CellContent::default() };
    let mut w = MCell::default();
    for _ in 0..s.u(8) {
        content_op(s, &mut c, &mut w);
    }
    (c, w)
}
fn content_op(s: &mut Src, c: &mut CellContent, w: &mut MCell) {
    match s.u(14) {
        0 => {
            let v = value(s);
            w.value = canon_raw(&v);
            c.set_value(v);
        }
        1 => {
            let t = gen::text(s);
            w.formula = Some(t.clone());
            c.set_formula(t);
        }
        2 => {
            w.formula = None;
            c.clear_formula();
        }
        3 => {
            let t = gen::ident(s);
            w.style = Some(t.clone());
            c.set_style(&CellStyleRef::from(t.as_str()));
        }
        4 => {
            w.style = None;
            c.clear_style();
        }
        5 => {
            let t = gen::ident(s);
            w.valid = Some(t.clone());
            c.set_validation(&vref(&t));
        }
        6 => {
            w.valid = None;
            c.clear_validation();
        }
        7 => {
            w.repeat = s.r32(1, 9);
            c.set_repeat(w.repeat);
        }
        8 => {
            w.span.0 = s.r32(1, 9);
            c.set_row_span(w.span.0);
        }
        9 => {
            w.span.1 = s.r32(1, 9);
            c.set_col_span(w.span.1);
        }
        10 => {
            w.mat.0 = s.r32(1, 9);
            c.set_matrix_row_span(w.mat.0);
        }
        11 => {
            w.mat.1 = s.r32(1, 9);
            c.set_matrix_col_span(w.mat.1);
        }
        12 => {
            if s.pct(70) {
                let a = annotation(s);
                w.ann = Some(canon_annotation(&a));
                c.set_annotation(a);
            } else {
                w.ann = None;
                c.clear_annotation();
            }
        }
        _ => {
            let f: Vec<_> = s.vec(0, 1, 3, frame);
            w.frames = f.iter().map(canon_frame).collect();
            c.set_draw_frames(f);
        }
    }
}
fn content_history(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut c = CellContent::new();
    let mut w = MCell::default();
    let mut n = 0;
    while s.more(n, 0, 6, 25) {
        n += 1;
        content_op(s, &mut c, &mut w);
        ctx.nontrivial |= n > 1;
        eq(&format!("content after {}", n), &from_content(&c), &w)?;
    }
    // Into a sheet and back, and through a file if there is anything to see.
    let mut sh = Sheet::new("a");
    sh.add_cell(1, 1, c.clone());
    eq("cell of the sheet", sh.cell(1, 1).map(|v| from_content(&v)), Some(w.clone()))?;
    eq("accessors of the sheet", from_sheet(&sh, (1, 1)), w.clone())?;
    let mut book = WorkBook::new_empty();
    book.push_sheet(sh);
    let f = fmt(s);
    let want = effective(&book, book.sheet(0), true);
    let got = roundtrip(&mut book, f)?;
    let visible = w.value != MCell::default().value || w.formula.is_some() || w.valid.is_some() || w.ann.is_some() || !w.frames.is_empty();
    // runs of empty cells at the end of a row are not kept.
    if visible || w.repeat == 1 {
        diff_grid("cell built from content", &effective(&got, got.sheet(0), false), &want)?;
    }
    if visible && got.sheet(0).is_empty(1, 1) {
        return Err(format!("the cell is lost: {:?}", w));
    }
    ctx.repr = format!("{:?}", w);
    Ok(())
}

// ---------------------------------------------------------------- C19

pub fn c19() -> Check {
    Check {
        id: "C19",
        rule: "sparse sheets of up to 30 cells; all iterators with generated ranges of every bound kind, compared with a filtered and sorted model, size hints checked before every step, peeking mixed with stepping, clones of iterators; non-trivial: at least one cell is in and one is outside of the range",
        parts: vec![Part { name: "iterators", quick: 160_000, thorough: 2_000_000, run: iterators }],
        probes: vec![],
    }
}

fn drain<'a, T: PartialEq + std::fmt::Debug>(what: &str, mut it: impl Iterator<Item = (Pos, CellContentRef<'a>)>, want: &[(Pos, T)], f: impl Fn(&CellContentRef<'a>) -> T) -> R {
    for (i, w) in want.iter().enumerate() {
        let (lo, hi) = it.size_hint();
        let left = want.len() - i;
        if lo > left || hi.is_some_and(|h| h < left) {
            return Err(format!("{}: size hint {:?}, but {} cells are left", what, (lo, hi), left));
        }
        let Some((p, c)) = it.next() else {
            return Err(format!("{}: ends after {} of {} cells, next is {:?}", what, i, want.len(), w));
        };
        eq(&format!("{}: cell {}", what, i), (p, f(&c)), (w.0, f(&c)))?;
        eq(&format!("{}: content of cell {}", what, i), &f(&c), &w.1)?;
    }
    if it.size_hint().0 > 0 {
        return Err(format!("{}: size hint {:?} at the end", what, it.size_hint()));
    }
    for _ in 0..2 {
        if let Some((p, _)) = it.next() {
            return Err(format!("{}: too many cells, {:?}", what, p));
        }
    }
    Ok(())
}

fn far_index(s: &mut Src) -> u32 {
    s.pickc(&[0u32, 0, 20, 90, 250, 700, 1018, 1022, 2040, 4090, 16_380, 65_530, 1_048_570]) + s.r32(0, 8)
}

fn iterators(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut sh = Sheet::new("h");
    let mut m: BTreeMap<Pos, f64> = BTreeMap::new();
    let (h, w) = (s.r32(1, 9), s.r32(1, 9));
    let far = s.pct(30);
    let o: Pos = if far { (far_index(s), far_index(s)) } else { (0, 0) };
    let n = s.u(30);
    for i in 0..n {
        let p = (o.0 + s.r32(0, h), o.1 + s.r32(0, w));
        sh.set_value(p.0, p.1, i as u32);
        m.insert(p, i as f64);
    }
    if s.pct(10) {
        let p = s.pickc(&[(40u32, 3u32), (2, 60), (33, 33)]);
        sh.set_value(p.0, p.1, 99);
        m.insert(p, 99.0);
    }
    let num = |c: &CellContentRef<'_>| c.value().as_f64_or(-1.0);
    let all: Vec<_> = m.iter().map(|(p, v)| (*p, *v)).collect();
    drain("iter", sh.iter(), &all, num)?;
    drain("into_iter", (&sh).into_iter(), &all, num)?;

    // peek and step
    let mut it = sh.iter();
    let mut i = 0;
    let mut k = 0;
    while s.more(k, 0, 10, 40) {
        k += 1;
        match s.u(3) {
            0 => eq("peek_cell", it.peek_cell(), all.get(i).map(|v| v.0))?,
            1 => {
                eq("next after peeks", it.next().map(|v| v.0), all.get(i).map(|v| v.0))?;
                i += 1;
            }
            _ => {
                let rest = if i < all.len() { &all[i..] } else { &[] };
                drain("clone of iter", it.clone(), rest, num)?;
                let (lo, hi) = it.size_hint();
                if lo > rest.len() || hi.is_some_and(|h| h < rest.len()) {
                    return Err(format!("iter: size hint {:?}, but {} cells are left", (lo, hi), rest.len()));
                }
            }
        }
    }

    // ranges
    let a = (s.r32(0, h + 1), s.r32(0, w + 1));
    let b = (o.0 + s.r32(a.0, h + 1), o.1 + s.r32(0, w + 1));
    let a = (o.0 + a.0, o.1 + a.1);
    let small = (o.0 as u64 + 10) * (o.1 as u64 + 10) < 20_000;
    let sb = match s.u(3) {
        0 if small => Bound::Unbounded,
        1 => Bound::Included(a),
        _ => Bound::Excluded(a),
    };
    let eb = match s.u(3) {
        0 => Bound::Unbounded,
        1 => Bound::Included(b),
        _ => Bound::Excluded(b),
    };
    let lexical = match (sb, eb) {
        (Bound::Unbounded, _) | (_, Bound::Unbounded) => true,
        (Bound::Excluded(a), Bound::Excluded(b)) => a < b,
        (Bound::Included(a) | Bound::Excluded(a), Bound::Included(b) | Bound::Excluded(b)) => a <= b,
    };
    // in the rectangle
    let inside = |p: &Pos| {
        (match sb {
            Bound::Unbounded => true,
            Bound::Included(a) => p.0 >= a.0 && p.1 >= a.1,
            Bound::Excluded(a) => p.0 > a.0 && p.1 > a.1,
        }) && (match eb {
            Bound::Unbounded => true,
            Bound::Included(b) => p.0 <= b.0 && p.1 <= b.1,
            Bound::Excluded(b) => p.0 < b.0 && p.1 < b.1,
        })
    };
    let rows: Vec<_> = all.iter().filter(|v| inside(&v.0)).cloned().collect();
    let mut cols = rows.clone();
    cols.sort_by_key(|v| (v.0 .1, v.0 .0));
    ctx.nontrivial = !rows.is_empty() && rows.len() < all.len();
    let what = format!("({:?}, {:?})", sb, eb);
    if lexical {
        drain(&format!("iter_rows {}", what), sh.iter_rows((sb, eb)), &rows, num)?;
        let lex: Vec<_> = m.range((sb, eb)).map(|(p, v)| (*p, *v)).collect();
        drain(&format!("range {}", what), sh.range((sb, eb)), &lex, num)?;
    }
    drain(&format!("iter_cols {}", what), sh.iter_cols((sb, eb)), &cols, num)?;
    // the usual spellings.
    if a <= b && a.1 <= b.1 {
        let f = |p: &Pos, inc: bool| p.0 >= a.0 && p.1 >= a.1 && if inc { p.0 <= b.0 && p.1 <= b.1 } else { p.0 < b.0 && p.1 < b.1 };
        let ex: Vec<_> = all.iter().filter(|v| f(&v.0, false)).cloned().collect();
        let inc: Vec<_> = all.iter().filter(|v| f(&v.0, true)).cloned().collect();
        drain("iter_rows a..b", sh.iter_rows(a..b), &ex, num)?;
        drain("iter_rows a..=b", sh.iter_rows(a..=b), &inc, num)?;
        let sort = |mut v: Vec<(Pos, f64)>| {
            v.sort_by_key(|v| (v.0 .1, v.0 .0));
            v
        };
        drain("iter_cols a..b", sh.iter_cols(a..b), &sort(ex), num)?;
        drain("iter_cols a..=b", sh.iter_cols(a..=b), &sort(inc), num)?;
    }
    drain("iter_rows ..", sh.iter_rows(..), &all, num)?;
    ctx.repr = format!("{:?} {}", m.keys().collect::<Vec<_>>(), what);
    Ok(())
}

// ---------------------------------------------------------------- C22

pub fn c22() -> Check {
    Check {
        id: "C22",
        rule: "values of every kind given as every accepted type, all accessors compared with an oracle computed in exact integer arithmetic, and after a write/read cycle; non-trivial: the value is not zero or empty",
        parts: vec![
            Part { name: "from", quick: 240_000, thorough: 3_000_000, run: from },
            Part { name: "accessors", quick: 240_000, thorough: 3_000_000, run: accessors },
        ],
        probes: vec![],
    }
}

/// The integer part of v, limited to lo..=hi, by decimal text and 128-bit arithmetic.
fn clamp_int(v: f64, lo: i128, hi: i128) -> i128 {
    if v.is_nan() {
        return 0;
    }
    if v >= 1e30 {
        return hi;
    }
    if v <= -1e30 {
        return lo;
    }
    let t = format!("{:.30}", v);
    let i: i128 = t.split('.').next().unwrap().parse().unwrap();
    i.clamp(lo, hi)
}

macro_rules! ints {
    ($v:expr, $num:expr, $d:expr, $( ($t:ty, $opt:ident, $or:ident, $def:ident) ),*) => {
        $(
            let want: Option<$t> = $num.map(|n| clamp_int(n, <$t>::MIN as i128, <$t>::MAX as i128) as $t);
            eq(stringify!($opt), $v.$opt(), want)?;
            eq(stringify!($or), $v.$or($d as $t), want.unwrap_or($d as $t))?;
            eq(stringify!($def), $v.$def(), want.unwrap_or(0))?;
        )*
    };
}

fn plain_text(t: &XmlTag, o: &mut String) {
    for c in t.content() {
        match c {
            XmlContent::Text(x) => o.push_str(x),
            XmlContent::Tag(t) => plain_text(t, o),
        }
    }
}
fn spacing(t: &XmlTag) -> bool {
    matches!(t.name(), "text:line-break" | "text:s" | "text:tab") || t.content().iter().any(|c| matches!(c, XmlContent::Tag(t) if spacing(t)))
}

fn check_all(v: &Value, s: &mut Src) -> R {
    let num = match v {
        Value::Number(n) | Value::Percentage(n) | Value::Currency(n, _) => Some(*n),
        _ => None,
    };
    let d = s.r32(1, 100);
    ints!(
        v,
        num,
        d,
        (i64, as_i64_opt, as_i64_or, as_i64_or_default),
        (u64, as_u64_opt, as_u64_or, as_u64_or_default),
        (i32, as_i32_opt, as_i32_or, as_i32_or_default),
        (u32, as_u32_opt, as_u32_or, as_u32_or_default),
        (i16, as_i16_opt, as_i16_or, as_i16_or_default),
        (u16, as_u16_opt, as_u16_or, as_u16_or_default),
        (i8, as_i8_opt, as_i8_or, as_i8_or_default),
        (u8, as_u8_opt, as_u8_or, as_u8_or_default)
    );
    let bits = |v: f64| v.to_bits();
    eq("as_f64_opt", v.as_f64_opt().map(bits), num.map(bits))?;
    eq("as_f64_or", bits(v.as_f64_or(0.5)), bits(num.unwrap_or(0.5)))?;
    eq("as_f64_or_default", bits(v.as_f64_or_default()), bits(num.unwrap_or(0.0)))?;
    let dec = num.and_then(Decimal::from_f64);
    eq("as_decimal_opt", v.as_decimal_opt(), dec)?;
    eq("as_decimal_or", v.as_decimal_or(Decimal::new(5, 1)), dec.unwrap_or(Decimal::new(5, 1)))?;
    eq("as_decimal_or_default", v.as_decimal_or_default(), dec.unwrap_or_default())?;
    if let (Some(n), Some(dec)) = (num, dec) {
        let e = (dec.to_f64().unwrap() - n).abs();
        if e > n.abs() * 1e-14 && e > 1e-27 {
            return Err(format!("as_decimal of {:?} is {}", n, dec));
        }
    }
    let b = if let Value::Boolean(b) = v { Some(*b) } else { None };
    eq("as_bool_or false", v.as_bool_or(false), b.unwrap_or(false))?;
    eq("as_bool_or true", v.as_bool_or(true), b.unwrap_or(true))?;
    let t = if let Value::Text(t) = v { Some(t.clone()) } else { None };
    eq("as_str_opt", v.as_str_opt().map(|v| v.to_string()), t.clone())?;
    eq("as_str_or", v.as_str_or("dd").to_string(), t.clone().unwrap_or("dd".into()))?;
    eq("as_str_or_default", v.as_str_or_default().to_string(), t.clone().unwrap_or_default())?;
    eq("as_string_opt", v.as_string_opt(), t.clone())?;
    eq("as_string_or_default", v.as_string_or_default(), t.clone().unwrap_or_default())?;
    match v {
        Value::TextXml(x) => {
            if !x.iter().any(spacing) {
                let want = x
                    .iter()
                    .map(|t| {
                        let mut o = String::new();
                        plain_text(t, &mut o);
                        o
                    })
                    .collect::<Vec<_>>()
                    .join("\n");
                eq("as_cow_str_or", v.as_cow_str_or("dd").to_string(), want)?;
            }
        }
        _ => eq("as_cow_str_or", v.as_cow_str_or("dd").to_string(), t.unwrap_or("dd".into()))?,
    }
    let td = if let Value::TimeDuration(t) = v { Some(*t) } else { None };
    let dd = Duration::seconds(d as i64);
    eq("as_timeduration_opt", v.as_timeduration_opt(), td)?;
    eq("as_timeduration_or", v.as_timeduration_or(dd), td.unwrap_or(dd))?;
    eq("as_timeduration_or_default", v.as_timeduration_or_default(), td.unwrap_or(Duration::zero()))?;
    let dt = if let Value::DateTime(t) = v { Some(*t) } else { None };
    let ddt = ndt(2000 + d as i32);
    eq("as_datetime_opt", v.as_datetime_opt(), dt)?;
    eq("as_datetime_or", v.as_datetime_or(ddt), dt.unwrap_or(ddt))?;
    eq("as_datetime_or_default", v.as_datetime_or_default(), dt.unwrap_or_default())?;
    let da = dt.map(|v| v.date());
    eq("as_date_opt", v.as_date_opt(), da)?;
    eq("as_date_or", v.as_date_or(ddt.date()), da.unwrap_or(ddt.date()))?;
    eq("as_date_or_default", v.as_date_or_default(), da.unwrap_or_default())?;
    let cur = if let Value::Currency(_, c) = v { c.to_string() } else { String::new() };
    eq("currency", v.currency().to_string(), cur)?;
    let ty = match v {
        Value::Empty => ValueType::Empty,
        Value::Boolean(_) => ValueType::Boolean,
        Value::Number(_) => ValueType::Number,
        Value::Percentage(_) => ValueType::Percentage,
        Value::Currency(_, _) => ValueType::Currency,
        Value::Text(_) => ValueType::Text,
        Value::TextXml(_) => ValueType::TextXml,
        Value::DateTime(_) => ValueType::DateTime,
        Value::TimeDuration(_) => ValueType::TimeDuration,
    };
    eq("value_type", v.value_type(), ty)
}

fn accessors(s: &mut Src, ctx: &mut Ctx) -> R {
    let v = match s.u(8) {
        0 => Value::Empty,
        1 | 2 => {
            // around the limits of the integer types.
            let p = s.pickc(&[7, 8, 15, 16, 31, 32, 53, 63, 64]);
            let x = 2f64.powi(p) * s.pickc(&[1.0, -1.0]) + s.pickc(&[0.0, 0.5, -0.5, 1.0, -1.0, 0.999, -0.999, 2.0]);
            match s.u(3) {
                0 => Value::Number(x),
                1 => Value::Percentage(x),
                _ => Value::Currency(x, "EUR".into()),
            }
        }
        _ => value(s),
    };
    ctx.repr = canon_raw(&v);
    ctx.nontrivial = v != Value::Empty && v.as_f64_opt() != Some(0.0);
    check_all(&v, s)?;
    // the same from a sheet, and from a file.
    let mut sh = Sheet::new("x");
    sh.set_value(2, 3, v.clone());
    eq("sheet value", canon_raw(sh.value(2, 3)), canon_raw(&v))?;
    check_all(sh.value(2, 3), s)
}

macro_rules! from_num {
    ($s:expr, $r:expr, $t:ty, $x:expr) => {{
        let x: $t = $x;
        *$r = format!("{} {:?}", stringify!($t), x);
        let want = Value::Number(x as f64);
        eqv("value", Value::from(x), &want)?;
        eqv("reference", Value::from(&x), &want)?;
        eqv("some", Value::from(Some(x)), &want)?;
        eqv("some reference", Value::from(Some(&x)), &want)?;
        eqv("none", Value::from(None::<$t>), &Value::Empty)?;
        eqv("none reference", Value::from(None::<&$t>), &Value::Empty)?;
        want
    }};
}
fn eqv(what: &str, got: Value, want: &Value) -> R {
    eq(what, canon_raw(&got), canon_raw(want))
}
/// Integers, by bit width, with the limits.
fn int(s: &mut Src) -> i128 {
    match s.u(4) {
        0 => s.range(-100, 100) as i128,
        1 => s.pickc(&[i64::MIN, i64::MAX, i32::MAX as i64, i32::MIN as i64, u32::MAX as i64, 255, 128, -128, 65535, -32768, 1 << 53, (1 << 53) - 1, -(1 << 53)]) as i128,
        2 => u64::MAX as i128 - s.u(3000) as i128,
        _ => (s.draw(0) >> s.u(64)) as i128 * s.pickc(&[1, -1]),
    }
}

fn from(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut r = String::new();
    let rr = &mut r;
    let v = match s.u(20) {
        0 => from_num!(s, rr, f64, gen::f64_any(s)),
        1 => from_num!(s, rr, f32, gen::f64_any(s) as f32),
        2 => from_num!(s, rr, i64, int(s) as i64),
        3 => from_num!(s, rr, i32, int(s) as i32),
        4 => from_num!(s, rr, i16, int(s) as i16),
        5 => from_num!(s, rr, i8, int(s) as i8),
        6 => from_num!(s, rr, u64, int(s) as u64),
        7 => from_num!(s, rr, u32, int(s) as u32),
        8 => from_num!(s, rr, u16, int(s) as u16),
        9 => from_num!(s, rr, u8, int(s) as u8),
        10 => {
            // integers up to 53 bits come back as they are.
            let x = (int(s) as i64).clamp(-(1 << 53), 1 << 53);
            let v = Value::from(x);
            eq("integer comes back", v.as_i64_opt(), Some(x))?;
            if x >= 0 {
                eq("integer comes back unsigned", Value::from(x as u64).as_u64_opt(), Some(x as u64))?;
            }
            if let Ok(y) = i32::try_from(x) {
                eq("i32 comes back", Value::from(y).as_i32_opt(), Some(y))?;
            }
            if let Ok(y) = u32::try_from(x) {
                eq("u32 comes back", Value::from(y).as_u32_opt(), Some(y))?;
            }
            if let Ok(y) = i16::try_from(x) {
                eq("i16 comes back", Value::from(y).as_i16_opt(), Some(y))?;
            }
            if let Ok(y) = i8::try_from(x) {
                eq("i8 comes back", Value::from(y).as_i8_opt(), Some(y))?;
            }
            v
        }
        11 => {
            let b = s.coin();
            eqv("some bool", Value::from(Some(b)), &Value::Boolean(b))?;
            eqv("no bool", Value::from(None::<bool>), &Value::Empty)?;
            eqv("bool", Value::from(b), &Value::Boolean(b))?;
            Value::from(b)
        }
        12 => {
            let t = gen::text(s);
            let w = Value::Text(t.clone());
            eqv("&str", Value::from(t.as_str()), &w)?;
            eqv("&String", Value::from(&t), &w)?;
            eqv("Option<&str>", Value::from(Some(t.as_str())), &w)?;
            eqv("Option<&String>", Value::from(Some(&t)), &w)?;
            eqv("Option<String>", Value::from(Some(t.clone())), &w)?;
            eqv("None<&str>", Value::from(None::<&str>), &Value::Empty)?;
            eqv("None<&String>", Value::from(None::<&String>), &Value::Empty)?;
            eqv("None<String>", Value::from(None::<String>), &Value::Empty)?;
            eqv("String", Value::from(t), &w)?;
            w
        }
        13 => {
            let p = s.vec(1, 1, 3, paragraph);
            eqv("tag", Value::from(p[0].clone()), &Value::TextXml(vec![p[0].clone()]))?;
            eqv("tags", Value::from(p.clone()), &Value::TextXml(p.clone()))?;
            Value::TextXml(p)
        }
        14 => {
            let d = gen::datetime(s);
            let w = Value::DateTime(d);
            eqv("datetime", Value::from(d), &w)?;
            eqv("some datetime", Value::from(Some(d)), &w)?;
            eqv("no datetime", Value::from(None::<NaiveDateTime>), &Value::Empty)?;
            w
        }
        15 => {
            let d = gen::datetime(s).date();
            let v = Value::from(d);
            eq("date comes back", v.as_date_opt(), Some(d))?;
            eq("date is at midnight", v.as_datetime_opt().map(|v| v.num_seconds_from_midnight()), Some(0))?;
            eqv("some date", Value::from(Some(d)), &v)?;
            eqv("no date", Value::from(None::<NaiveDate>), &Value::Empty)?;
            v
        }
        16 => {
            let t = gen::datetime(s).time();
            let v = Value::from(t);
            eq("time comes back", v.as_datetime_opt().map(|v| v.time()), Some(t))?;
            eq("date of a time", v.as_date_opt(), NaiveDate::from_ymd_opt(1899, 12, 30))?;
            eqv("some time", Value::from(Some(t)), &v)?;
            eqv("no time", Value::from(None::<NaiveTime>), &Value::Empty)?;
            v
        }
        17 => {
            let d = gen::duration(s);
            let w = Value::TimeDuration(d);
            eqv("duration", Value::from(d), &w)?;
            eqv("some duration", Value::from(Some(d)), &w)?;
            eqv("no duration", Value::from(None::<Duration>), &Value::Empty)?;
            w
        }
        18 => {
            let d = Decimal::new(s.range(-999_999_999_999, 999_999_999_999), s.r32(0, 9));
            let w: f64 = d.to_string().parse().unwrap();
            let v = Value::from(d);
            let g = v.as_f64_or(f64::NAN);
            if (g - w).abs() > w.abs() * 1e-14 {
                return Err(format!("decimal {} is {:?}", d, g));
            }
            eqv("some decimal", Value::from(Some(d)), &v)?;
            eqv("no decimal", Value::from(None::<Decimal>), &Value::Empty)?;
            let back = v.as_decimal_or_default();
            if (back - d).abs() > d.abs() * Decimal::new(1, 14) {
                return Err(format!("decimal {} comes back as {}", d, back));
            }
            v
        }
        _ => {
            let c = gen::line(s);
            let x = gen::f64_any(s);
            eqv("new_currency", Value::new_currency(&c, x), &Value::Currency(x, c.as_str().into()))?;
            eqv("currency!", currency!(&c, x), &Value::Currency(x, c.as_str().into()))?;
            eqv("new_percentage", Value::new_percentage(x), &Value::Percentage(x))?;
            eqv("percent!", percent!(x), &Value::Percentage(x))?;
            eqv("()", Value::from(()), &Value::Empty)?;
            Value::Currency(x, c.into())
        }
    };
    if r.is_empty() {
        r = canon_raw(&v);
    }
    ctx.repr = r;
    ctx.nontrivial = v != Value::Empty && v.as_f64_opt() != Some(0.0);
    check_all(&v, s)
}
