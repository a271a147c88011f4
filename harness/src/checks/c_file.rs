//! C13 ods = fods, C14 pass-through, C15 repeatable writing, C17 read options, C26 container.
use super::c_styles::diff_maps;
use crate::engine::*;
use crate::full::{self, Dump};
use crate::gen;
use crate::model::*;
use crate::xmlp::{self, Elem, Node};
use spreadsheet_ods::*;
use std::collections::BTreeMap;
use std::io::Cursor;

pub fn c13() -> Check {
    Check {
        id: "C13",
        rule: "workbooks using all features at once, written as ods and fods and read back: both show the same content; and chains of 1-4 conversions between the formats, each step showing the same content; non-trivial: at least two sheets or any style, format, page, validation or attachment",
        parts: vec![
            Part { name: "same", quick: 12_000, thorough: 100_000, run: same },
            Part { name: "chain", quick: 12_000, thorough: 100_000, run: chain },
        ],
        probes: vec![],
    }
}
fn nontriv(b: &WorkBook, ctx: &mut Ctx) {
    ctx.nontrivial = b.num_sheets() > 1 || ctx.labels.len() > 2;
}
fn show(b: &WorkBook) -> String {
    let d = full::dump(b, true);
    let mut o = String::new();
    for (k, v) in d {
        if k.contains(" row ") || k.contains(" col ") {
            continue;
        }
        o.push_str(&format!("{}={}; ", k, v));
        if o.len() > 3000 {
            break;
        }
    }
    o
}
fn same(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut book = full::gen_book(s, ctx);
    nontriv(&book, ctx);
    ctx.repr = show(&book);
    let mut b2 = book.clone();
    let a = roundtrip(&mut book, Fmt::OdsPlain)?;
    let b = roundtrip(&mut b2, Fmt::Fods)?;
    diff_maps("fods (got) and ods (want)", &full::dump(&b, true), &full::dump(&a, true))
}
fn chain(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut book = full::gen_book(s, ctx);
    nontriv(&book, ctx);
    ctx.repr = show(&book);
    let mut cur = roundtrip(&mut book, fmt(s))?;
    let want = full::dump(&cur, true);
    for i in 0..1 + s.u(4) {
        let f = fmt(s);
        cur = roundtrip(&mut cur, f)?;
        diff_maps(&format!("step {} {:?}", i, f), &full::dump(&cur, true), &want)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

pub fn c15() -> Check {
    Check {
        id: "C15",
        rule: "workbooks using all features at once: writing leaves what the accessors show unchanged (besides statistics and the default active sheet), writing twice gives the same content, a clone writes the same content, and write-read is idempotent from the first reading on; non-trivial: at least two sheets or any style, format, page, validation or attachment",
        parts: vec![Part { name: "repeat", quick: 14_000, thorough: 100_000, run: repeat }],
        probes: vec![],
    }
}
/// Without the row and column styles, which the writer adjusts to the sizes in use.
fn sans_size(mut d: Dump) -> Dump {
    d.retain(|k, _| !k.starts_with("style col/") && !k.starts_with("style row/"));
    d
}
fn repeat(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut book = full::gen_book(s, ctx);
    let f = fmt(s);
    nontriv(&book, ctx);
    ctx.repr = format!("{:?} {}", f, show(&book));
    let mut want = sans_size(full::dump(&book, false));
    if book.config().active_table.is_empty() {
        let mut b = book.clone();
        b.config_mut().active_table = b.sheet(0).name().clone();
        want = sans_size(full::dump(&b, false));
    }
    let mut copy = book.clone();
    let w1 = write(&mut book, f)?;
    diff_maps("workbook after writing", &sans_size(full::dump(&book, false)), &want)?;
    let after = full::dump(&book, false);
    let w2 = write(&mut book, f)?;
    diff_maps("workbook after writing twice", &full::dump(&book, false), &after)?;
    let r1 = full::dump(&read(&w1, f)?, false);
    let mut b1 = read(&w2, f)?;
    diff_maps("second writing", &full::dump(&b1, false), &r1)?;
    let w3 = write(&mut copy, f)?;
    diff_maps("writing of a clone", &full::dump(&read(&w3, f)?, false), &r1)?;
    for i in 0..2 {
        b1 = roundtrip(&mut b1, f)?;
        diff_maps(&format!("round trip {} after reading", i + 1), &full::dump(&b1, false), &r1)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

pub fn c17() -> Check {
    Check {
        id: "C17",
        rule: "workbooks using all features at once, read with every combination of the read options and through every entry point (buffer, reader, path): cells kept as repeats expand to the same grid, content-only has the same sheets, cells and structure, ignoring empty cells leaves exactly the cells with a value or formula; non-trivial: a repeat, or a cell with neither value nor formula",
        parts: vec![
            Part { name: "options", quick: 9_000, thorough: 100_000, run: options },
            Part { name: "entries", quick: 1_600, thorough: 8_000, run: entries },
        ],
        probes: vec![],
    }
}
fn grids(b: &WorkBook) -> Vec<Grid> {
    b.iter_sheets().map(|sh| effective(b, sh, false)).collect()
}
fn content(b: &WorkBook) -> Dump {
    let mut d = Dump::new();
    full::dump_content(b, &mut d, false);
    d
}
/// Repeats are kept where asked for, and there are none otherwise.
fn repeats(what: &str, orig: &WorkBook, b: &WorkBook, keep: bool) -> R {
    for (i, sh) in b.iter_sheets().enumerate() {
        if !keep {
            for ((r, c), cell) in sh.iter() {
                if cell.repeat > 1 || sh.row_repeat(r) > 1 {
                    return Err(format!("{} sheet {}: cell {:?} still has a repeat", what, i, (r, c)));
                }
            }
            continue;
        }
        let w = orig.sheet(i);
        let spans = w.iter().any(|v| v.1.span.row_span() > 1 || v.1.span.col_span() > 1);
        for ((r, c), cell) in w.iter() {
            if *cell.value() == Value::Empty || spans {
                continue;
            }
            eq(&format!("{} sheet {}: repeat of cell {:?}", what, i, (r, c)), sh.cell_repeat(r, c), cell.repeat.max(1))?;
            if w.row_repeat(r) <= 1000 {
                eq(&format!("{} sheet {}: repeat of row {}", what, i, r), sh.row_repeat(r).max(1), w.row_repeat(r).max(1))?;
            }
        }
    }
    Ok(())
}

fn options(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut book = full::gen_book(s, ctx);
    full::gen_extra_files(s, &mut book);
    let f = fmt(s);
    ctx.repr = format!("{:?} {}", f, show(&book));
    let buf = write(&mut book, f)?;
    let base = read(&buf, f)?;
    let bg = grids(&base);
    let filt = |keep: &dyn Fn(&CellContentRef<'_>) -> bool| -> Vec<Grid> {
        base.iter_sheets()
            .map(|sh| {
                let mut g = effective(&base, sh, false);
                g.retain(|k, _| sh.cell_ref(k.0, k.1).is_some_and(|c| keep(&c)));
                g
            })
            .collect()
    };
    // nothing but a style must go, everything else must stay.
    let must = filt(&|c| *c.value() != Value::Empty || c.formula().is_some() || canon_cell(c, None) != "-");
    let filtered = &must;
    ctx.nontrivial = ctx.labels.iter().any(|l| l.ends_with("repeat")) || *filtered != bg;
    ctx.label_if(*filtered != bg, "style-only");
    // explicit defaults
    let o = OdsOptions::default().content_only().read_styles().use_repeat_for_cells().use_clone_for_cells().ignore_empty_cells().read_empty_cells();
    diff_maps("explicit defaults", &full::dump(&read_opt(&buf, f, &o)?, false), &full::dump(&base, false))?;
    for m in 1..8 {
        let mut o = OdsOptions::default();
        if m & 1 != 0 {
            o = o.content_only();
        }
        if m & 2 != 0 {
            o = o.use_repeat_for_cells();
        }
        if m & 4 != 0 {
            o = o.ignore_empty_cells();
        }
        let b = read_opt(&buf, f, &o)?;
        let what = format!("content-only {} repeat {} ignore-empty {}", m & 1, m & 2, m & 4);
        eq(&what, b.num_sheets(), base.num_sheets())?;
        repeats(&what, &book, &b, m & 2 != 0)?;
        if m & 1 != 0 {
            // what is skipped
            eq(&format!("{}: additional files", what), b.iter_manifest().filter(|v| v.buffer.is_some()).count(), 0)?;
            eq(&format!("{}: metadata", what), (b.metadata().title.as_str(), b.metadata().user_defined.len()), ("", 0))?;
            let named = b.iter_cellstyles().filter(|v| base.cellstyle(v.name()).is_some_and(|v| v.styleuse() != spreadsheet_ods::style::StyleUse::Automatic)).count();
            eq(&format!("{}: named styles", what), named, 0)?;
        }
        for (i, g) in grids(&b).into_iter().enumerate() {
            if m & 4 != 0 {
                diff_grid(&format!("{} sheet {}", what, i), &g, &must[i])?;
            } else {
                diff_grid(&format!("{} sheet {}", what, i), &g, &bg[i])?;
            }
        }
        let strip = |mut d: Dump| {
            d.retain(|k, _| !k.contains(" cell "));
            if m & 1 != 0 {
                // sizes and styles come from the style sheet.
                d.retain(|k, _| !k.contains(" row ") && !k.contains(" col "));
            }
            d
        };
        diff_maps(&what, &strip(content(&b)), &strip(content(&base)))?;
        if m & 1 == 0 {
            let strip = |mut d: Dump| {
                d.retain(|k, _| !k.contains(" cell "));
                d
            };
            diff_maps(&what, &strip(full::dump(&b, false)), &strip(full::dump(&base, false)))?;
        } else {
            for (i, sh) in b.iter_sheets().enumerate() {
                for k in 0..16 {
                    let w = base.sheet(i);
                    eq(&format!("{} visible", what), (sh.col_visible(k) as u8, sh.row_visible(k) as u8), (w.col_visible(k) as u8, w.row_visible(k) as u8))?;
                    eq(&format!("{} default style", what), (sh.col_cellstyle(k), sh.row_cellstyle(k)), (w.col_cellstyle(k), w.row_cellstyle(k)))?;
                }
            }
        }
    }
    Ok(())
}
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("odsv-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// All ways to write, all ways to read.
fn entries(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut book = full::gen_book(s, ctx);
    let files = full::gen_extra_files(s, &mut book);
    ctx.nontrivial = true;
    ctx.repr = show(&book);
    let e = |e: OdsError| e.to_string();
    let dir = Scratch::new();
    let fods = s.coin();
    let f = if fods { Fmt::Fods } else { Fmt::Ods };
    let want = full::dump(&roundtrip(&mut book.clone(), f)?, false);
    let path = dir.0.join("f");
    let mut bufs: Vec<(&str, Vec<u8>)> = vec![];
    if fods {
        bufs.push(("buf", write_fods_buf(&mut book.clone(), Vec::new()).map_err(e)?));
        let mut c = Cursor::new(vec![]);
        write_fods_to(&mut book.clone(), &mut c).map_err(e)?;
        bufs.push(("to", c.into_inner()));
        write_fods(&mut book.clone(), &path).map_err(e)?;
        bufs.push(("path", std::fs::read(&path).map_err(|e| e.to_string())?));
        // an existing longer file is replaced
        std::fs::write(&path, vec![b'x'; 3_000_000]).map_err(|e| e.to_string())?;
        write_fods(&mut book.clone(), &path).map_err(e)?;
        bufs.push(("path over", std::fs::read(&path).map_err(|e| e.to_string())?));
    } else {
        bufs.push(("buf", write_ods_buf(&mut book.clone(), Vec::new()).map_err(e)?));
        bufs.push(("plain", write_ods_buf_uncompressed(&mut book.clone(), Vec::new()).map_err(e)?));
        let mut c = Cursor::new(vec![]);
        write_ods_to(&mut book.clone(), &mut c).map_err(e)?;
        bufs.push(("to", c.into_inner()));
        for (m, l) in [(zip::CompressionMethod::Stored, None), (zip::CompressionMethod::Deflated, None), (zip::CompressionMethod::Deflated, Some(1 + s.range(0, 8)))] {
            let mut c = Cursor::new(vec![]);
            OdsWriteOptions::default().compression_method(m).compression_level(l).write_ods(&mut book.clone(), &mut c).map_err(e)?;
            bufs.push(("options", c.into_inner()));
        }
        write_ods(&mut book.clone(), &path).map_err(e)?;
        bufs.push(("path", std::fs::read(&path).map_err(|e| e.to_string())?));
        std::fs::write(&path, vec![b'x'; 3_000_000]).map_err(|e| e.to_string())?;
        write_ods(&mut book.clone(), &path).map_err(e)?;
        bufs.push(("path over", std::fs::read(&path).map_err(|e| e.to_string())?));
    }
    for (n, b) in &bufs {
        std::fs::write(&path, b).map_err(|e| e.to_string())?;
        let got = if fods {
            vec![
                read_fods_buf(b).map_err(e)?,
                read_fods_from(Cursor::new(b)).map_err(e)?,
                read_fods(&path).map_err(e)?,
                OdsOptions::default().read_fods(Cursor::new(b)).map_err(e)?,
            ]
        } else {
            vec![
                read_ods_buf(b).map_err(e)?,
                read_ods_from(Cursor::new(b)).map_err(e)?,
                read_ods(&path).map_err(e)?,
                OdsOptions::default().read_ods(Cursor::new(b)).map_err(e)?,
            ]
        };
        for (i, g) in got.iter().enumerate() {
            diff_maps(&format!("written {} read {}", n, i), &full::dump(g, false), &want)?;
            if !fods {
                diff_maps("extra files", &extra_files(g), &files)?;
            }
        }
    }
    Ok(())
}
fn extra_files(b: &WorkBook) -> BTreeMap<String, (String, Vec<u8>)> {
    b.iter_manifest()
        .filter(|m| !matches!(m.full_path.as_str(), "/" | "settings.xml" | "styles.xml" | "content.xml" | "meta.xml" | "manifest.rdf"))
        .map(|m| (m.full_path.clone(), (m.media_type.clone(), m.buffer.clone().unwrap_or_default())))
        .collect()
}

// ---------------------------------------------------------------- C26

pub fn c26() -> Check {
    Check {
        id: "C26",
        rule: "workbooks with random extra files and folders: the written container starts with the stored mimetype, has each file once, a manifest that lists exactly the files with their media types, and the extra bytes unchanged, also after further read-write cycles; and containers re-packed with any order, compression and without the optional parts read the same; non-trivial: an extra file, or a part left out",
        parts: vec![
            Part { name: "written", quick: 10_000, thorough: 60_000, run: written },
            Part { name: "repacked", quick: 10_000, thorough: 60_000, run: repacked },
        ],
        probes: vec![],
    }
}
const MIME: &str = "application/vnd.oasis.opendocument.spreadsheet";
fn check_zip(b: &[u8], version: &str, files: &BTreeMap<String, (String, Vec<u8>)>) -> R {
    let z = xmlp::unzip(b)?;
    if z[0].0 != "mimetype" || !z[0].2 || z[0].1 != MIME.as_bytes() {
        return Err(format!("first entry is {:?} stored={} {:?}", z[0].0, z[0].2, String::from_utf8_lossy(&z[0].1)));
    }
    // local header of the first entry: no extra field, so that the type is at offset 38.
    if b.get(0..4) != Some(b"PK\x03\x04") || b.get(30..38) != Some(b"mimetype") || b.get(38..38 + MIME.len()) != Some(MIME.as_bytes()) {
        return Err("the mimetype is not at the start of the file".into());
    }
    let mut names: Vec<&str> = z.iter().map(|e| e.0.as_str()).collect();
    names.sort();
    let n = names.len();
    names.dedup();
    eq("duplicate entries", n, names.len())?;
    let zm: BTreeMap<String, Vec<u8>> = z.iter().map(|e| (e.0.clone(), e.1.clone())).collect();
    let m = xmlp::parse(zm.get("META-INF/manifest.xml").ok_or("no manifest")?, true)?;
    let mut listed: BTreeMap<String, String> = BTreeMap::new();
    for e in m.all("manifest:file-entry") {
        let p = e.attr("manifest:full-path").ok_or("no path")?.to_string();
        let t = e.attr("manifest:media-type").ok_or("no media type")?.to_string();
        if listed.insert(p.clone(), t).is_some() {
            return Err(format!("{:?} is listed twice", p));
        }
        if p == "/" {
            eq("version", e.attr("manifest:version"), Some(version))?;
        }
    }
    eq("media type", listed.get("/").map(|v| v.as_str()), Some(MIME))?;
    for p in listed.keys() {
        if p != "/" && !zm.contains_key(p) {
            return Err(format!("{:?} is in the manifest only", p));
        }
    }
    for p in zm.keys() {
        if p != "mimetype" && !p.starts_with("META-INF/") && !listed.contains_key(p) {
            return Err(format!("{:?} is not in the manifest", p));
        }
    }
    for p in ["content.xml", "styles.xml", "meta.xml", "settings.xml"] {
        xmlp::parse(zm.get(p).ok_or(format!("no {}", p))?, true).map_err(|e| format!("{}: {}", p, e))?;
        eq(p, listed.get(p).map(|v| v.as_str()), Some("text/xml"))?;
    }
    for (p, (t, d)) in files {
        eq(&format!("media type of {:?}", p), listed.get(p), Some(t))?;
        if zm.get(p) != Some(d) {
            return Err(format!("bytes of {:?} differ", p));
        }
    }
    Ok(())
}
fn written(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut book = if s.pct(30) {
        full::gen_book(s, ctx)
    } else {
        let mut b = book_new(s);
        b.push_sheet(Sheet::new("a"));
        b
    };
    let mut files = full::gen_extra_files(s, &mut book);
    ctx.nontrivial = !files.is_empty();
    ctx.repr = format!("{:?}", files.iter().map(|(k, v)| (k, &v.0, v.1.len())).collect::<Vec<_>>());
    for _ in 0..1 + s.u(3) {
        let f = if s.coin() { Fmt::Ods } else { Fmt::OdsPlain };
        let buf = write(&mut book, f)?;
        check_zip(&buf, book.version(), &files)?;
        if s.coin() {
            book = read(&buf, f)?;
            eq("extra files", extra_files(&book), files.clone())?;
            ctx.label("read-again");
        }
        if s.pct(30) {
            // drop or replace one
            if let Some(k) = files.keys().next().cloned() {
                if s.coin() {
                    files.remove(&k);
                    eq("removed", book.remove_manifest(&k).is_some(), true)?;
                } else if !k.ends_with('/') {
                    files.insert(k.clone(), ("x/y".into(), vec![1, 2, 3]));
                    let m = book.manifest_mut(&k).ok_or("lost")?;
                    m.media_type = "x/y".into();
                    m.buffer = Some(vec![1, 2, 3]);
                }
                ctx.label("edited");
            }
        }
    }
    Ok(())
}
fn repacked(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut book = full::gen_book(s, ctx);
    let files = full::gen_extra_files(s, &mut book);
    let buf = write(&mut book, Fmt::OdsPlain)?;
    let base = read(&buf, Fmt::Ods)?;
    let mut z: Vec<(String, Vec<u8>)> = xmlp::unzip(&buf)?.into_iter().map(|(n, b, _)| (n, b)).collect();
    for i in (1..z.len()).rev() {
        let j = s.u(i + 1);
        z.swap(i, j);
    }
    let mut gone = vec![];
    for p in ["mimetype", "META-INF/", "META-INF/manifest.xml", "meta.xml", "settings.xml", "styles.xml"] {
        if s.pct(20) {
            z.retain(|e| e.0 != p);
            gone.push(p);
        }
    }
    ctx.nontrivial = !gone.is_empty() || !files.is_empty();
    ctx.label_if(!gone.is_empty(), "parts-missing");
    let st = s.draw(0);
    let b2 = xmlp::zip_up(&z, |n| (st >> (n.len() % 60)) & 1 == 1)?;
    ctx.repr = format!("order {:?} without {:?}", z.iter().map(|e| e.0.as_str()).collect::<Vec<_>>(), gone);
    let got = read(&b2, Fmt::Ods).map_err(|e| format!("without {:?}: {}", gone, e))?;
    let strip = |mut d: Dump| {
        if gone.contains(&"meta.xml") {
            d.retain(|k, _| !k.starts_with("meta "));
        }
        if gone.contains(&"settings.xml") {
            d.retain(|k, _| !k.starts_with("config "));
        }
        if gone.contains(&"styles.xml") {
            // named styles are missing, and with them the sizes they give.
            d.retain(|k, _| !k.starts_with("style ") && !k.starts_with("format ") && !k.starts_with("page ") && !k.contains(" row ") && !k.contains(" col "));
        }
        d
    };
    diff_maps("repacked", &strip(full::dump(&got, false)), &strip(full::dump(&base, false)))?;
    if !gone.contains(&"META-INF/manifest.xml") {
        eq("extra files", extra_files(&got), files)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

pub fn c14() -> Check {
    Check {
        id: "C14",
        rule: "files into which the ODF elements the library does not interpret (named expressions, database ranges, shapes, forms, ...) were put, at workbook and sheet level, with random nested content, namespaces and any text: after reading and writing, in either format, the same elements with the same attributes and content are in the same place in the same order; non-trivial: at least one such element with content",
        parts: vec![Part { name: "passthrough", quick: 20_000, thorough: 150_000, run: passthrough }],
        probes: vec![],
    }
}
const BOOK_PRE: &[&str] = &[
    "table:calculation-settings", "table:label-ranges", "table:tracked-changes", "text:alphabetical-index-auto-mark-file", "text:dde-connection-decls", "text:sequence-decls",
    "text:user-field-decls", "text:variable-decls",
];
const BOOK_POST: &[&str] = &["table:consolidation", "table:data-pilot-tables", "table:database-ranges", "table:dde-links", "table:named-expressions", "calcext:conditional-formats"];
const SHEET_PRE: &[&str] = &["table:title", "table:desc", "table:table-source", "office:dde-source", "table:scenario", "office:forms", "table:shapes"];
const SHEET_POST: &[&str] = &["table:named-expressions", "calcext:conditional-formats"];
const INNER: &[&str] = &[
    "table:named-range", "table:table", "table:table-row", "table:table-cell", "office:annotation", "draw:frame", "draw:custom-shape", "text:p", "form:form", "my:tag", "other:deep", "table:database-range",
    "office:spreadsheet", "style:style", "table:shapes", "svg:title",
];
const IATTR: &[&str] = &["table:name", "table:target-range-address", "my:a", "other:b", "xlink:href", "xml:id", "table:style-name", "office:value"];

fn inner(s: &mut Src, name: &str, depth: usize) -> Elem {
    let mut e = Elem { name: name.to_string(), ..Default::default() };
    for _ in 0..s.u(4) {
        let k = s.pickc(IATTR);
        if e.attr(k).is_none() {
            e.attrs.push((k.to_string(), gen::text(s)));
        }
    }
    if s.pct(5) {
        e.attrs.push(("xmlns:loc".into(), "urn:local".into()));
    }
    let mut last_text = false;
    let mut n = 0;
    while depth > 0 && s.more(n, 0, 2, 6) {
        n += 1;
        if s.pct(60) {
            let t = s.pickc(INNER);
            e.kids.push(Node::Elem(inner(s, t, depth - 1)));
            last_text = false;
        } else if !last_text {
            e.kids.push(Node::Text(gen::text1(s)));
            last_text = true;
        }
    }
    e
}
fn canon(e: &Elem) -> String {
    let mut o = format!("<{}", e.name);
    let mut a = e.attrs.clone();
    a.sort();
    for (k, v) in a {
        o.push_str(&format!(" {}={:?}", k, v));
    }
    o.push('>');
    let mut txt = String::new();
    for k in &e.kids {
        match k {
            Node::Text(t) => txt.push_str(t),
            Node::Elem(x) => {
                if !txt.is_empty() {
                    o.push_str(&format!("{:?}", txt));
                    txt.clear();
                }
                o.push_str(&canon(x));
            }
        }
    }
    if !txt.is_empty() {
        o.push_str(&format!("{:?}", txt));
    }
    o.push_str("</>");
    o
}
/// Pass-through elements before and after the interpreted ones.
fn collect(e: &Elem, pre: &[&str], post: &[&str], main: &dyn Fn(&str) -> bool) -> (Vec<String>, Vec<String>) {
    let (mut a, mut b) = (vec![], vec![]);
    let mut seen = false;
    for x in e.elems() {
        if main(&x.name) {
            seen = true;
        } else if pre.contains(&x.name.as_str()) && !seen {
            a.push(canon(x));
        } else if post.contains(&x.name.as_str()) && seen {
            b.push(canon(x));
        } else {
            b.push(format!("MISPLACED {}", canon(x)));
        }
    }
    (a, b)
}
fn sheet_main(n: &str) -> bool {
    n.starts_with("table:table-column") || n.starts_with("table:table-row") || n == "table:table-header-columns" || n == "table:table-header-rows"
}
fn passthrough(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut book = WorkBook::new_empty();
    let ns = 1 + s.u(3);
    for i in 0..ns {
        let mut sh = Sheet::new(format!("s{}", i));
        for _ in 0..s.u(4) {
            sh.set_value(s.r32(0, 4), s.r32(0, 4), s.range(0, 9) as i32);
        }
        book.push_sheet(sh);
    }
    let f = fmt(s);
    let buf = write(&mut book, f)?;
    let mut files = if f == Fmt::Fods { vec![] } else { xmlp::unzip(&buf)?.into_iter().map(|(n, b, _)| (n, b)).collect() };
    let src = if f == Fmt::Fods { buf.clone() } else { files.iter().find(|e| e.0 == "content.xml").ok_or("no content")?.1.clone() };
    let mut root = xmlp::parse(&src, true)?;
    root.attrs.push(("xmlns:my".into(), "urn:my".into()));
    root.attrs.push(("xmlns:other".into(), s.pick(&["urn:other", "http://a/?b=1&c='\"<>", "urn:ü"]).to_string()));
    let mut count = 0;
    let mut content = false;
    let mut pick = |s: &mut Src, names: &[&'static str], v: &mut Vec<Elem>| {
        for n in names {
            if s.pct(18) {
                for _ in 0..if s.pct(15) { 2 } else { 1 } {
                    let e = inner(s, n, 3);
                    content |= !e.kids.is_empty();
                    count += 1;
                    v.push(e);
                }
            }
        }
    };
    fn body(e: &mut Elem) -> Option<&mut Elem> {
        if e.name == "office:spreadsheet" {
            return Some(e);
        }
        for k in &mut e.kids {
            if let Node::Elem(x) = k {
                if x.name == "office:body" || x.name == "office:spreadsheet" {
                    if let Some(r) = body(x) {
                        return Some(r);
                    }
                }
            }
        }
        None
    }
    let sp = body(&mut root).ok_or("no body")?;
    let (mut pre, mut post) = (vec![], vec![]);
    pick(s, BOOK_PRE, &mut pre);
    pick(s, BOOK_POST, &mut post);
    let mut kids: Vec<Node> = vec![];
    kids.extend(pre.into_iter().map(Node::Elem));
    let mut want = vec![];
    for k in std::mem::take(&mut sp.kids) {
        if let Node::Elem(mut t) = k {
            if t.name == "table:table" {
                let (mut a, mut b) = (vec![], vec![]);
                pick(s, SHEET_PRE, &mut a);
                pick(s, SHEET_POST, &mut b);
                let mut tk: Vec<Node> = a.into_iter().map(Node::Elem).collect();
                tk.extend(t.kids.into_iter().filter(|k| matches!(k, Node::Elem(_))));
                tk.extend(b.into_iter().map(Node::Elem));
                t.kids = tk;
                want.push(collect(&t, SHEET_PRE, SHEET_POST, &sheet_main));
            }
            kids.push(Node::Elem(t));
        }
    }
    kids.extend(post.into_iter().map(Node::Elem));
    sp.kids = kids;
    want.push(collect(sp, BOOK_PRE, BOOK_POST, &|n| n == "table:table"));
    ctx.nontrivial = content;
    ctx.label_if(count > 3, "many");
    let plain = xmlp::Spell::default();
    let text = xmlp::doc(s, &root, &plain).into_bytes();
    ctx.repr = format!("{:?} {:?}", f, want);
    let buf = if f == Fmt::Fods {
        text
    } else {
        for e in &mut files {
            if e.0 == "content.xml" {
                e.1 = text.clone();
            }
        }
        xmlp::zip_up(&files, |_| true)?
    };
    let mut cur = read(&buf, f)?;
    eq("sheets", cur.num_sheets(), ns)?;
    for i in 0..ns {
        diff_grid(&format!("sheet {}", i), &effective(&cur, cur.sheet(i), false), &effective(&book, book.sheet(i), false))?;
    }
    for _ in 0..1 + s.u(2) {
        let g = fmt(s);
        let out = write(&mut cur, g)?;
        let src = if g == Fmt::Fods { out.clone() } else { xmlp::unzip_map(&out)?.remove("content.xml").ok_or("no content")? };
        let mut root = xmlp::parse(&src, true).map_err(|e| format!("{:?} after {:?}: {}", g, f, e))?;
        let sp = body(&mut root).ok_or("no body")?;
        let mut got = vec![];
        for t in sp.all("table:table") {
            got.push(collect(t, SHEET_PRE, SHEET_POST, &sheet_main));
        }
        got.push(collect(sp, BOOK_PRE, BOOK_POST, &|n| n == "table:table" || n == "table:content-validations"));
        for (i, (g, w)) in got.iter().zip(want.iter()).enumerate() {
            eq(&format!("pass-through elements {} of {}", i, want.len()), g, w)?;
        }
        // the same prefix stands for the same namespace
        for p in ["xmlns:my", "xmlns:other"] {
            let used = want.iter().any(|w| w.0.iter().chain(&w.1).any(|t| t.contains(&format!("{}:", &p[6..]))));
            if used {
                let orig = if p == "xmlns:my" { Some("urn:my") } else { None };
                if let Some(o) = orig {
                    eq("namespace", root.attr(p), Some(o))?;
                }
            }
        }
        cur = read(&out, g)?;
    }
    Ok(())
}
