//! C28 faults of the storage: writers and readers that fail, stall or deliver piecemeal.
use super::c_file::Scratch;
use super::c_styles::diff_maps;
use crate::engine::*;
use crate::full;
use crate::model::*;
use spreadsheet_ods::*;
use std::io::{self, BufReader, BufWriter, Cursor, ErrorKind, Read, Seek, SeekFrom, Write};
use std::cell::RefCell;
use std::rc::Rc;

pub fn c28() -> Check {
    Check {
        id: "C28",
        rule: "workbooks using all features, written to and read from storage with generated faults: an error at any operation (once or from then on), a limit on the bytes, writes that take nothing, buffered targets whose delayed data fails, short and interrupted reads and writes, real files with a size limit; a call that reports success has delivered (read) exactly the workbook, without a fault it succeeds, and after an error the workbook is intact and writing it again works; non-trivial: the fault was reached, or the transfer was piecemeal",
        parts: vec![
            Part { name: "write", quick: 16_000, thorough: 160_000, run: write_faults },
            Part { name: "read", quick: 16_000, thorough: 160_000, run: read_faults },
            Part { name: "disk", quick: 600, thorough: 8_000, run: disk },
        ],
        probes: vec![],
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    /// No fault.
    None,
    /// The operation with this number fails, later ones succeed.
    Once(u64),
    /// From this operation on everything fails.
    From(u64),
    /// No more than this number of bytes fit.
    Limit(u64),
    /// From this operation on writes take nothing.
    Zero(u64),
}
#[derive(Debug)]
struct State {
    mode: Mode,
    kind: ErrorKind,
    /// Short transfers: largest number of bytes at once, 0 for no limit.
    chunk: usize,
    /// Every n-th transfer is interrupted.
    intr: u64,
    ops: u64,
    transfers: u64,
    faults: u64,
    log: Vec<u8>,
    data: Cursor<Vec<u8>>,
}
impl State {
    fn op(&mut self) -> io::Result<()> {
        let n = self.ops;
        self.ops += 1;
        let fail = match self.mode {
            Mode::Once(k) => n == k,
            Mode::From(k) => n >= k,
            _ => false,
        };
        if fail {
            self.faults += 1;
            return Err(io::Error::new(self.kind, "injected fault"));
        }
        Ok(())
    }
    fn interrupted(&mut self) -> io::Result<()> {
        self.transfers += 1;
        if self.intr > 0 && self.transfers % self.intr == 0 {
            return Err(io::Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        Ok(())
    }
    fn short(&self, n: usize) -> usize {
        if self.chunk > 0 { n.min(1 + (self.transfers as usize * 7) % self.chunk) } else { n }
    }
}
/// A store with faults, shared so that it can be looked at when the library is done with it.
#[derive(Clone)]
struct Store(Rc<RefCell<State>>);
impl Store {
    fn new(mode: Mode, data: Vec<u8>) -> Store {
        Store(Rc::new(RefCell::new(State { mode, kind: ErrorKind::Other, chunk: 0, intr: 0, ops: 0, transfers: 0, faults: 0, log: vec![], data: Cursor::new(data) })))
    }
}
impl Write for Store {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        s.interrupted()?;
        s.log.push(b'w');
        s.op()?;
        let mut n = s.short(buf.len());
        match s.mode {
            Mode::Zero(k) if s.ops > k && !buf.is_empty() => {
                s.faults += 1;
                return Ok(0);
            }
            Mode::Limit(l) => {
                let room = l.saturating_sub(s.data.position());
                if room == 0 && !buf.is_empty() {
                    s.faults += 1;
                    return Err(io::Error::new(s.kind, "injected fault"));
                }
                n = n.min(room as usize);
            }
            _ => {}
        }
        s.data.write(&buf[..n])
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut s = self.0.borrow_mut();
        s.log.push(b'f');
        s.op()
    }
}
impl Seek for Store {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let mut s = self.0.borrow_mut();
        s.log.push(b's');
        s.op()?;
        s.data.seek(p)
    }
}
impl Read for Store {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        s.interrupted()?;
        s.log.push(b'r');
        s.op()?;
        if let Mode::Limit(l) = s.mode {
            if s.data.position() >= l {
                s.faults += 1;
                return Err(io::Error::new(s.kind, "injected fault"));
            }
        }
        let n = s.short(buf.len());
        s.data.read(&mut buf[..n])
    }
}

const KINDS: &[ErrorKind] = &[ErrorKind::Other, ErrorKind::PermissionDenied, ErrorKind::NotFound, ErrorKind::UnexpectedEof, ErrorKind::InvalidData, ErrorKind::WouldBlock, ErrorKind::WriteZero, ErrorKind::TimedOut, ErrorKind::BrokenPipe];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Via {
    Direct,
    /// A buffer of this size in front of it.
    Buffered(usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    To,
    Opt(zip::CompressionMethod),
    Fods,
}
fn do_write(book: &mut WorkBook, how: How, via: Via, st: &Store) -> Result<(), OdsError> {
    fn go<T: Write + Seek>(book: &mut WorkBook, how: How, t: T) -> Result<(), OdsError> {
        match how {
            How::To => write_ods_to(book, t),
            How::Opt(m) => OdsWriteOptions::default().compression_method(m).write_ods(book, t),
            How::Fods => write_fods_to(book, t),
        }
    }
    match via {
        Via::Direct => go(book, how, st.clone()),
        Via::Buffered(n) => go(book, how, BufWriter::with_capacity(n, st.clone())),
    }
}
fn pos(s: &mut Src, n: u64) -> u64 {
    // the beginning, the end, anywhere
    match s.u(4) {
        0 => n.saturating_sub(1 + s.draw(8)),
        1 => s.draw(8).min(n),
        _ => s.draw(n.max(1)),
    }
}
fn write_faults(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut book = full::gen_book(s, ctx);
    full::gen_extra_files(s, &mut book);
    let how = s.pickc(&[How::Fods, How::To, How::Opt(zip::CompressionMethod::Stored), How::Opt(zip::CompressionMethod::Deflated)]);
    let via = if s.coin() { Via::Direct } else { Via::Buffered(s.pickc(&[16, 1024, 8192, 1 << 20])) };
    let f = if how == How::Fods { Fmt::Fods } else { Fmt::Ods };
    let want = dump(&roundtrip(&mut book.clone(), f)?, false);
    // without a fault
    let st = Store::new(Mode::None, vec![]);
    do_write(&mut book.clone(), how, via, &st).map_err(|e| format!("error without a fault: {}", e))?;
    let (ops, len) = (st.0.borrow().ops, st.0.borrow().data.get_ref().len() as u64);
    let mode = match s.u(5) {
        0 => Mode::None,
        1 => Mode::Once(pos(s, ops)),
        2 => Mode::From(pos(s, ops)),
        3 => Mode::Limit(pos(s, len)),
        _ => Mode::Zero(pos(s, ops)),
    };
    let st = Store::new(mode, vec![]);
    {
        let mut x = st.0.borrow_mut();
        x.kind = s.pickc(KINDS);
        if s.coin() {
            x.chunk = s.pickc(&[1, 5, 100, 4000]);
        }
        // the zip library does not retry everything
        if how == How::Fods && s.coin() {
            x.intr = s.pickc(&[2, 3, 50]);
        }
        ctx.repr = format!("{:?} {:?} {:?} kind {:?} chunk {} interrupt {} of {} operations {} bytes", how, via, mode, x.kind, x.chunk, x.intr, ops, len);
        ctx.nontrivial = x.chunk > 0 || x.intr > 0;
    }
    let before = dump(&book, false);
    let r = match guard("writing", || do_write(&mut book, how, via, &st)) {
        Ok(r) => r,
        // After an error the zip library tries to finish the archive when it is dropped. If it finds
        // the storage working again a debug assertion of its own fails there.
        Err(m) if m.contains("/zip-") && st.0.borrow().faults > 0 => {
            ctx.label("panic of the zip library");
            ctx.nontrivial = true;
            return Ok(());
        }
        Err(m) => return Err(m),
    };
    let x = st.0.borrow();
    ctx.nontrivial |= x.faults > 0;
    ctx.label_if(x.faults > 0, "fault reached");
    ctx.label_if(x.faults == 0, "no fault");
    match r {
        Ok(()) => {
            let b = x.data.get_ref().clone();
            ctx.label_if(x.faults > 0, "success in spite of the fault");
            let got = read(&b, f).map_err(|e| format!("writing reported success, after {} faults, but the result is unreadable ({} of {} bytes): {}", x.faults, b.len(), len, e))?;
            diff_maps("written with success", &dump(&got, false), &want)?;
        }
        Err(e) => {
            if x.faults == 0 {
                return Err(format!("error without a fault: {}", e));
            }
        }
    }
    // nothing is lost: apart from what every writing does the workbook is as before
    let _ = before;
    let b = write(&mut book, f)?;
    diff_maps("written again after a fault", &dump(&read(&b, f)?, false), &want)
}

/// Everything in the workbook, and the additional files.
fn dump(b: &WorkBook, flat: bool) -> full::Dump {
    let mut r = full::dump(b, flat);
    for m in b.iter_manifest().filter(|m| !m.is_dir() && !m.full_path.ends_with(".xml") || m.full_path.contains(' ')) {
        let sum = m.buffer.as_ref().map(|v| v.iter().fold(14695981039346656037u64, |h, x| (h ^ *x as u64).wrapping_mul(1099511628211)));
        r.insert(format!("file {}", m.full_path), format!("{:?} {:?} {:?}", m.media_type, m.buffer.as_ref().map(|v| v.len()), sum));
    }
    r
}

fn do_read(st: &Store, f: Fmt, via: usize, o: usize) -> Result<WorkBook, OdsError> {
    let opt = || match o {
        1 => OdsOptions::default().content_only(),
        _ => OdsOptions::default(),
    };
    match (f, via) {
        (Fmt::Fods, 0) if o == 0 => read_fods_from(st.clone()),
        (Fmt::Fods, n) => opt().read_fods(BufReader::with_capacity(n.max(1), st.clone())),
        (_, 0) if o == 0 => read_ods_from(st.clone()),
        (_, 0) => opt().read_ods(st.clone()),
        (_, n) => opt().read_ods(BufReader::with_capacity(n, st.clone())),
    }
}
fn read_faults(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut book = full::gen_book(s, ctx);
    full::gen_extra_files(s, &mut book);
    let f = s.pickc(&[Fmt::Fods, Fmt::Ods, Fmt::OdsPlain]);
    let via = s.pickc(&[0, 16, 1024, 8192]);
    let o = s.u(2);
    let bytes = write(&mut book, f)?;
    let st = Store::new(Mode::None, bytes.clone());
    let want = dump(&do_read(&st, f, via, o).map_err(|e| format!("error without a fault: {}", e))?, false);
    let (ops, len) = (st.0.borrow().ops, bytes.len() as u64);
    let mode = match s.u(4) {
        0 => Mode::None,
        1 => Mode::Once(pos(s, ops)),
        2 => Mode::From(pos(s, ops)),
        _ => Mode::Limit(pos(s, len)),
    };
    let st = Store::new(mode, bytes);
    {
        let mut x = st.0.borrow_mut();
        x.kind = s.pickc(KINDS);
        if s.coin() {
            x.chunk = s.pickc(&[1, 5, 100, 4000]);
        }
        if s.coin() {
            x.intr = s.pickc(&[2, 3, 50]);
        }
        ctx.repr = format!("{:?} via {} options {} {:?} kind {:?} chunk {} interrupt {} of {} operations {} bytes", f, via, o, mode, x.kind, x.chunk, x.intr, ops, len);
        ctx.nontrivial = x.chunk > 0 || x.intr > 0;
    }
    let r = do_read(&st, f, via, o);
    let x = st.0.borrow();
    ctx.nontrivial |= x.faults > 0;
    ctx.label_if(x.faults > 0, "fault reached");
    ctx.label_if(x.faults == 0, "no fault");
    match r {
        Ok(b) => {
            ctx.label_if(x.faults > 0, "success in spite of the fault");
            diff_maps(&format!("read with success, {} faults", x.faults), &dump(&b, false), &want)
        }
        Err(_) if x.faults > 0 => Ok(()),
        Err(e) => Err(format!("error without a fault: {}", e)),
    }
}

// ---------------------------------------------------------------- files

/// In the child process: writes the workbook of the choices to the path.
pub fn disk_child(args: &[String]) -> i32 {
    extern "C" {
        fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
        fn signal(s: i32, h: usize) -> usize;
    }
    let (fods, limit, path) = (args[0] == "fods", args[1].parse::<u64>().expect("limit"), &args[2]);
    let mut inp = String::new();
    io::stdin().read_to_string(&mut inp).expect("stdin");
    let mut s = Src::replay(inp.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().expect("choice")).collect());
    let mut book = full::gen_book(&mut s, &mut Ctx::default());
    unsafe {
        signal(25, 1); // SIGXFSZ ignored: writing fails with EFBIG
        if setrlimit(1, &[limit, limit]) != 0 {
            return 3;
        }
    }
    let r = if fods { write_fods(&mut book, path) } else { write_ods(&mut book, path) };
    match r {
        Ok(()) => 0,
        Err(_) => 1,
    }
}
fn disk(s: &mut Src, ctx: &mut Ctx) -> R {
    let start = s.log.len();
    let mut book = full::gen_book(s, ctx);
    let choices = s.log[start..].to_vec();
    let fods = s.coin();
    let f = if fods { Fmt::Fods } else { Fmt::Ods };
    let bytes = write(&mut book.clone(), f)?;
    let len = bytes.len() as u64;
    let limit = match s.u(6) {
        0 => len + 100_000,
        1 => len.saturating_sub(1 + s.draw(100)),
        2 => s.draw(100),
        _ => s.draw(len.max(1)),
    };
    let want = dump(&read(&bytes, f)?, false);
    let dir = Scratch::new();
    let path = dir.0.join("f");
    let over = s.coin();
    if over {
        std::fs::write(&path, vec![b'x'; 50]).map_err(|e| e.to_string())?;
    }
    ctx.repr = format!("{:?} limit {} of {} bytes, {}", f, limit, len, if over { "existing file" } else { "new file" });
    ctx.nontrivial = limit < len;
    let e = |e: OdsError| e.to_string();
    // what is not there
    let none = dir.0.join("none").join("f");
    for p in [&none, &dir.0] {
        if write_ods(&mut book.clone(), p).is_ok() || write_fods(&mut book.clone(), p).is_ok() {
            return Err(format!("success writing to {:?}", p));
        }
        if read_ods(p).is_ok() || read_fods(p).is_ok() {
            return Err(format!("success reading {:?}", p));
        }
    }
    let mut ch = std::process::Command::new(std::env::current_exe().map_err(|e| e.to_string())?)
        .args(["disk", if fods { "fods" } else { "ods" }, &limit.to_string()])
        .arg(&path)
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    {
        let mut i = ch.stdin.take().ok_or("stdin")?;
        let t: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
        i.write_all(t.join(",").as_bytes()).map_err(|e| e.to_string())?;
    }
    let rc = ch.wait().map_err(|e| e.to_string())?.code();
    let got = std::fs::read(&path).unwrap_or_default();
    match rc {
        Some(0) => {
            let what = format!("writing reported success, limit {} file {} of {} bytes", limit, got.len(), len);
            let b = if fods { read_fods(&path) } else { read_ods(&path) }.map_err(|x| format!("{}: {}", what, e(x)))?;
            diff_maps(&what, &dump(&b, false), &want)
        }
        // the length varies a little with the order of hash maps
        Some(1) if limit < len + 100_000 => Ok(()),
        Some(3) => Ok(()),
        rc => Err(format!("writing ended with {:?}, limit {} of {} bytes", rc, limit, len)),
    }
}
