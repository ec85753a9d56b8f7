//! C02, C16, C18: writing any of the formats under delivery variations and faults, and the
//! encrypted song structure.

use crate::ctx::{lib, viol, Ctx, Panicked, Violation, R};
use crate::gen_pdb::{gen_db, Db, Kind};
use crate::hist::delivery;
use crate::media::{
    gen_anlz, gen_pssi, gen_setting, setting_file_name, small_db_opts, AnlzM, Sect, SAMPLES,
    SETTING_TYPES,
};
use crate::pdbx::{apply_edit, apply_hdr, dt, gen_edit, make_row, new_row, pidx, Edit};
use crate::simio::{Chunk, Fault, Sim, ERR_KINDS};
use crate::tape::{Rng, Tape};
use binrw::{BinRead, BinWrite, Endian};
use rekordcrate::anlz::ANLZ;
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::Page;
use rekordcrate::setting::Setting;
use std::io::{BufWriter, Cursor, Read, Seek, SeekFrom, Write};

enum Step {
    Edit(Edit),
    Insert {
        page: u32,
        kind: Kind,
        bytes: Vec<u8>,
        calc: bool,
        size: u16,
    },
}

enum Job {
    /// Edit a database and flush it.
    Db {
        m: Box<Db>,
        steps: Vec<Step>,
        close: bool,
    },
    /// Write one page at some position.
    Page {
        page: Box<Page>,
        size: u32,
    },
    Anlz(Box<ANLZ>),
    Setting(Box<Setting>),
}

struct Task {
    job: Job,
    /// What the stream holds before, and where writing starts.
    before: Vec<u8>,
    at: u64,
    what: String,
}

fn steps_on<S: Read + Seek>(db: &mut Database<S>, steps: &[Step]) {
    for s in steps {
        match s {
            Step::Edit(e) if e.page == 0 => {
                let _ = apply_hdr(db.get_header_mut(), &e.what);
            }
            Step::Edit(e) => {
                if let Ok(p) = db.load_page(pidx(e.page)) {
                    let _ = apply_edit(p, &e.what);
                }
            }
            Step::Insert {
                page,
                kind,
                bytes,
                calc,
                size,
            } => {
                if let Ok(p) = db.load_page(pidx(*page)) {
                    if let Ok(row) = make_row(*kind, bytes, *calc) {
                        if let Some(ins) = p.allocate_row(*size) {
                            ins(row);
                        }
                    }
                }
            }
        }
    }
}

fn gen_steps(t: &mut Tape, m: &Db, n: u64) -> Vec<Step> {
    let mut v = vec![];
    let pages = m.pages.len() as u64;
    for _ in 0..n {
        let page = t.draw(pages + 1) as u32;
        if page > 0 && t.chance(1, 4) {
            let kind = m
                .tables
                .iter()
                .find(|tb| tb.chain.contains(&page))
                .map(|tb| tb.kind);
            if let Some(kind) = kind {
                if let Some((rm, _)) = new_row(t, kind) {
                    let size = (rm.bytes.len() as u16).next_multiple_of(4);
                    v.push(Step::Insert {
                        page,
                        kind,
                        bytes: rm.bytes,
                        calc: rm.calc,
                        size,
                    });
                }
            }
        } else if let Some(e) = gen_edit(t, m, page) {
            v.push(Step::Edit(e));
        }
    }
    v
}

fn junk(t: &mut Tape, n: usize) -> Vec<u8> {
    let mut r: Rng = t.seed();
    (0..n).map(|_| r.next() as u8).collect()
}

/// None: the library does not read what it should write (not judged here).
fn gen_task(t: &mut Tape) -> Option<Task> {
    let kind = t.draw(8);
    if kind <= 2 {
        let o = small_db_opts(t);
            let m = gen_db(t, &o);
        let n = 1 + t.draw(6);
        let steps = gen_steps(t, &m, n);
        return Some(Task {
            what: format!("flush of {} after {} changes", m.describe(), steps.len()),
            before: m.image.clone(),
            at: 0,
            job: Job::Db {
                m: Box::new(m),
                steps,
                close: t.chance(1, 4),
            },
        });
    }
    let (job, what) = match kind {
        3 => {
            let o = small_db_opts(t);
            let m = gen_db(t, &o);
            let pno = 1 + t.draw(m.pages.len() as u64) as u32;
            let n = t.draw(4);
            let steps = gen_steps(t, &m, n);
            let page = lib(|| {
                let mut db =
                    Database::open_non_persistent(Cursor::new(m.image.as_slice()), dt(m.ext))
                        .ok()?;
                steps_on(&mut db, &steps);
                db.load_page(pidx(pno)).ok().map(|p| p.clone())
            })
            .ok()??;
            (
                Job::Page {
                    page: Box::new(page),
                    size: m.page_size as u32,
                },
                format!("page {pno} of {}", m.describe()),
            )
        }
        4..=6 => {
            let bytes = if t.chance(1, 10) {
                let s = *t.pick(&[0usize, 1, 7]);
                SAMPLES[s].2.to_vec()
            } else {
                let m = gen_anlz(t, 5);
                let enc = t.chance(1, 2);
                m.bytes(&|_| enc)
            };
            let a = lib(|| ANLZ::read(&mut Cursor::new(&bytes))).ok()?.ok()?;
            (
                Job::Anlz(Box::new(a)),
                format!("analysis file of {} bytes", bytes.len()),
            )
        }
        _ => {
            let ty = *t.pick(&SETTING_TYPES);
            let bytes = gen_setting(t, ty);
            let s = lib(|| Setting::read_args(&mut Cursor::new(&bytes), (ty,)))
                .ok()?
                .ok()?;
            (Job::Setting(Box::new(s)), setting_file_name(ty).to_string())
        }
    };
    let n = t.usize(3) * t.usize(400);
    let before = junk(t, n);
    let at = if t.chance(1, 2) {
        0
    } else {
        t.draw(before.len() as u64 + 40)
    };
    Some(Task {
        job,
        before,
        at,
        what,
    })
}

enum Out<S> {
    /// Stream handed over to a database; seen through its shared handle.
    Kept,
    Stream(S),
}

/// Do the job. `arm` is called when the writing starts.
fn perform<S: Read + Write + Seek>(
    task: &Task,
    mut s: S,
    arm: impl FnOnce(),
) -> Result<(Result<(), String>, Out<S>), Panicked> {
    match &task.job {
        Job::Db { m, steps, close } => {
            let db = lib(|| {
                let mut db = Database::open(s, dt(m.ext)).ok()?;
                steps_on(&mut db, steps);
                Some(db)
            })?;
            let Some(mut db) = db else {
                return Ok((Err("not opened".into()), Out::Kept));
            };
            arm();
            let r = if *close {
                lib(|| db.close().map_err(|e| e.to_string()))?
            } else {
                let r = lib(|| db.flush().map_err(|e| e.to_string()))?;
                lib(|| drop(db))?;
                r
            };
            Ok((r, Out::Kept))
        }
        job => {
            if s.seek(SeekFrom::Start(task.at)).is_err() {
                return Ok((Err("seek".into()), Out::Stream(s)));
            }
            arm();
            let r = lib(|| match job {
                Job::Page { page, size } => page
                    .write_options(&mut s, Endian::Little, (*size,))
                    .map_err(|e| e.to_string()),
                Job::Anlz(a) => a.write(&mut s).map_err(|e| e.to_string()),
                Job::Setting(x) => x.write(&mut s).map_err(|e| e.to_string()),
                Job::Db { .. } => unreachable!(),
            })?;
            Ok((r, Out::Stream(s)))
        }
    }
}

/// Contents after the job on a stream that takes everything at once; None if the job fails there.
fn reference(task: &Task, chunk: Option<Chunk>) -> Option<(Vec<u8>, u64, u64)> {
    let sim = Sim::new(task.before.clone());
    if let Some(c) = chunk {
        sim.with(|d| d.chunk_w = c);
    }
    let s2 = sim.clone();
    let start = std::cell::Cell::new(0);
    let (r, _) = perform(task, sim.clone(), || start.set(s2.ops())).ok()?;
    r.ok()?;
    Some((sim.content(), start.get(), sim.ops()))
}

fn panicked(p: &Panicked, what: &str) -> Violation {
    Violation {
        class: p.class(),
        detail: format!("{what}: {}", p.0),
    }
}

fn diff(a: &[u8], b: &[u8]) -> String {
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!(
            "first difference at {i}: {:02x?} instead of {:02x?}",
            &b[i..b.len().min(i + 16)],
            &a[i..a.len().min(i + 16)]
        ),
        None => format!("lengths {} and {}", a.len(), b.len()),
    }
}

/// C02: written bytes do not depend on how the stream accepts them.
pub fn c02(t: &mut Tape, ctx: &mut Ctx) -> R {
    let Some(task) = gen_task(t) else {
        ctx.probe("unreadable");
        return Ok(());
    };
    ctx.say(|| format!("{} at {}", task.what, task.at));
    let Some((want, _, _)) = reference(&task, None) else {
        ctx.probe("reference_failed");
        return Ok(());
    };
    ctx.probe(match task.job {
        Job::Db { .. } => "flush",
        Job::Page { .. } => "page",
        Job::Anlz(_) => "anlz",
        Job::Setting(_) => "setting",
    });
    let sim = Sim::new(task.before.clone());
    ctx.watch(&sim);
    delivery(t, &sim);
    let buffered = if matches!(task.job, Job::Db { .. }) || !t.chance(1, 5) {
        None
    } else {
        Some(1 + t.usize(64))
    };
    let r = match buffered {
        None => perform(&task, sim.clone(), || {}).map(|x| x.0),
        Some(c) => {
            let b = BufWriter::with_capacity(c, Rw(sim.clone()));
            perform_w(&task, b)
                .map(|(r, mut b)| r.and_then(|()| b.flush().map_err(|e| e.to_string())))
        }
    };
    ctx.absorb(&sim);
    match r {
        Err(p) => return Err(panicked(&p, &task.what)),
        Ok(Err(e)) => {
            return viol(
                "spurious-error",
                format!("{}: fails when written in pieces: {e}", task.what),
            )
        }
        Ok(Ok(())) => {}
    }
    let got = sim.content();
    if got != want {
        return viol(
            "bytes-differ",
            format!(
                "{}: written in pieces (buffer {buffered:?}) gives other bytes; {}",
                task.what,
                diff(&want, &got)
            ),
        );
    }
    Ok(())
}

/// A write-only view, for BufWriter.
struct Rw(Sim);
impl Write for Rw {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.0.flush()
    }
}
impl Seek for Rw {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.0.seek(p)
    }
}

fn perform_w<S: Write + Seek>(task: &Task, mut s: S) -> Result<(Result<(), String>, S), Panicked> {
    if s.seek(SeekFrom::Start(task.at)).is_err() {
        return Ok((Err("seek".into()), s));
    }
    let r = lib(|| match &task.job {
        Job::Page { page, size } => page
            .write_options(&mut s, Endian::Little, (*size,))
            .map_err(|e| e.to_string()),
        Job::Anlz(a) => a.write(&mut s).map_err(|e| e.to_string()),
        Job::Setting(x) => x.write(&mut s).map_err(|e| e.to_string()),
        Job::Db { .. } => Err("not for databases".into()),
    })?;
    Ok((r, s))
}

/// C18: a failed write is never acknowledged.
pub fn c18(t: &mut Tape, ctx: &mut Ctx) -> R {
    let Some(task) = gen_task(t) else {
        ctx.probe("unreadable");
        return Ok(());
    };
    ctx.say(|| format!("{} at {}", task.what, task.at));
    let chunk = if t.chance(1, 3) {
        Some(Chunk::Fixed(1 + t.usize(20)))
    } else {
        None
    };
    let Some((want, start, end)) = reference(&task, chunk.clone()) else {
        ctx.probe("reference_failed");
        return Ok(());
    };
    let sim = Sim::new(task.before.clone());
    ctx.watch(&sim);
    if let Some(c) = chunk {
        sim.with(|d| d.chunk_w = c);
    }
    let eintr = if t.chance(1, 4) {
        Some((t.seed(), 2 + t.draw(20)))
    } else {
        None
    };
    let mut plan = vec![];
    let mut capacity = None;
    if t.chance(1, 5) {
        capacity = Some(t.draw(want.len() as u64 + 1));
    }
    if capacity.is_none() || t.chance(1, 4) {
        for _ in 0..1 + t.draw(4) / 3 {
            // The last steps are the most interesting ones.
            let n = (end - start).max(1);
            let at = if t.chance(1, 4) {
                n - 1 - t.draw(n.min(4))
            } else {
                t.draw(n + 1)
            };
            let k = *t.pick(&ERR_KINDS);
            plan.push((
                start + at,
                match t.draw(5) {
                    0 | 1 => Fault::Err(k),
                    2 => Fault::ErrSticky(k),
                    3 => Fault::Zero,
                    _ => Fault::Short(1),
                },
            ));
        }
    }
    let s2 = sim.clone();
    let r = perform(&task, sim.clone(), || {
        s2.with(|d| {
            d.plan = plan.iter().copied().collect();
            d.capacity = capacity;
            d.eintr = eintr;
            d.errors = 0;
        })
    });
    let errors = sim.with(|d| d.errors);
    ctx.absorb(&sim);
    match r {
        Err(p) => Err(panicked(&p, &format!("{} with a failing write", task.what))),
        Ok((Err(_), _)) => {
            ctx.probe(if errors > 0 {
                "failure_reported"
            } else {
                "failed_without_fault"
            });
            if errors == 0 {
                return viol(
                    "spurious-error",
                    format!(
                        "{}: fails although the stream accepted everything",
                        task.what
                    ),
                );
            }
            Ok(())
        }
        Ok((Ok(()), _)) => {
            if errors > 0 {
                return viol(
                    "failure-acknowledged",
                    format!(
                        "{}: success although the stream reported {errors} error(s)",
                        task.what
                    ),
                );
            }
            let got = sim.content();
            if got != want {
                return viol(
                    "incomplete",
                    format!("{}: success but {}", task.what, diff(&want, &got)),
                );
            }
            if matches!(task.job, Job::Db { .. }) && sim.with(|d| !d.pending.is_empty()) {
                return viol(
                    "not-flushed",
                    format!("{}: success but the stream was not flushed", task.what),
                );
            }
            ctx.probe("complete");
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- C16

fn with_pssi(t: &mut Tape) -> AnlzM {
    let mut m = gen_anlz(t, 2);
    // The other sections only have to be there.
    m.sections
        .retain(|s| !matches!(s, Sect::Raw(b) if b.len() > 1500));
    let n = 1 + t.usize(2);
    for _ in 0..n {
        let at = t.usize(m.sections.len() + 1);
        let p = gen_pssi(t);
        m.sections.insert(at, Sect::Pssi(p));
    }
    m
}

/// Lines of the printed form may differ only in a flag.
fn same_but_flag(a: &str, b: &str) -> bool {
    let (mut x, mut y) = (a.lines(), b.lines());
    loop {
        match (x.next(), y.next()) {
            (None, None) => return true,
            (Some(p), Some(q)) => {
                if p != q && p.replace("false", "true") != q.replace("false", "true") {
                    return false;
                }
            }
            _ => return false,
        }
    }
}

/// C16: song-structure encryption stays in step with the stream.
pub fn c16(t: &mut Tape, ctx: &mut Ctx) -> R {
    let m = with_pssi(t);
    let plain = m.bytes(&|_| false);
    let mask = t.draw(4);
    let which = move |i: usize| mask == 0 || (i as u64 % 2) == mask - 1 || mask == 3;
    let enc = m.bytes(&which);
    ctx.say(|| {
        format!(
            "analysis file of {} bytes, sections {:?}",
            enc.len(),
            m.sections
                .iter()
                .enumerate()
                .map(|(i, s)| match s {
                    Sect::Raw(b) => format!("{} bytes", b.len()),
                    Sect::Pssi(p) =>
                        format!("song structure, {} phrases, encrypted {}", p.n, which(i)),
                })
                .collect::<Vec<_>>()
        )
    });
    let rd = |b: &[u8]| lib(|| ANLZ::read(&mut Cursor::new(b)));
    let p = match rd(&plain) {
        Err(p) => return Err(panicked(&p, "reading an unencrypted song structure")),
        Ok(Err(e)) => {
            return viol(
                "unreadable",
                format!("unencrypted song structure is not readable: {e}"),
            )
        }
        Ok(Ok(a)) => a,
    };
    let e = match rd(&enc) {
        Err(p) => return Err(panicked(&p, "reading an encrypted song structure")),
        Ok(Err(e)) => {
            return viol(
                "unreadable",
                format!("encrypted song structure is not readable: {e}"),
            )
        }
        Ok(Ok(a)) => a,
    };
    let (dp, de) = (format!("{p:#?}"), format!("{e:#?}"));
    if !same_but_flag(&dp, &de) {
        let d = dp.lines().zip(de.lines()).find(|(a, b)| a != b);
        return viol(
            "decrypted-differs",
            format!("encrypted form reads differently: {d:?}"),
        );
    }
    // Reading under disturbances.
    let faulty = t.chance(1, 2);
    let sim = Sim::new(enc.clone());
    ctx.watch(&sim);
    delivery(t, &sim);
    if faulty {
        let n = {
            let dry = Sim::new(enc.clone());
            let (c, ei) = sim.with(|d| (d.chunk_r.clone(), d.eintr.clone()));
            dry.with(|d| {
                d.chunk_r = c;
                d.eintr = ei;
            });
            let mut s = dry.clone();
            let _ = lib(|| ANLZ::read(&mut s));
            dry.ops().max(1)
        };
        let at = t.draw(n);
        let k = *t.pick(&ERR_KINDS);
        let f = *t.pick(&[
            Fault::Err(k),
            Fault::ErrSticky(k),
            Fault::Zero,
            Fault::Short(1),
        ]);
        sim.with(|d| d.plan.insert(at, f));
    }
    let mut s = sim.clone();
    let r = lib(|| ANLZ::read(&mut s));
    let errors = sim.with(|d| d.errors + d.fired.get("eof_early").copied().unwrap_or(0));
    ctx.absorb(&sim);
    match r {
        Err(p) => return Err(panicked(&p, "reading an encrypted song structure")),
        Ok(Err(x)) => {
            if errors == 0 {
                return viol("spurious-error", format!("reading in pieces fails: {x}"));
            }
            ctx.probe("read_failure_reported");
        }
        Ok(Ok(a)) => {
            if a != e {
                return viol(
                    "decrypted-differs",
                    "song structure read in pieces or with a failing call differs".to_string(),
                );
            }
            ctx.probe("read_same");
        }
    }
    // Writing: an undisturbed write gives exactly the bytes read.
    let at = t.draw(3) * t.draw(300);
    let expect_at = |pos: u64| -> Option<u8> {
        pos.checked_sub(at)
            .and_then(|i| enc.get(i as usize))
            .copied()
    };
    let tries = 1 + t.draw(2);
    let total = {
        let dry = Sim::new(vec![]);
        let mut s = dry.clone();
        let _ = lib(|| e.write(&mut s));
        dry.ops().max(1)
    };
    for i in 0..tries {
        let sim = Sim::new(vec![0; at as usize]);
        ctx.watch(&sim);
        delivery(t, &sim);
        let last = i + 1 == tries;
        if !last || faulty {
            let n = t.draw(total + total / 2 + 2);
            let k = *t.pick(&ERR_KINDS);
            let f = *t.pick(&[
                Fault::Err(k),
                Fault::ErrSticky(k),
                Fault::Zero,
                Fault::Short(1),
            ]);
            sim.with(|d| {
                d.plan.insert(n, f);
            });
        }
        sim.with(|d| {
            d.pos = at;
            d.wlog = Some(vec![]);
        });
        let mut s = sim.clone();
        let r = lib(|| e.write(&mut s));
        let (errors, wlog) = sim.with(|d| (d.errors, d.wlog.take().unwrap_or_default()));
        ctx.absorb(&sim);
        for (pos, b) in &wlog {
            for (j, x) in b.iter().enumerate() {
                let p = pos + j as u64;
                if expect_at(p) != Some(*x) {
                    return viol(
                        "encrypted-differs",
                        format!(
                            "byte {x:#04x} written at {} of the file instead of {:?}",
                            p - at.min(p),
                            expect_at(p)
                        ),
                    );
                }
            }
        }
        match r {
            Err(p) => return Err(panicked(&p, "writing an encrypted song structure")),
            Ok(Err(x)) => {
                if errors == 0 {
                    return viol("spurious-error", format!("writing in pieces fails: {x}"));
                }
                ctx.probe("write_failure_reported");
            }
            Ok(Ok(())) => {
                if errors > 0 {
                    return viol(
                        "failure-acknowledged",
                        "write succeeded although the stream failed".to_string(),
                    );
                }
                let got = sim.content();
                if got.get(at as usize..) != Some(enc.as_slice()) {
                    return viol(
                        "encrypted-differs",
                        format!(
                            "written file differs from the one read; {}",
                            diff(&enc, got.get(at as usize..).unwrap_or(&[]))
                        ),
                    );
                }
                ctx.probe("written_same");
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C27

enum Doc {
    Anlz(AnlzM, Vec<bool>, Box<ANLZ>),
    Setting(rekordcrate::setting::SettingType, Vec<u8>, Box<Setting>),
    /// A damaged analysis file that is accepted all the same, and the bytes it was read from.
    Damaged(Vec<u8>, Box<ANLZ>),
}

/// What lies on the medium.
enum Text {
    Anlz(AnlzM, Vec<bool>),
    Setting(rekordcrate::setting::SettingType, Vec<u8>),
    Damaged,
}

impl Doc {
    /// The bytes the document stands for.
    fn bytes(&self) -> Vec<u8> {
        match self {
            Doc::Anlz(m, enc, _) => m.bytes(&|i| enc[i]),
            Doc::Setting(_, b, _) | Doc::Damaged(b, _) => b.clone(),
        }
    }
    fn name(&self) -> String {
        match self {
            Doc::Anlz(m, ..) => format!("analysis file with {} sections", m.sections.len()),
            Doc::Setting(ty, ..) => setting_file_name(*ty).into(),
            Doc::Damaged(b, a) => format!("damaged analysis file with {} sections in {} bytes", a.sections.len(), b.len()),
        }
    }
    fn write(&self, s: &mut Sim) -> Result<Result<(), String>, Panicked> {
        lib(|| match self {
            Doc::Anlz(_, _, a) | Doc::Damaged(_, a) => a.write(s).map_err(|e| e.to_string()),
            Doc::Setting(_, _, x) => x.write(s).map_err(|e| e.to_string()),
        })
    }
    /// Read the same kind of document and compare.
    fn reads_same(&self, s: &mut Sim) -> Result<Result<bool, String>, Panicked> {
        lib(|| match self {
            Doc::Anlz(_, _, a) | Doc::Damaged(_, a) => ANLZ::read(s).map(|b| b == **a).map_err(|e| e.to_string()),
            Doc::Setting(ty, _, x) => Setting::read_args(s, (*ty,))
                .map(|b| b == **x)
                .map_err(|e| e.to_string()),
        })
    }
}

/// C27: what is read and written back is the same file.
pub fn c27(t: &mut Tape, ctx: &mut Ctx) -> R {
    // A medium with some documents on it.
    let mut medium = vec![];
    let mut places = vec![];
    for _ in 0..1 + t.draw(3) {
        let n = t.usize(60);
        medium.extend(junk(t, n));
        let at = medium.len() as u64;
        if t.chance(2, 3) {
            let m = gen_anlz(t, 6);
            let mask = t.draw(4);
            let enc: Vec<bool> = (0..m.sections.len()).map(|i| mask == 3 || (mask > 0 && i as u64 % 2 == mask - 1)).collect();
            let mut b = m.bytes(&|i| enc[i]);
            if t.chance(1, 3) {
                let what = crate::media::damage(t, &mut b);
                ctx.say(|| format!("damaged: {what:?}"));
                ctx.fault("file_damaged", 1);
                medium.extend(b);
                places.push((at, Text::Damaged));
            } else {
                medium.extend(b);
                places.push((at, Text::Anlz(m, enc)));
            }
        } else {
            let ty = *t.pick(&SETTING_TYPES);
            let b = gen_setting(t, ty);
            medium.extend_from_slice(&b);
            places.push((at, Text::Setting(ty, b)));
        }
    }
    let n = t.usize(60);
    medium.extend(junk(t, n));
    let sim = Sim::new(medium.clone());
    ctx.watch(&sim);
    delivery(t, &sim);
    let out = c27_body(t, ctx, &sim, medium, places);
    ctx.absorb(&sim);
    out
}

type Place = (u64, Text);

/// Continue at a position, with a new step budget.
fn go(sim: &Sim, at: u64) {
    sim.with(|d| {
        d.pos = at;
        d.budget = d.ops + 15_000_000;
    });
}

/// Whether a cue may have been read beyond its end.
fn short_cues(a: &ANLZ) -> bool {
    use rekordcrate::anlz::Content;
    a.sections.iter().any(|s| match &s.content {
        Content::ExtendedCueList(l) => l.cues.iter().any(|c| c.trailing.is_empty()),
        _ => false,
    })
}

/// The document read at `at` stands for the bytes there, at least as many as its header says.
fn damaged(medium: &[u8], at: usize, a: ANLZ) -> Result<Doc, Violation> {
    let mut c = Cursor::new(vec![]);
    match lib(|| a.write(&mut c)) {
        Err(p) => return Err(panicked(&p, "writing a damaged file that was read")),
        Ok(Err(e)) => return Err(Violation { class: "unwritable".into(), detail: format!("damaged file that was read cannot be written: {e}") }),
        Ok(Ok(())) => {}
    }
    let b = c.into_inner();
    let there = &medium[at..];
    let len = there.get(8..12).map_or(0, |x| u32::from_be_bytes([x[0], x[1], x[2], x[3]]) as usize);
    if !there.starts_with(&b) || b.len() < len {
        return Err(Violation {
            class: "not-reproduced".into(),
            detail: format!("a damaged analysis file of {len} bytes that is accepted is written as {} other bytes: {}", b.len(), diff(&there[..b.len().min(there.len())], &b)),
        });
    }
    Ok(Doc::Damaged(b, Box::new(a)))
}

fn c27_body(t: &mut Tape, ctx: &mut Ctx, sim: &Sim, mut want: Vec<u8>, places: Vec<Place>) -> R {
    let mut docs: Vec<Doc> = vec![];
    for (at, p) in places {
        go(sim, at);
        let mut s = sim.clone();
        let what = format!("reading at {at}");
        let doc = match p {
            Text::Anlz(m, enc) => match lib(|| ANLZ::read(&mut s)) {
                Err(p) => return Err(panicked(&p, &what)),
                Ok(Err(e)) => return viol("unreadable", format!("{what}: intact analysis file is refused: {e}")),
                Ok(Ok(a)) => Doc::Anlz(m, enc, Box::new(a)),
            },
            Text::Setting(ty, b) => match lib(|| Setting::read_args(&mut s, (ty,))) {
                Err(p) => return Err(panicked(&p, &what)),
                Ok(Err(e)) => return viol("unreadable", format!("{what}: intact settings file is refused: {e}")),
                Ok(Ok(x)) => Doc::Setting(ty, b, Box::new(x)),
            },
            Text::Damaged => match lib(|| ANLZ::read(&mut s)) {
                Err(p) => return Err(panicked(&p, &what)),
                Ok(Err(_)) => {
                    ctx.probe("damage_refused");
                    continue;
                }
                // Here a cue can be longer than it says; that is not kept.
                Ok(Ok(a)) if short_cues(&a) => {
                    ctx.probe("short_cues");
                    continue;
                }
                Ok(Ok(a)) => match damaged(&want, at as usize, a) {
                    Err(e) => return Err(e),
                    Ok(d) => d,
                },
            },
        };
        ctx.say(|| format!("{what}: {}", doc.name()));
        docs.push(doc);
    }
    if docs.is_empty() {
        return Ok(());
    }
    for _ in 0..1 + t.draw(3) {
        let i = t.usize(docs.len());
        // Edits.
        if t.chance(1, 2) {
            match &mut docs[i] {
                Doc::Anlz(m, enc, a) => {
                    let n = m.sections.len();
                    if n > 1 && a.sections.len() == n {
                        let (x, y) = (t.usize(n), t.usize(n));
                        m.sections.swap(x, y);
                        enc.swap(x, y);
                        a.sections.swap(x, y);
                        ctx.say(|| format!("swap sections {x} and {y}"));
                        ctx.probe("sections_swapped");
                    }
                }
                Doc::Damaged(..) => {}
                Doc::Setting(ty, b, x) => {
                    let other = gen_setting(t, *ty);
                    let Ok(Ok(o)) = lib(|| Setting::read_args(&mut Cursor::new(&other), (*ty,))) else {
                        return viol("unreadable", "intact settings file is refused");
                    };
                    x.data = o.data;
                    let n = b.len();
                    b[104..n - 4].copy_from_slice(&other[104..n - 4]);
                    crate::media::sign_setting(*ty, b);
                    ctx.say(|| "replace the settings".into());
                    ctx.probe("settings_replaced");
                }
            }
        }
        let doc = &docs[i];
        let bytes = doc.bytes();
        let at = match t.draw(3) {
            0 => 0,
            1 => want.len() as u64,
            _ => t.draw(want.len() as u64 + 1),
        };
        ctx.say(|| format!("write {} at {at}", doc.name()));
        let end = at as usize + bytes.len();
        let total = {
            let mut dry = Sim::new(vec![]);
            let _ = doc.write(&mut dry);
            dry.ops().max(1)
        };
        for _ in 0..t.draw(3) {
            // An attempt that fails somewhere.
            let k = *t.pick(&ERR_KINDS);
            let f = *t.pick(&[Fault::Err(k), Fault::ErrSticky(k), Fault::Zero]);
            let n = t.draw(total + total / 2);
            ctx.say(|| format!("  first with {f:?} at step {n}"));
            go(sim, at);
            sim.with(|d| {
                let o = d.ops + n;
                d.plan.insert(o, f);
            });
            let r = doc.write(&mut sim.clone());
            let (r_, w, e) = sim.with(|d| (d.chunk_r.clone(), d.chunk_w.clone(), d.eintr.clone()));
            sim.heal();
            sim.with(|d| {
                d.chunk_r = r_;
                d.chunk_w = w;
                d.eintr = e;
            });
            match r {
                Err(p) => return Err(panicked(&p, "failing write")),
                Ok(Err(_)) => ctx.probe("write_failed"),
                Ok(Ok(())) => {}
            }
        }
        go(sim, at);
        match doc.write(&mut sim.clone()) {
            Err(p) => return Err(panicked(&p, "write")),
            Ok(Err(e)) => return viol("unwritable", format!("{} that was read cannot be written: {e}", doc.name())),
            Ok(Ok(())) => {}
        }
        if want.len() < end {
            want.resize(end, 0);
        }
        want[at as usize..end].copy_from_slice(&bytes);
        let got = sim.content();
        if got != want {
            return viol(
                "not-reproduced",
                format!("{} written at {at} ({} bytes): the medium differs, {}", doc.name(), bytes.len(), diff(&want, &got)),
            );
        }
        go(sim, at);
        match doc.reads_same(&mut sim.clone()) {
            Err(p) => return Err(panicked(&p, "reading back")),
            Ok(Err(e)) => return viol("unreadable", format!("{} cannot be read back: {e}", doc.name())),
            Ok(Ok(false)) => return viol("read-back-differs", format!("{} reads back differently", doc.name())),
            Ok(Ok(true)) => ctx.probe(match doc {
                Doc::Anlz(..) => "anlz_reproduced",
                Doc::Setting(..) => "setting_reproduced",
                Doc::Damaged(..) => "damaged_reproduced",
            }),
        }
    }
    Ok(())
}
