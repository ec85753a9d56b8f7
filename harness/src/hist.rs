//! Histories of one database on a simulated disk: C04 - C08 and C10.

use crate::ctx::{lib, viol, Ctx, Violation, R};
use crate::gen_pdb::{gen_db, grow, Db, Kind, Opts, PageM, Slot, ANY, HEAP};
use crate::pdbx::*;
use crate::simio::{Chunk, CrashMode, Fault, Op, Sim, ERR_KINDS};
use crate::tape::{Rng, Tape};
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::Page;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
enum Did {
    Load(u32),
    Edit(Edit),
    Insert {
        page: u32,
        kind: Kind,
        bytes: Vec<u8>,
        calc: bool,
        size: u16,
        done: bool,
    },
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Focus {
    C04,
    C05,
    C06,
    C07,
    C08,
}
impl Focus {
    /// Whether "the library cannot even perform this undisturbed operation" breaks the property.
    fn strict(self) -> bool {
        matches!(self, Focus::C04 | Focus::C06 | Focus::C08)
    }
}

/// Leave the history early without verdict.
struct Skip;
enum Stop {
    Viol(Violation),
    Skip,
}
impl From<Violation> for Stop {
    fn from(v: Violation) -> Self {
        Stop::Viol(v)
    }
}
impl From<Skip> for Stop {
    fn from(_: Skip) -> Self {
        Stop::Skip
    }
}
type S<T> = Result<T, Stop>;

struct World {
    focus: Focus,
    sim: Sim,
    ext: bool,
    m: Db,
    saved: Db,
    want: Vec<u8>,
    /// What the disk holds by the model (contents after the last successful flush).
    disk: Vec<u8>,
    wild: BTreeSet<usize>,
    touched: BTreeSet<u32>,
    log: Vec<Did>,
    db: Option<Database<Sim>>,
    last_writes: u64,
    dirty: bool,
    /// Edits that would take back an earlier one.
    undo: Vec<Edit>,
}

pub fn delivery(t: &mut Tape, sim: &Sim) {
    let mode = t.draw(6);
    let pick = |t: &mut Tape| match t.draw(5) {
        0 => Chunk::Full,
        1 => Chunk::Fixed(1 + t.usize(9)),
        2 => Chunk::Fixed(1),
        3 => Chunk::Rand(t.seed(), 7),
        _ => Chunk::Rand(t.seed(), 600),
    };
    if mode == 0 {
        return;
    }
    let (r, w) = (pick(t), pick(t));
    let e = if t.chance(1, 2) {
        Some((t.seed(), 2 + t.draw(30)))
    } else {
        None
    };
    sim.with(|d| {
        d.chunk_r = r;
        d.chunk_w = w;
        d.eintr = e;
    });
}

fn first_diff(a: &[u8], b: &[u8], wild: &BTreeSet<usize>) -> Option<usize> {
    if a.len() != b.len() {
        return Some(a.len().min(b.len()));
    }
    if wild.is_empty() && a == b {
        return None;
    }
    (0..a.len()).find(|i| a[*i] != b[*i] && !wild.contains(i))
}

impl World {
    fn new(t: &mut Tape, ctx: &mut Ctx, focus: Focus, o: &Opts) -> World {
        let m = gen_db(t, o);
        ctx.say(|| m.describe());
        let sim = Sim::new(m.image.clone());
        ctx.watch(&sim);
        World {
            focus,
            ext: m.ext,
            want: m.image.clone(),
            disk: m.image.clone(),
            saved: m.clone(),
            m,
            sim,
            wild: BTreeSet::new(),
            touched: BTreeSet::new(),
            log: vec![],
            db: None,
            last_writes: 0,
            dirty: false,
            undo: vec![],
        }
    }
    fn npages(&self) -> u32 {
        self.m.next_unused - 1
    }
    /// An operation that has no excuse to fail did fail.
    fn broken<T>(&self, what: &str, why: String) -> S<T> {
        if self.focus.strict() {
            Err(Stop::Viol(Violation {
                class: what.into(),
                detail: why,
            }))
        } else {
            Err(Stop::Skip)
        }
    }
    fn no_writes(&mut self, what: &str) -> S<()> {
        let n = self.sim.with(|d| d.n_write);
        if n != self.last_writes {
            let extra = n - self.last_writes;
            self.last_writes = n;
            if self.focus == Focus::C07 {
                viol(
                    "write-outside-flush",
                    format!("{what} issued {extra} write call(s)"),
                )?;
            }
        }
        Ok(())
    }
    fn open(&mut self, ctx: &mut Ctx, ro: bool) -> S<()> {
        ctx.say(|| format!("open{}", if ro { " (non persistent)" } else { "" }));
        self.touched.clear();
        self.log.clear();
        let (sim, d) = (self.sim.clone(), dt(self.ext));
        sim.with(|d| d.pos = 0);
        let r = lib(|| {
            if ro {
                Database::open_non_persistent(sim, d)
            } else {
                Database::open(sim, d)
            }
        });
        self.no_writes("open")?;
        match r {
            Err(p) => self.broken("open-panics", format!("open panicked: {}", p.0)),
            Ok(Err(e)) => self.broken(
                "open-fails",
                format!("opening an intact database failed: {e}"),
            ),
            Ok(Ok(db)) => {
                self.db = Some(db);
                Ok(())
            }
        }
    }
    /// Access a page and hand it to f; no fault is active.
    fn access<T>(
        &mut self,
        page: u32,
        path: Path,
        what: &str,
        f: impl FnOnce(&mut Page) -> T,
    ) -> S<T> {
        self.touched.insert(page);
        if let Some(tb) = self.m.tables.iter().find(|t| t.chain.contains(&page)) {
            if path != Path::Direct {
                for p in &tb.chain {
                    self.touched.insert(*p);
                    if *p == page {
                        break;
                    }
                }
            }
        }
        let m = self.m.clone();
        let db = self.db.as_mut().expect("open");
        let r = lib(|| on_page(db, &m, page, path, f));
        self.no_writes(what)?;
        match r {
            Err(p) => self.broken(
                "access-panics",
                format!("{what} page {page} via {path:?} panicked: {}", p.0),
            ),
            Ok(Err(e)) => self.broken(
                "access-fails",
                format!("{what} page {page} via {path:?} failed: {e}"),
            ),
            Ok(Ok(None)) => self.broken(
                "page-missing",
                format!("{what}: page {page} not found via {path:?}"),
            ),
            Ok(Ok(Some(x))) => Ok(x),
        }
    }
    fn page_class(&self, page: u32) -> bool {
        !matches!(self.m.pages[page as usize - 1], PageM::Blank)
    }
    fn pick_page(&self, t: &mut Tape) -> Option<u32> {
        let v: Vec<u32> = (1..=self.npages())
            .filter(|p| self.page_class(*p))
            .collect();
        if v.is_empty() {
            None
        } else {
            Some(v[t.usize(v.len())])
        }
    }
    fn path(&self, t: &mut Tape) -> Path {
        *t.pick(&[Path::Direct, Path::Direct, Path::ByTable, Path::ByType])
    }
    fn edit(&mut self, t: &mut Tape, ctx: &mut Ctx) -> S<()> {
        let page = if t.chance(1, 6) {
            0
        } else {
            match self.pick_page(t) {
                Some(p) => p,
                None => 0,
            }
        };
        // Sometimes an earlier edit is taken back.
        let e = if t.chance(1, 4) && !self.undo.is_empty() {
            let i = t.usize(self.undo.len().min(3));
            ctx.probe("edit_taken_back");
            self.undo[self.undo.len() - 1 - i].clone()
        } else {
            match gen_edit(t, &self.m, page) {
                Some(e) => e,
                None => return Ok(()),
            }
        };
        let page = e.page;
        if let (Some(o), Some(PageM::Data { slots, .. })) = (
            e.what.row(),
            page.checked_sub(1).map(|p| &self.m.pages[p as usize]),
        ) {
            // Taken back too late: the row is gone.
            if !slots.iter().any(|s| s.present && s.off == o) {
                return Ok(());
            }
        }
        ctx.say(|| format!("edit page {page}: {:?}", e.what));
        if page == 0 {
            let db = self.db.as_mut().expect("open");
            if apply_hdr(db.get_header_mut(), &e.what).is_none() {
                return self.broken(
                    "edit-target-missing",
                    format!("the header does not contain what {:?} edits", e.what),
                );
            }
        } else {
            let path = self.path(t);
            let w = e.what.clone();
            if self
                .access(page, path, "edit", |p| apply_edit(p, &w))?
                .is_none()
            {
                return self.broken(
                    "edit-target-missing",
                    format!("page {page} does not contain what {:?} edits", e.what),
                );
            }
        }
        self.note(e);
        Ok(())
    }
    fn note(&mut self, e: Edit) {
        let old = self.want[e.at..e.at + e.bytes.len()].to_vec();
        if let Some(what) = e.what.with_bytes(&old) {
            self.undo.push(Edit {
                page: e.page,
                what,
                at: e.at,
                bytes: old,
                more: vec![],
            });
        }
        self.want[e.at..e.at + e.bytes.len()].copy_from_slice(&e.bytes);
        for i in e.at..e.at + e.bytes.len() {
            self.wild.remove(&i);
        }
        for (at, b) in &e.more {
            self.put(*at, b);
        }
        if let (What::Delete { off, slot, .. }, true) = (&e.what, self.dirty) {
            // Whether earlier changes of the row ever reached the disk is not known.
            let base = self.m.page_base(e.page);
            if let PageM::Data { slots, .. } = &self.m.pages[e.page as usize - 1] {
                let at = base + HEAP + *off as usize;
                self.wild.extend(at..at + slots[*slot].row.bytes.len());
                let at = base + self.m.page_size - 36 * (slot / 16 + 1) + 2 * (15 - slot % 16);
                self.wild.extend(at..at + 2);
            }
        }
        adopt_edit(&mut self.m, &e);
        self.dirty = true;
        self.log.push(Did::Edit(e));
    }
    /// Insert (or allocate and abandon) a row.
    fn insert(&mut self, t: &mut Tape, ctx: &mut Ctx) -> S<()> {
        let v: Vec<(u32, Kind)> = self
            .m
            .tables
            .iter()
            .flat_map(|tb| tb.chain.iter().map(move |p| (*p, tb.kind)))
            .filter(|(p, k)| {
                !matches!(k, Kind::Unknown(_))
                    && matches!(self.m.pages[*p as usize - 1], PageM::Data { .. })
            })
            .collect();
        if v.is_empty() {
            return Ok(());
        }
        let (page, kind) = v[t.usize(v.len())];
        let Some((rm, row)) = new_row(t, kind) else {
            return Ok(());
        };
        let done = !t.chance(1, 5);
        let path = self.path(t);
        let size = rm.bytes.len() as u16;
        let before: Vec<u16> = self.access(page, path, "insert", |p| {
            p.content
                .as_data()
                .map(|d| d.rows.keys().copied().collect())
                .unwrap_or_default()
        })?;
        let granted = self.access(page, path, "insert", |p| match p.allocate_row(size) {
            Some(ins) => {
                if done {
                    ins(row);
                }
                true
            }
            None => false,
        })?;
        ctx.say(|| {
            format!(
                "insert {size}-byte {kind:?} row into page {page} done={done}: granted={granted}"
            )
        });
        if !granted {
            return Ok(());
        }
        ctx.probe(if done {
            "row_inserted"
        } else {
            "row_abandoned"
        });
        self.adopt(page, &rm, &before, done)?;
        self.log.push(Did::Insert {
            page,
            kind,
            bytes: rm.bytes,
            calc: rm.calc,
            size,
            done,
        });
        Ok(())
    }
    /// Take over into the model what an insertion did to the page.
    fn adopt(&mut self, page: u32, rm: &crate::gen_pdb::RowM, before: &[u16], done: bool) -> S<()> {
        let (off, used, free, rows, valid) = self.access(page, Path::Direct, "insert", |p| {
            let off = p
                .content
                .as_data()
                .and_then(|d| d.rows.keys().copied().find(|k| !before.contains(k)));
            let c = p.header.packed_row_counts;
            (
                off,
                p.header.used_size,
                p.header.free_size,
                c.num_rows(),
                c.num_rows_valid(),
            )
        })?;
        self.dirty = true;
        let base = self.m.page_base(page);
        let ps = self.m.page_size;
        let packed = u32::from(rows) | (u32::from(valid) << 13);
        self.put(base + 24, &packed.to_le_bytes()[..3]);
        self.put(base + 28, &free.to_le_bytes());
        self.put(base + 30, &used.to_le_bytes());
        let Some(idx) = (rows as usize).checked_sub(1) else {
            return self.broken(
                "insert-lost",
                format!("page {page} counts no rows after an insertion"),
            );
        };
        let g = idx / 16;
        let gs = base + ps - 36 * (g + 1);
        let slot_at = gs + 2 * (15 - idx % 16);
        if idx % 16 == 0 {
            // A new row group: its flags and unknown field are written for the first time.
            self.put(gs + 32, &[0, 0, 0, 0]);
        }
        if done {
            let Some(off) = off else {
                return self.broken(
                    "insert-lost",
                    format!("inserted row is not among the rows of page {page}"),
                );
            };
            self.put(slot_at, &off.to_le_bytes());
            let fl =
                u16::from_le_bytes([self.want[gs + 32], self.want[gs + 33]]) | (1 << (idx % 16));
            self.put(gs + 32, &fl.to_le_bytes());
            let at = base + HEAP + off as usize;
            if at + rm.bytes.len() > base + ps {
                return self.broken(
                    "insert-outside-page",
                    format!("row placed at {off} in page {page}"),
                );
            }
            self.put(at, &rm.bytes);
            // Whether padding inside a new row is written is up to the library.
            self.wild.extend(rm.gaps.iter().map(|g| at + g));
            if let PageM::Data {
                slots,
                used: u,
                free: f,
            } = &mut self.m.pages[page as usize - 1]
            {
                slots.push(Slot {
                    off,
                    present: true,
                    row: rm.clone(),
                });
                *u = used;
                *f = free;
            }
        } else {
            self.wild.insert(slot_at);
            self.wild.insert(slot_at + 1);
            if let PageM::Data {
                slots,
                used: u,
                free: f,
            } = &mut self.m.pages[page as usize - 1]
            {
                slots.push(Slot {
                    off: used,
                    present: false,
                    row: rm.clone(),
                });
                *u = used;
                *f = free;
            }
        }
        Ok(())
    }
    fn put(&mut self, at: usize, b: &[u8]) {
        self.want[at..at + b.len()].copy_from_slice(b);
        for i in at..at + b.len() {
            self.wild.remove(&i);
        }
    }
    /// Load a page and compare it with the model.
    fn check_page(&mut self, t: &mut Tape, ctx: &mut Ctx, page: u32) -> S<()> {
        let path = self.path(t);
        ctx.say(|| format!("read page {page} via {path:?}"));
        let clone = self.access(page, path, "read", |p| p.clone())?;
        self.log.push(Did::Load(page));
        self.compare_page(page, &clone, "read")
    }
    fn compare_page(&self, page: u32, got: &Page, what: &str) -> S<()> {
        let base = self.m.page_base(page);
        let ps = self.m.page_size;
        let wantb = &self.want[base..base + ps];
        let expect = match lib(|| ref_page(&self.want, self.ext, page)) {
            Ok(Ok(p)) => p,
            Ok(Err(e)) => {
                return self.broken(
                    "model-unreadable",
                    format!("page {page} of the expected file: {e}"),
                )
            }
            Err(p) => return self.broken("access-panics", p.0),
        };
        if settled_page(got) != expect {
            return self.broken("wrong-contents", format!("{what}: page {page} differs from the file's data plus the edits made\n got: {got:?}\nwant: {expect:?}"));
        }
        match lib(|| page_over(got, wantb)) {
            Ok(Ok(b)) => {
                let w: BTreeSet<usize> = self
                    .wild
                    .iter()
                    .filter(|x| **x >= base && **x < base + ps)
                    .map(|x| x - base)
                    .collect();
                if let Some(i) = first_diff(&b, wantb, &w) {
                    return self.broken("wrong-contents", format!("{what}: page {page} serialises differently from the expected page at offset {i:#x}"));
                }
                Ok(())
            }
            Ok(Err(e)) => self.broken("unwritable-page", format!("{what}: page {page}: {e}")),
            Err(p) => self.broken("access-panics", p.0),
        }
    }
    /// Replay the history since opening on an undisturbed twin; returns the operation kinds of its flush.
    fn twin(&self) -> Option<Vec<Op>> {
        let sim = Sim::new(self.disk_now());
        let mut db = lib(|| Database::open(sim.clone(), dt(self.ext)))
            .ok()?
            .ok()?;
        lib(|| {
            for d in &self.log {
                match d {
                    Did::Load(p) => {
                        let _ = db.load_page(pidx(*p));
                    }
                    Did::Edit(e) if e.page == 0 => {
                        let _ = apply_hdr(db.get_header_mut(), &e.what);
                    }
                    Did::Edit(e) => {
                        if let Ok(p) = db.load_page(pidx(e.page)) {
                            let _ = apply_edit(p, &e.what);
                        }
                    }
                    Did::Insert {
                        page,
                        kind,
                        bytes,
                        calc,
                        size,
                        done,
                    } => {
                        if let Ok(p) = db.load_page(pidx(*page)) {
                            if let (Some(ins), Ok(row)) =
                                (p.allocate_row(*size), make_row(*kind, bytes, *calc))
                            {
                                if *done {
                                    ins(row);
                                }
                            }
                        }
                    }
                }
            }
        })
        .ok()?;
        // The same delivery as the real disk will use.
        let (cr, cw, ei) = self
            .sim
            .with(|d| (d.chunk_r.clone(), d.chunk_w.clone(), d.eintr.clone()));
        sim.with(|d| {
            d.kinds.clear();
            d.record_kinds = true;
            d.chunk_r = cr;
            d.chunk_w = cw;
            d.eintr = ei;
        });
        let r = lib(|| db.flush()).ok()?;
        r.ok()?;
        Some(sim.with(|d| std::mem::take(&mut d.kinds)))
    }
    fn disk_now(&self) -> Vec<u8> {
        self.disk.clone()
    }
    /// An undisturbed (but possibly choppy) flush.
    fn flush(&mut self, t: &mut Tape, ctx: &mut Ctx) -> S<()> {
        let _ = t;
        ctx.say(|| "flush".into());
        let db = self.db.as_mut().expect("open");
        let before = self.sim.content();
        self.sim.with(|d| d.wlog = Some(vec![]));
        let r = lib(|| db.flush());
        self.last_writes = self.sim.with(|d| d.n_write);
        self.judge_writes(&before)?;
        match r {
            Err(p) => self.broken("flush-panics", format!("flush panicked: {}", p.0)),
            Ok(Err(e)) => self.broken("flush-fails", format!("undisturbed flush failed: {e}")),
            Ok(Ok(())) => self.acknowledged("flush"),
        }
    }
    /// The flush returned success.
    fn acknowledged(&mut self, what: &str) -> S<()> {
        self.dirty = false;
        let (cache, durable) = self.sim.with(|d| (d.cache.clone(), d.durable.clone()));
        if self.focus == Focus::C04 || self.focus == Focus::C06 {
            if let Some(i) = first_diff(&cache, &self.want, &self.wild) {
                let e = format!(
                    "after a successful {what} the file differs from the edited contents at {i:#x} (page {}): has {:02x?} wants {:02x?}, lengths {} / {}",
                    i / self.m.page_size,
                    cache.get(i),
                    self.want.get(i),
                    cache.len(),
                    self.want.len()
                );
                viol("flush-incomplete", e)?;
            }
        }
        if self.focus == Focus::C04 {
            if let Some(i) = first_diff(&durable, &self.want, &self.wild) {
                viol("flush-not-durable", format!("after a successful {what}, losing what the stream merely buffered loses byte {i:#x}"))?;
            }
        }
        self.disk = self.want.clone();
        for w in &self.wild {
            self.disk[*w] = cache.get(*w).copied().unwrap_or(0);
        }
        self.saved = self.m.clone();
        Ok(())
    }
    /// C05: every byte written during a flush is the old or the new value of that byte.
    fn judge_writes(&mut self, before: &[u8]) -> S<()> {
        let w = self.sim.with(|d| d.wlog.take()).unwrap_or_default();
        if self.focus != Focus::C05 {
            return Ok(());
        }
        for (pos, data) in &w {
            let pos = *pos as usize;
            if pos + data.len() > before.len() {
                viol(
                    "file-grows",
                    format!(
                        "flush wrote {} bytes at {pos:#x}, past the end of the file ({:#x})",
                        data.len(),
                        before.len()
                    ),
                )?;
            }
            let (p0, p1) = (
                pos / self.m.page_size,
                (pos + data.len() - 1) / self.m.page_size,
            );
            for p in p0..=p1 {
                if p != 0 && !self.touched.contains(&(p as u32)) {
                    viol("unloaded-page-written", format!("flush wrote to page {p}, which was never loaded ({} bytes at {pos:#x})", data.len()))?;
                }
            }
            for (i, b) in data.iter().enumerate() {
                let o = pos + i;
                if *b != before[o] && *b != self.want[o] && !self.wild.contains(&o) {
                    viol(
                        "foreign-byte-written",
                        format!("flush wrote {b:02x} at {o:#x} (page {}, offset {:#x}); before the flush it was {:02x}, after it should be {:02x}", o / self.m.page_size, o % self.m.page_size, before[o], self.want[o]),
                    )?;
                }
            }
        }
        Ok(())
    }
    fn judge_image(&self, img: &[u8], before: &[u8], what: &str) -> S<()> {
        if img.len() != before.len() {
            viol(
                "length-changed",
                format!("{what}: file length {} became {}", before.len(), img.len()),
            )?;
        }
        for o in 0..img.len() {
            if img[o] != before[o] && img[o] != self.want[o] && !self.wild.contains(&o) {
                viol(
                    "foreign-byte",
                    format!(
                        "{what}: byte {o:#x} is {:02x}, was {:02x}, should become {:02x}",
                        img[o], before[o], self.want[o]
                    ),
                )?;
            }
        }
        Ok(())
    }
    /// A flush with a fault somewhere inside it. Returns the outcome (None: the process died).
    fn faulty_flush(&mut self, t: &mut Tape, ctx: &mut Ctx, crash: bool) -> S<Option<bool>> {
        let Some(kinds) = self.twin() else {
            return self.broken(
                "flush-fails",
                "undisturbed flush of the same history failed".into(),
            );
        };
        let cand: Vec<u64> = kinds
            .iter()
            .enumerate()
            .filter(|(_, k)| {
                if crash {
                    matches!(k, Op::Write | Op::Flush)
                } else {
                    true
                }
            })
            .map(|(i, _)| i as u64)
            .collect();
        if cand.is_empty() {
            return Ok(Some(true));
        }
        let k = cand[t.usize(cand.len())];
        let f = if crash {
            Fault::Crash(t.usize(64))
        } else {
            match t.draw(6) {
                0 | 1 => Fault::Err(*t.pick(&ERR_KINDS)),
                2 | 3 => Fault::ErrSticky(*t.pick(&ERR_KINDS)),
                4 => Fault::Zero,
                _ => {
                    let cap = t.draw(self.want.len() as u64 + 1);
                    self.sim.with(|d| d.capacity = Some(cap));
                    Fault::Short(1)
                }
            }
        };
        ctx.say(|| format!("flush with {f:?} at its I/O step {k} of {}", kinds.len()));
        let before = self.sim.content();
        self.sim.with(|d| {
            let at = d.ops + k;
            d.plan.insert(at, f);
            d.wlog = Some(vec![]);
        });
        let db = self.db.as_mut().expect("open");
        let r = lib(|| db.flush());
        self.last_writes = self.sim.with(|d| d.n_write);
        self.judge_writes(&before)?;
        if self.focus == Focus::C05 {
            let cr = self.sim.with(|d| d.crashed);
            let mut rng = Rng(t.draw(1 << 30));
            for mode in [
                CrashMode::Process,
                CrashMode::LoseAll,
                CrashMode::Sectors,
                CrashMode::Sectors,
            ] {
                let img = self.sim.with(|d| d.crash_image(mode, &mut rng));
                self.judge_image(
                    &img,
                    &before,
                    &format!(
                        "{mode:?} image {} step {k}",
                        if cr {
                            "after a crash at"
                        } else {
                            "at a fault in"
                        }
                    ),
                )?;
            }
        }
        match r {
            Err(p) => self.broken(
                "flush-panics",
                format!("flush with {f:?} panicked: {}", p.0),
            ),
            Ok(_) if self.sim.with(|d| d.crashed) => Ok(None),
            Ok(Ok(())) => Ok(Some(true)),
            Ok(Err(e)) => {
                ctx.say(|| format!("  flush failed: {e}"));
                Ok(Some(false))
            }
        }
    }
    fn close(&mut self, ctx: &mut Ctx) -> S<()> {
        ctx.say(|| "close".into());
        let db = self.db.take().expect("open");
        let before = self.sim.content();
        self.sim.with(|d| d.wlog = Some(vec![]));
        let r = lib(|| db.close());
        self.last_writes = self.sim.with(|d| d.n_write);
        self.judge_writes(&before)?;
        match r {
            Err(p) => self.broken("flush-panics", format!("close panicked: {}", p.0)),
            Ok(Err(e)) => self.broken("flush-fails", format!("undisturbed close failed: {e}")),
            Ok(Ok(())) => self.acknowledged("close"),
        }
    }
    /// Forget everything that was not flushed.
    fn forget(&mut self) {
        self.want = self.disk.clone();
        self.m = self.saved.clone();
        self.wild.clear();
        self.log.clear();
        self.undo.clear();
        self.dirty = false;
    }
    fn drop_db(&mut self, ctx: &mut Ctx) -> S<()> {
        ctx.say(|| "drop the handle without flushing".into());
        let db = self.db.take();
        let r = lib(|| drop(db));
        self.no_writes("dropping the handle")?;
        if let Err(p) = r {
            return self.broken("drop-panics", p.0);
        }
        self.forget();
        Ok(())
    }
    /// The process dies while nothing is in progress; possibly the machine does, too.
    fn crash(&mut self, t: &mut Tape, ctx: &mut Ctx) -> S<()> {
        let mode = *t.pick(&[CrashMode::LoseAll, CrashMode::Sectors, CrashMode::Process]);
        ctx.say(|| format!("crash ({mode:?})"));
        ctx.fault(
            match mode {
                CrashMode::Process => "crash_process",
                CrashMode::LoseAll => "crash_power_lose_cache",
                CrashMode::Sectors => "crash_power_sectors",
            },
            1,
        );
        std::mem::forget(self.db.take());
        let mut rng = Rng(t.draw(1 << 30));
        let img = self.sim.with(|d| d.crash_image(mode, &mut rng));
        self.forget();
        if self.focus == Focus::C04 {
            if let Some(i) = first_diff(&img, &self.disk, &BTreeSet::new()) {
                viol("acknowledged-data-lost", format!("after a crash ({mode:?}) the file differs at {i:#x} from the last acknowledged flush"))?;
            }
        }
        let old = self.sim.clone();
        ctx.absorb(&old);
        let (cr, cw, ei) = old.with(|d| (d.chunk_r.clone(), d.chunk_w.clone(), d.eintr.clone()));
        self.sim = Sim::new(img);
        ctx.watch(&self.sim);
        self.sim.with(|d| {
            d.chunk_r = cr;
            d.chunk_w = cw;
            d.eintr = ei;
        });
        self.last_writes = 0;
        Ok(())
    }
    /// Clones of all pages in memory (loading nothing new from a working disk).
    fn snapshot(&mut self) -> S<BTreeMap<u32, Page>> {
        let pages: Vec<u32> = self.touched.iter().copied().collect();
        let mut out = BTreeMap::new();
        for p in pages {
            let c = self.access(p, Path::Direct, "re-read", |x| x.clone())?;
            out.insert(p, c);
        }
        Ok(out)
    }
    fn finish(self, ctx: &mut Ctx, r: S<()>) -> R {
        std::mem::forget(self.db);
        ctx.absorb(&self.sim);
        match r {
            Ok(()) => Ok(()),
            Err(Stop::Skip) => {
                ctx.probe("skipped_unusable");
                Ok(())
            }
            Err(Stop::Viol(v)) => Err(v),
        }
    }
}

fn hist_opts(t: &mut Tape) -> Opts {
    let mut o = ANY;
    if t.chance(1, 2) {
        o.max_tables = 3;
        o.max_rows = 8;
    }
    grow(t, &mut o);
    if t.chance(1, 100) {
        o.max_tables = 0;
    }
    o
}

/// C04: acknowledged flushes are complete and durable, over any history.
pub fn c04(t: &mut Tape, ctx: &mut Ctx) -> R {
    let o = hist_opts(t);
    let mut w = World::new(t, ctx, Focus::C04, &o);
    delivery(t, &w.sim);
    let r = (|| -> S<()> {
        w.open(ctx, false)?;
        let n = 2 + t.draw(14);
        for _ in 0..n {
            match t.draw(16) {
                0..=4 => w.edit(t, ctx)?,
                5..=6 => w.insert(t, ctx)?,
                7 => {
                    if let Some(p) = w.pick_page(t) {
                        w.check_page(t, ctx, p)?;
                    }
                }
                8..=10 => w.flush(t, ctx)?,
                11 => {
                    // A flush that fails is not acknowledged; what matters is the next one.
                    let ok = w.faulty_flush(t, ctx, false)?;
                    w.sim.heal();
                    if ok == Some(true) && w.sim.with(|d| d.errors) == 0 {
                        w.acknowledged("flush")?;
                    } else {
                        w.flush(t, ctx)?;
                    }
                }
                12 => {
                    w.close(ctx)?;
                    w.wild.clear();
                    w.want = w.disk.clone();
                    w.open(ctx, false)?;
                    reread(t, ctx, &mut w)?;
                }
                13 => {
                    // Close, lose power, reopen.
                    let snap = w.snapshot()?;
                    w.flush(t, ctx)?;
                    w.crash(t, ctx)?;
                    w.open(ctx, false)?;
                    for (p, old) in &snap {
                        let new = w.access(*p, Path::Direct, "read", |x| x.clone())?;
                        if settled_page(&new) != settled_page(old) {
                            viol("reopened-differs", format!("page {p} reads differently after flush and power loss\nbefore: {old:?}\nafter: {new:?}"))?;
                        }
                    }
                    ctx.probe("reopen_after_power_loss");
                }
                14 => {
                    w.crash(t, ctx)?;
                    w.open(ctx, false)?;
                    reread(t, ctx, &mut w)?;
                }
                _ => {
                    w.drop_db(ctx)?;
                    w.open(ctx, false)?;
                }
            }
        }
        if t.chance(1, 2) {
            w.flush(t, ctx)?;
        } else {
            w.close(ctx)?;
        }
        Ok(())
    })();
    w.finish(ctx, r)
}

fn reread(t: &mut Tape, ctx: &mut Ctx, w: &mut World) -> S<()> {
    for _ in 0..2 {
        if let Some(p) = w.pick_page(t) {
            w.check_page(t, ctx, p)?;
        }
    }
    Ok(())
}

/// C05: a flush only changes what was edited, at every crash point.
pub fn c05(t: &mut Tape, ctx: &mut Ctx) -> R {
    let o = hist_opts(t);
    let mut w = World::new(t, ctx, Focus::C05, &o);
    delivery(t, &w.sim);
    let r = (|| -> S<()> {
        w.open(ctx, false)?;
        let rounds = 1 + t.draw(3);
        for i in 0..rounds {
            for _ in 0..t.draw(6) {
                match t.draw(8) {
                    0..=3 => w.edit(t, ctx)?,
                    4..=5 => w.insert(t, ctx)?,
                    _ => {
                        if let Some(p) = w.pick_page(t) {
                            w.access(p, Path::Direct, "read", |_| ())?;
                            w.log.push(Did::Load(p));
                        }
                    }
                }
            }
            let last = i + 1 == rounds;
            match t.draw(5) {
                0 => {
                    let before = w.sim.content();
                    w.flush(t, ctx)?;
                    let img = w.sim.content();
                    w.judge_image(&img, &before, "completed flush")?;
                    if let Some(x) = first_diff(&img, &w.want, &w.wild) {
                        // Incomplete: C04's business, unless the byte has no edit.
                        let _ = x;
                        return Err(Skip.into());
                    }
                }
                1 | 2 => {
                    w.faulty_flush(t, ctx, true)?;
                    ctx.probe("crash_during_flush");
                    return Ok(());
                }
                _ => {
                    let ok = w.faulty_flush(t, ctx, false)?;
                    w.sim.heal();
                    ctx.probe("fault_during_flush");
                    if last || ok.is_none() {
                        return Ok(());
                    }
                    // Retry on a working disk from the mixed state.
                    let before = w.sim.content();
                    w.flush(t, ctx)?;
                    let img = w.sim.content();
                    w.judge_image(&img, &before, "completed retry")?;
                }
            }
        }
        Ok(())
    })();
    w.finish(ctx, r)
}

/// C06: a failed flush loses nothing and can be retried.
pub fn c06(t: &mut Tape, ctx: &mut Ctx) -> R {
    let o = hist_opts(t);
    let mut w = World::new(t, ctx, Focus::C06, &o);
    delivery(t, &w.sim);
    let r = (|| -> S<()> {
        w.open(ctx, false)?;
        let rounds = 1 + t.draw(3);
        for _ in 0..rounds {
            for _ in 0..1 + t.draw(5) {
                if t.chance(1, 3) {
                    w.insert(t, ctx)?;
                } else {
                    w.edit(t, ctx)?;
                }
            }
            let mut failed = false;
            for _ in 0..1 + t.draw(3) {
                let snap = w.snapshot()?;
                let ok = w.faulty_flush(t, ctx, false)?;
                if ok == Some(false) {
                    failed = true;
                    ctx.probe("flush_failed");
                    // Contents in memory are the same, even while the disk is still broken.
                    let hdr = format!("{:?}", w.db.as_ref().expect("open").get_header());
                    w.sim.heal();
                    for (p, old) in &snap {
                        let new = w.access(*p, Path::Direct, "re-read", |x| x.clone())?;
                        if settled_page(&new) != settled_page(old) {
                            viol("failed-flush-changed-memory", format!("page {p} changed in memory by a failed flush\nbefore: {old:?}\nafter: {new:?}"))?;
                        }
                    }
                    let img_hdr = {
                        let mut c = std::io::Cursor::new(w.want.clone());
                        Database::open_non_persistent(&mut c, dt(w.ext))
                            .map(|d| format!("{:?}", d.get_header()))
                            .unwrap_or_default()
                    };
                    if hdr != img_hdr {
                        viol(
                            "failed-flush-changed-memory",
                            format!("header changed by a failed flush: {hdr} instead of {img_hdr}"),
                        )?;
                    }
                    if t.chance(1, 3) {
                        w.edit(t, ctx)?;
                    }
                } else {
                    w.sim.heal();
                    break;
                }
            }
            delivery(t, &w.sim);
            if t.chance(1, 6) && failed {
                w.close(ctx)?;
                w.wild.clear();
                w.want = w.disk.clone();
                w.open(ctx, false)?;
            } else {
                w.flush(t, ctx)?;
            }
            if failed {
                ctx.probe("retried_flush_ok");
            }
        }
        Ok(())
    })();
    w.finish(ctx, r)
}

/// C07: nothing but flush and close writes.
pub fn c07(t: &mut Tape, ctx: &mut Ctx) -> R {
    let o = hist_opts(t);
    let mut w = World::new(t, ctx, Focus::C07, &o);
    delivery(t, &w.sim);
    let r = (|| -> S<()> {
        let mut ro = t.chance(1, 4);
        w.open(ctx, ro)?;
        for _ in 0..3 + t.draw(14) {
            match t.draw(10) {
                0..=2 => w.edit(t, ctx)?,
                3 => w.insert(t, ctx)?,
                4 => {
                    if let Some(p) = w.pick_page(t) {
                        let path = w.path(t);
                        w.access(p, path, "read", |_| ())?;
                    }
                }
                5 if !w.m.tables.is_empty() => {
                    // Walk typed rows.
                    let k = w.m.tables[t.usize(w.m.tables.len())].kind;
                    let db = w.db.as_mut().expect("open");
                    let _ = lib(|| typed_rows(db, k));
                    w.no_writes("iterating rows")?;
                }
                6 => {
                    // A load that fails.
                    if let Some(p) = w.pick_page(t) {
                        let k = t.draw(12);
                        w.sim.with(|d| {
                            let at = d.ops + k;
                            d.plan.insert(at, Fault::Err(ERR_KINDS[(k % 6) as usize]));
                        });
                        let db = w.db.as_mut().expect("open");
                        let r = lib(|| db.load_page(pidx(p)).map(|_| ()));
                        w.sim.heal();
                        w.no_writes("a failing load")?;
                        if !matches!(r, Ok(Ok(()))) {
                            ctx.probe("load_failed");
                        }
                    }
                }
                7 => {
                    if !ro {
                        w.flush(t, ctx)?;
                        ctx.probe("flushed");
                    }
                }
                8 => {
                    let db = w.db.as_mut().expect("open");
                    let _ = lib(|| {
                        let _ = db.load_page(pidx(9_999));
                        let _ = db.load_page(pidx(0));
                        let _ = db.get_header_mut();
                        let _ = db
                            .iter_pages_for_table(rekordcrate::util::TableIndex::from(999))
                            .is_err();
                    });
                    w.no_writes("looking up what does not exist")?;
                }
                _ => {
                    w.drop_db(ctx)?;
                    ro = t.chance(1, 3);
                    w.open(ctx, ro)?;
                }
            }
        }
        w.drop_db(ctx)?;
        Ok(())
    })();
    if w.sim.with(|d| d.shorts) > 0 {
        ctx.nontrivial = true;
    }
    w.finish(ctx, r)
}

/// C08: lazy loading is invisible.
pub fn c08(t: &mut Tape, ctx: &mut Ctx) -> R {
    let o = hist_opts(t);
    let mut w = World::new(t, ctx, Focus::C08, &o);
    delivery(t, &w.sim);
    let r = (|| -> S<()> {
        w.open(ctx, t.chance(1, 3))?;
        let n = 3 + t.draw(14);
        for _ in 0..n {
            match t.draw(10) {
                0..=2 => {
                    if let Some(p) = w.pick_page(t) {
                        w.check_page(t, ctx, p)?;
                    }
                }
                3..=4 => w.edit(t, ctx)?,
                5 => w.insert(t, ctx)?,
                6..=7 => {
                    // The same access, first with a fault, then without.
                    let Some(p) = w.pick_page(t) else { continue };
                    let path = w.path(t);
                    let k = match t.draw(3) {
                        0 => t.draw(8),
                        1 => t.draw(60),
                        _ => t.draw(400),
                    };
                    let f = match t.draw(3) {
                        0 => Fault::Err(*t.pick(&ERR_KINDS)),
                        1 => Fault::ErrSticky(*t.pick(&ERR_KINDS)),
                        _ => Fault::Zero,
                    };
                    ctx.say(|| format!("read page {p} via {path:?} with {f:?} at step {k}"));
                    let errs = w.sim.with(|d| {
                        let at = d.ops + k;
                        d.plan.insert(at, f);
                        d.errors
                    });
                    let m = w.m.clone();
                    let db = w.db.as_mut().expect("open");
                    let r = lib(|| on_page(db, &m, p, path, |x| x.clone()));
                    let fired = w.sim.with(|d| d.errors) != errs;
                    w.sim.heal();
                    match r {
                        Err(pa) => {
                            return w.broken(
                                "access-panics",
                                format!("reading page {p} with {f:?} panicked: {}", pa.0),
                            )
                        }
                        Ok(Ok(Some(x))) => {
                            w.touched.insert(p);
                            w.compare_page(p, &x, "read during a fault")?;
                        }
                        Ok(Ok(None)) => {
                            return w.broken(
                                "page-missing",
                                format!("walk to page {p} ended early during {f:?}"),
                            )
                        }
                        Ok(Err(_)) => {
                            if fired {
                                ctx.probe("load_failed");
                            }
                        }
                    }
                    // The disk works again: same access, right contents; nothing else lost.
                    let x = w.access(p, path, "retry after a failed load", |x| x.clone())?;
                    w.compare_page(p, &x, "retry after a failed load")?;
                    let touched: Vec<u32> = w.touched.iter().copied().collect();
                    let q = touched[t.usize(touched.len())];
                    let y = w.access(q, Path::Direct, "re-read after a failed load", |x| {
                        x.clone()
                    })?;
                    w.compare_page(q, &y, "re-read after a failed load")?;
                }
                8 if !w.m.tables.is_empty() => {
                    let ti = t.usize(w.m.tables.len());
                    if !table_intact(w.db.as_ref().expect("open").get_header(), &w.m, ti) {
                        continue;
                    }
                    let kind = w.m.tables[ti].kind;
                    let chain = w.m.tables[ti].chain.clone();
                    let faulty = t.chance(1, 3);
                    ctx.say(|| format!("iterate rows of {kind:?} faulty={faulty}"));
                    if faulty {
                        let k = t.draw(200);
                        let f = Fault::Err(*t.pick(&ERR_KINDS));
                        w.sim.with(|d| {
                            let at = d.ops + k;
                            d.plan.insert(at, f);
                        });
                        let db = w.db.as_mut().expect("open");
                        let r = lib(|| typed_rows(db, kind));
                        w.sim.heal();
                        if let Err(p) = r {
                            return w.broken(
                                "access-panics",
                                format!("row iteration panicked: {}", p.0),
                            );
                        }
                    }
                    let db = w.db.as_mut().expect("open");
                    let got = match lib(|| typed_rows(db, kind)) {
                        Err(p) => {
                            return w.broken(
                                "access-panics",
                                format!("row iteration panicked: {}", p.0),
                            )
                        }
                        Ok(None) => continue,
                        Ok(Some(Err(e))) => {
                            return w.broken(
                                "access-fails",
                                format!("row iteration of {kind:?} failed: {e}"),
                            )
                        }
                        Ok(Some(Ok(v))) => v,
                    };
                    for p in &chain {
                        w.touched.insert(*p);
                    }
                    let mut want = vec![];
                    for p in &chain {
                        match lib(|| ref_page(&w.want, w.ext, *p)) {
                            Ok(Ok(pg)) => {
                                if let Some(d) = pg.content.as_data() {
                                    want.extend(d.rows.values().map(row_debug));
                                }
                            }
                            _ => return w.broken("model-unreadable", format!("page {p}")),
                        }
                    }
                    if got != want {
                        return w.broken(
                            "wrong-rows",
                            format!("rows of {kind:?}:\n got {got:?}\nwant {want:?}"),
                        );
                    }
                    ctx.probe("typed_rows_compared");
                }
                _ => {
                    if let Some(db) = &w.db {
                        let hdr = format!("{:?}", db.get_header());
                        let want =
                            Database::open_non_persistent(std::io::Cursor::new(&w.want), dt(w.ext))
                                .map(|d| format!("{:?}", d.get_header()))
                                .unwrap_or_default();
                        if hdr != want {
                            return w.broken(
                                "wrong-contents",
                                format!("header: {hdr} instead of {want}"),
                            );
                        }
                    }
                }
            }
        }
        for p in 1..=w.npages() {
            if w.page_class(p) {
                w.check_page(t, ctx, p)?;
            }
        }
        Ok(())
    })();
    w.finish(ctx, r)
}
