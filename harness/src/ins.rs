//! C10: histories of row insertions into data pages.

use crate::ctx::{lib, viol, Ctx, R};
use crate::gen_pdb::{layout, Db, Kind, PageM, PlannedPage, PlannedTable, RowM, HEAP};
use crate::hist::delivery;
use crate::pdbx::*;
use crate::simio::{Fault, Sim, ERR_KINDS};
use crate::tape::Tape;
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::{Page, Row};
use std::collections::BTreeMap;

const KINDS: [Kind; 12] = [
    Kind::Menu,
    Kind::Entry,
    Kind::HistEntry,
    Kind::Genre,
    Kind::Node,
    Kind::Artist,
    Kind::Track,
    Kind::Key,
    Kind::Color,
    Kind::Album,
    Kind::History,
    Kind::Column,
];
const MAX_ROWS: usize = 8191;
const MAX_VALID: usize = 2047;

/// What a page must hold: present rows by offset, space reserved for each, and its counts.
#[derive(Clone, Debug, PartialEq)]
struct PageState {
    kind: Kind,
    rows: BTreeMap<u16, RowM2>,
    /// Offsets of slots without a present row that existed before (their entries must survive).
    slots: usize,
    used: usize,
    free: usize,
}
#[derive(Clone, Debug)]
struct RowM2 {
    bytes: Vec<u8>,
    gaps: Vec<usize>,
    reserved: usize,
}
impl PartialEq for RowM2 {
    fn eq(&self, o: &Self) -> bool {
        self.bytes == o.bytes && self.reserved == o.reserved
    }
}

fn footer(slots: usize) -> usize {
    slots.div_ceil(16) * 4 + slots * 2
}

struct W {
    db: Option<Database<Sim>>,
    sim: Sim,
    ext: bool,
    ps: usize,
    pages: BTreeMap<u32, PageState>,
    saved: BTreeMap<u32, PageState>,
    m: Db,
}

fn model(m: &Db) -> BTreeMap<u32, PageState> {
    let mut out = BTreeMap::new();
    for tb in &m.tables {
        for p in &tb.chain {
            if let PageM::Data { slots, used, free } = &m.pages[*p as usize - 1] {
                out.insert(
                    *p,
                    PageState {
                        kind: tb.kind,
                        rows: slots
                            .iter()
                            .filter(|s| s.present)
                            .map(|s| {
                                (
                                    s.off,
                                    RowM2 {
                                        bytes: s.row.bytes.clone(),
                                        gaps: s.row.gaps.clone(),
                                        reserved: s.row.bytes.len(),
                                    },
                                )
                            })
                            .collect(),
                        slots: slots.len(),
                        used: *used as usize,
                        free: *free as usize,
                    },
                );
            }
        }
    }
    out
}

impl W {
    fn open(&mut self, ctx: &mut Ctx) -> Result<bool, crate::ctx::Violation> {
        self.sim.with(|d| d.pos = 0);
        match open_rw(&self.sim, self.ext) {
            Ok(Ok(d)) => {
                self.db = Some(d);
                Ok(true)
            }
            Ok(Err(e)) => viol("open-fails", format!("reopening the database failed: {e}")),
            Err(p) => {
                ctx.say(|| p.0.clone());
                viol("open-panics", p.0)
            }
        }
    }
    fn page<T>(
        &mut self,
        p: u32,
        path: Path,
        f: impl FnOnce(&mut Page) -> T,
    ) -> Result<T, crate::ctx::Violation> {
        let m = &self.m;
        let db = self.db.as_mut().expect("open");
        match lib(|| on_page(db, m, p, path, f)) {
            Ok(Ok(Some(x))) => Ok(x),
            Ok(Ok(None)) => viol("page-missing", format!("page {p} not found")),
            Ok(Err(e)) => viol("page-unreadable", format!("page {p}: {e}")),
            Err(e) => viol("panic", format!("page {p}: {}", e.0)),
        }
    }
    /// Compare a page in memory with the model.
    fn check_mem(&self, p: u32, pg: &Page, old: Option<&Page>) -> R {
        let st = &self.pages[&p];
        let Some(d) = pg.content.as_data() else {
            return viol("not-a-data-page", format!("page {p}"));
        };
        let c = pg.header.packed_row_counts;
        let (rows, valid) = (c.num_rows() as usize, c.num_rows_valid() as usize);
        if rows != st.slots || valid != st.rows.len() || d.rows.len() != st.rows.len() {
            return viol(
                "wrong-counts",
                format!(
                    "page {p}: counts {rows}/{valid}, {} rows in memory; should be {}/{}",
                    d.rows.len(),
                    st.slots,
                    st.rows.len()
                ),
            );
        }
        if pg.header.used_size as usize != st.used || pg.header.free_size as usize != st.free {
            return viol(
                "wrong-sizes",
                format!(
                    "page {p}: used {} free {}; should be {} and {}",
                    pg.header.used_size, pg.header.free_size, st.used, st.free
                ),
            );
        }
        if !d.rows.keys().eq(st.rows.keys()) {
            return viol(
                "row-lost",
                format!(
                    "page {p}: rows at {:?}, should be at {:?}",
                    d.rows.keys().collect::<Vec<_>>(),
                    st.rows.keys().collect::<Vec<_>>()
                ),
            );
        }
        if let Some(old) = old.and_then(|o| o.content.as_data()) {
            for (off, r) in &old.rows {
                if d.rows.get(off).map(settled) != Some(settled(r)) {
                    return viol("row-changed", format!("page {p}: row at {off} changed"));
                }
            }
        }
        Ok(())
    }
    /// Decode a page of the file independently.
    fn check_bytes(&self, p: u32, img: &[u8], what: &str) -> R {
        let st = &self.pages[&p];
        let base = p as usize * self.ps;
        let Some(b) = img.get(base..base + self.ps) else {
            return viol("file-too-short", format!("{what}: page {p}"));
        };
        let u16at = |o: usize| u16::from_le_bytes([b[o], b[o + 1]]) as usize;
        let packed = u32::from_le_bytes([b[24], b[25], b[26], 0]);
        let (rows, valid) = ((packed & 0x1fff) as usize, (packed >> 13) as usize);
        if rows != st.slots || valid != st.rows.len() {
            return viol(
                "wrong-counts",
                format!(
                    "{what}: page {p} has counts {rows}/{valid}; should be {}/{}",
                    st.slots,
                    st.rows.len()
                ),
            );
        }
        if u16at(28) != st.free || u16at(30) != st.used {
            return viol(
                "wrong-sizes",
                format!(
                    "{what}: page {p} has free {} used {}; should be {} and {}",
                    u16at(28),
                    u16at(30),
                    st.free,
                    st.used
                ),
            );
        }
        let mut seen = vec![];
        for g in 0..rows.div_ceil(16) {
            let gs = self.ps - 36 * (g + 1);
            let fl = u16at(gs + 32);
            for i in 0..16 {
                if fl & (1 << i) != 0 {
                    if g * 16 + i >= rows {
                        return viol(
                            "wrong-row-table",
                            format!("{what}: page {p} slot {} of {rows} is present", g * 16 + i),
                        );
                    }
                    seen.push(u16at(gs + 2 * (15 - i)) as u16);
                }
            }
        }
        seen.sort_unstable();
        if !seen.iter().eq(st.rows.keys()) {
            return viol(
                "wrong-row-table",
                format!(
                    "{what}: page {p} refers to rows at {seen:?}; should be {:?}",
                    st.rows.keys().collect::<Vec<_>>()
                ),
            );
        }
        for (off, r) in &st.rows {
            let at = HEAP + *off as usize;
            for (i, x) in r.bytes.iter().enumerate() {
                if b[at + i] != *x && !r.gaps.contains(&i) {
                    return viol(
                        "row-bytes-changed",
                        format!(
                            "{what}: page {p}, row at {off}: byte {i} is {:02x}, should be {x:02x}",
                            b[at + i]
                        ),
                    );
                }
            }
        }
        Ok(())
    }
    /// Space of the present rows, and nothing beyond the heap.
    fn check_space(&self, p: u32) -> R {
        let st = &self.pages[&p];
        let heap = self.ps - HEAP;
        let limit = heap - footer(st.slots).min(heap);
        let mut end = 0usize;
        for (off, r) in &st.rows {
            if (*off as usize) < end {
                return viol(
                    "rows-overlap",
                    format!(
                        "page {p}: row at {off} starts inside the one before, which ends at {end}"
                    ),
                );
            }
            end = *off as usize + r.reserved.max(r.bytes.len());
        }
        if end > limit {
            return viol(
                "row-overlaps-bookkeeping",
                format!(
                    "page {p}: rows end at {end}, but the row table of {} slots starts at {limit}",
                    st.slots
                ),
            );
        }
        if st.used + st.free + footer(st.slots) != heap || end > st.used {
            return viol(
                "sizes-inconsistent",
                format!(
                    "page {p}: used {} + free {} + row table {} != heap {heap} (rows end at {end})",
                    st.used,
                    st.free,
                    footer(st.slots)
                ),
            );
        }
        Ok(())
    }
    fn allocate(
        &mut self,
        t: &mut Tape,
        ctx: &mut Ctx,
        p: u32,
        size: u16,
        row: Option<(RowM, Row)>,
    ) -> Result<bool, crate::ctx::Violation> {
        let st = self.pages[&p].clone();
        let path = *t.pick(&[Path::Direct, Path::ByTable, Path::ByType]);
        let before = self.page(p, path, |x| x.clone())?;
        self.check_mem(p, &before, None)?;
        let (rm, row) = match row {
            Some((a, b)) => (Some(a), Some(b)),
            None => (None, None),
        };
        let ins = row.is_some();
        let granted = self.page(p, path, |x| match x.allocate_row(size) {
            Some(f) => {
                if let Some(r) = row {
                    f(r);
                }
                true
            }
            None => false,
        })?;
        let after = self.page(p, Path::Direct, |x| x.clone())?;
        let need = (size as usize).div_ceil(4) * 4;
        ctx.say(|| {
            format!(
                "page {p} (used {} free {} rows {}/{}): allocate {size}, {}: {}",
                st.used,
                st.free,
                st.slots,
                st.rows.len(),
                if ins { "insert" } else { "abandon" },
                if granted { "granted" } else { "refused" }
            )
        });
        if !granted {
            ctx.probe("refused");
            if after != before {
                return viol(
                    "refusal-changed-page",
                    format!("page {p}: a refused request of {size} bytes changed the page"),
                );
            }
            let full = st.slots >= MAX_ROWS || st.rows.len() >= MAX_VALID;
            if full {
                ctx.probe("refused_counts_full");
            }
            if st.free >= need + 6 && !full {
                return viol(
                    "refused-with-room",
                    format!(
                        "page {p}: {} bytes free, {} slots, a request of {size} bytes was refused",
                        st.free, st.slots
                    ),
                );
            }
            return Ok(false);
        }
        ctx.probe(if ins { "inserted" } else { "abandoned" });
        if st.slots % 16 == 0 {
            ctx.probe("new_row_group");
        }
        if st.slots >= MAX_ROWS || (ins && st.rows.len() >= MAX_VALID) {
            return viol(
                "counts-overflow",
                format!(
                    "page {p} with {}/{} rows accepted another one",
                    st.slots,
                    st.rows.len()
                ),
            );
        }
        let mut n = st.clone();
        n.slots += 1;
        n.used = after.header.used_size as usize;
        n.free = after.header.free_size as usize;
        if n.used < st.used + need {
            return viol(
                "space-not-accounted",
                format!(
                    "page {p}: {size} bytes were granted but the used size went from {} to {}",
                    st.used, n.used
                ),
            );
        }
        if let Some(rm) = rm {
            let new: Vec<u16> = after
                .content
                .as_data()
                .map(|d| {
                    d.rows
                        .keys()
                        .copied()
                        .filter(|k| !st.rows.contains_key(k))
                        .collect()
                })
                .unwrap_or_default();
            let [off] = new[..] else {
                return viol("insert-lost", format!("page {p}: new rows {new:?}"));
            };
            if off % 4 != 0 {
                return viol("misaligned", format!("page {p}: row placed at {off}"));
            }
            if (off as usize) < st.used {
                return viol(
                    "space-not-own",
                    format!(
                        "page {p}: row placed at {off}, but {} bytes were in use",
                        st.used
                    ),
                );
            }
            n.rows.insert(
                off,
                RowM2 {
                    bytes: rm.bytes,
                    gaps: rm.gaps,
                    reserved: need,
                },
            );
        }
        self.pages.insert(p, n);
        self.check_space(p)?;
        self.check_mem(p, &after, Some(&before))?;
        Ok(true)
    }
    fn flush(&mut self, ctx: &mut Ctx) -> R {
        ctx.say(|| "flush".into());
        let db = self.db.as_mut().expect("open");
        match lib(|| db.flush()) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return viol("flush-fails", format!("{e}")),
            Err(p) => return viol("panic", format!("flush: {}", p.0)),
        }
        let img = self.sim.content();
        let ps: Vec<u32> = self.pages.keys().copied().collect();
        for p in ps {
            self.check_bytes(p, &img, "after flush")?;
        }
        self.saved = self.pages.clone();
        Ok(())
    }
}

pub fn c10(t: &mut Tape, ctx: &mut Ctx) -> R {
    history(t, ctx, false, &KINDS)
}

/// A history of a database whose tables have these kinds.
pub fn history(t: &mut Tape, ctx: &mut Ctx, ext: bool, kinds: &[Kind]) -> R {
    let mut ps = *t.pick(&[512usize, 4096, 256, 1024, 512, 4096, 65536, 8192]);
    // Large pages near the limits of the counts.
    let many = kinds.len() == KINDS.len() && t.chance(1, 150);
    if many {
        ps = 65536;
    }
    let ntab = if many { 1 } else { 1 + t.usize(3.min(kinds.len())) };
    let mut kinds = kinds.to_vec();
    let mut plan = vec![];
    for _ in 0..ntab {
        let kind = if many {
            Kind::Menu
        } else {
            kinds.remove(t.usize(kinds.len()))
        };
        let npages = if many { 1 } else { 1 + t.usize(2) };
        let mut pages = vec![];
        for _ in 0..npages {
            let nrows = match t.draw(6) {
                _ if many => 2040,
                0 => 0,
                1 => 15 + t.usize(3),
                2..=4 => t.usize(8),
                _ => t.usize(60),
            };
            let del = t.chance(1, 2);
            let mut rows = vec![];
            let proto = gen_menu();
            for _ in 0..nrows {
                let present = !(del && t.chance(1, 3));
                rows.push(if many {
                    (proto.clone(), true)
                } else {
                    (crate::gen_pdb::gen_row(t, kind), present)
                });
            }
            pages.push(PlannedPage { rows, lossy: true });
        }
        plan.push(PlannedTable {
            kind,
            pages,
            index_first: t.chance(2, 3),
        });
    }
    let m = layout(t, ext, ps, plan, true);
    ctx.say(|| m.describe());
    let sim = Sim::new(m.image.clone());
    ctx.watch(&sim);
    let pages = model(&m);
    let mut w = W {
        db: None,
        ext: m.ext,
        ps,
        saved: pages.clone(),
        pages,
        sim: sim.clone(),
        m,
    };
    if many {
        w.sim.with(|d| d.budget = 60_000_000);
    } else {
        delivery(t, &w.sim);
    }
    let r = run(t, ctx, &mut w, many);
    std::mem::forget(w.db.take());
    ctx.absorb(&sim);
    r
}

fn gen_menu() -> RowM {
    RowM {
        kind: Kind::Menu,
        bytes: vec![1, 0, 2, 0, 0x63, 1, 5, 0],
        gaps: vec![],
        sem: crate::gen_pdb::Sem::None,
        edit_str: None,
        calc: false,
    }
}

fn run(t: &mut Tape, ctx: &mut Ctx, w: &mut W, many: bool) -> R {
    let pnos: Vec<u32> = w.pages.keys().copied().collect();
    if pnos.is_empty() {
        return Ok(());
    }
    w.open(ctx)?;
    if many {
        ctx.probe("count_limits");
        // Fill up the counts: the last rows by single steps.
        if t.chance(1, 2) {
            let p = pnos[0];
            let n = 6100 + t.draw(60);
            ctx.say(|| format!("abandon {n} allocations"));
            let sz = t.draw(2) as u16;
            let done = w.page(p, Path::Direct, |x| {
                let mut k = 0;
                for _ in 0..n {
                    if x.allocate_row(sz).is_some() {
                        k += 1;
                    }
                }
                (k, x.header.used_size as usize, x.header.free_size as usize)
            })?;
            let st = w.pages.get_mut(&p).expect("page");
            st.slots += done.0;
            st.used = done.1;
            st.free = done.2;
            w.check_space(p)?;
            ctx.nontrivial = true;
        }
    }
    let steps = 4 + t.draw(if many { 30 } else { 26 });
    let favourite = pnos[t.usize(pnos.len())];
    for _ in 0..steps {
        match t.draw(16) {
            0..=9 => {
                let p = if t.chance(1, 4) {
                    pnos[t.usize(pnos.len())]
                } else {
                    favourite
                };
                let st = &w.pages[&p];
                let (kind, free) = (st.kind, st.free);
                if t.chance(1, 4) || many && t.chance(1, 3) {
                    // A request of any size, abandoned.
                    let size = match t.draw(7) {
                        0 => t.u16(),
                        1 => t.draw(40) as u16,
                        // around what still fits
                        2..=4 => (free as i64 - 10 + t.draw(14) as i64).clamp(0, 65535) as u16,
                        5 => 65535 - t.draw(12) as u16,
                        _ => 0,
                    };
                    ctx.nontrivial = true;
                    w.allocate(t, ctx, p, size, None)?;
                } else if let Some((rm, row)) = new_row(t, kind) {
                    // An insertion, possibly with spare room.
                    let len = rm.bytes.len();
                    let size = match t.draw(5) {
                        0..=2 => len,
                        3 => len + t.usize(9),
                        _ => (free as i64 - 10 + t.draw(14) as i64).max(len as i64) as usize,
                    };
                    w.allocate(t, ctx, p, size.min(65535) as u16, Some((rm, row)))?;
                }
            }
            10 => w.flush(ctx)?,
            11 => {
                // A flush that fails somewhere; rows stay as they are.
                let k = t.draw(200);
                let f = Fault::Err(*t.pick(&ERR_KINDS));
                w.sim.with(|d| {
                    let at = d.ops + k;
                    d.plan.insert(at, f);
                });
                ctx.say(|| format!("flush with {f:?} at step {k}"));
                let db = w.db.as_mut().expect("open");
                let r = lib(|| db.flush());
                w.sim.with(|d| d.plan.clear());
                match r {
                    Err(p) => return viol("panic", format!("flush: {}", p.0)),
                    Ok(Ok(())) => w.saved = w.pages.clone(),
                    Ok(Err(_)) => {
                        for p in &pnos {
                            let pg = w.page(*p, Path::Direct, |x| x.clone())?;
                            w.check_mem(*p, &pg, None)?;
                        }
                        w.flush(ctx)?;
                    }
                }
            }
            12 => {
                // Reopen after a flush.
                let mut old = vec![];
                for p in &pnos {
                    old.push(w.page(*p, Path::Direct, |x| x.clone())?);
                }
                w.flush(ctx)?;
                ctx.say(|| "reopen".into());
                w.db = None;
                w.open(ctx)?;
                for (p, o) in pnos.iter().zip(&old) {
                    let pg = w.page(*p, Path::Direct, |x| x.clone())?;
                    w.check_mem(*p, &pg, Some(o))?;
                }
                ctx.probe("reopened");
            }
            13 => {
                ctx.say(|| "drop and reopen without flush".into());
                w.db = None;
                w.pages = w.saved.clone();
                w.open(ctx)?;
                for p in &pnos {
                    let pg = w.page(*p, Path::Direct, |x| x.clone())?;
                    w.check_mem(*p, &pg, None)?;
                }
                ctx.fault("lost_unflushed_rows", 1);
            }
            _ => {
                for p in &pnos {
                    let pg = w.page(*p, Path::Direct, |x| x.clone())?;
                    w.check_mem(*p, &pg, None)?;
                }
            }
        }
    }
    w.flush(ctx)?;
    w.db = None;
    w.open(ctx)?;
    for p in &pnos {
        let pg = w.page(*p, Path::Direct, |x| x.clone())?;
        w.check_mem(*p, &pg, None)?;
    }
    Ok(())
}
