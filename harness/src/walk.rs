//! C09 (table walks) and C13 (playlist tree).

use crate::ctx::{lib, viol, Ctx, R};
use crate::gen_pdb::{
    any_str, ascii_text, bad_str, gen_db, grow, layout, node_row, uni_text, Db, Kind, PageM, PlannedPage, BAD,
    PlannedTable, Sem, StrM, ANY,
};
use crate::hist::delivery;
use crate::pdbx::*;
use crate::simio::{Fault, Sim, ERR_KINDS};
use crate::tape::Tape;
use fallible_iterator::FallibleIterator;
use rekordcrate::device::{get_playlists, PlaylistNode};
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::*;
use rekordcrate::util::TableIndex;
use std::collections::{BTreeMap, BTreeSet};

fn u32_at(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap())
}

/// What a walk over a table must deliver: pages, and whether the chain then ends properly.
pub struct Walk {
    pub pages: Vec<u32>,
    pub complete: bool,
}

/// The chain by the bytes of the file (independent of the library, except for whether a page can
/// be parsed at all).
pub fn model_walk(m: &Db, img: &[u8], table: usize) -> Walk {
    let at = 28 + 16 * table;
    let (first, last) = (u32_at(img, at + 8), u32_at(img, at + 12));
    let mut pages = vec![];
    let mut next = first;
    let mut prev = 0;
    loop {
        if next <= prev || next >= m.next_unused {
            return Walk {
                pages,
                complete: false,
            };
        }
        match lib(|| ref_page(img, m.ext, next)) {
            Ok(Ok(_)) => {}
            _ => {
                return Walk {
                    pages,
                    complete: false,
                }
            }
        }
        pages.push(next);
        if next == last {
            return Walk {
                pages,
                complete: true,
            };
        }
        prev = next;
        next = u32_at(img, m.page_base(next) + 12);
    }
}

/// Break links of the file; returns whether anything was changed.
pub fn break_links(t: &mut Tape, ctx: &mut Ctx, m: &Db, img: &mut [u8]) -> bool {
    let n = t.draw(3);
    for _ in 0..n {
        let ti = t.usize(m.tables.len());
        let tb = &m.tables[ti];
        let v = match t.draw(9) {
            0 => 0,
            1 => m.next_unused,
            2 => m.next_unused + 1 + t.draw(3) as u32,
            3 => 0x0fff_ffff,
            4 => u32::MAX,
            5 => tb.first,
            _ => 1 + t.draw(u64::from(m.next_unused)) as u32,
        };
        let at = match t.draw(6) {
            0 => 28 + 16 * ti + 12,
            1 => 28 + 16 * ti + 8,
            _ => {
                let p = tb.chain[t.usize(tb.chain.len())];
                m.page_base(p) + 12
            }
        };
        let old = u32_at(img, at);
        ctx.say(|| {
            format!(
                "link at {at:#x} (table {ti}, pages {:?}) changed from {old} to {v}",
                tb.chain
            )
        });
        img[at..at + 4].copy_from_slice(&v.to_le_bytes());
        if old != v {
            ctx.fault("broken_link", 1);
        }
    }
    n > 0
}

fn gen_fault(t: &mut Tape, ctx: &mut Ctx, sim: &Sim) {
    let k = match t.draw(3) {
        0 => t.draw(12),
        1 => t.draw(80),
        _ => t.draw(600),
    };
    let f = match t.draw(4) {
        0 | 1 => Fault::Err(*t.pick(&ERR_KINDS)),
        2 => Fault::ErrSticky(*t.pick(&ERR_KINDS)),
        _ => Fault::Zero,
    };
    ctx.say(|| format!("{f:?} at I/O step {k} from here"));
    sim.with(|d| {
        let at = d.ops + k;
        d.plan.insert(at, f);
    });
}

pub fn c09(t: &mut Tape, ctx: &mut Ctx) -> R {
    let mut o = ANY;
    o.max_pages = 5;
    o.max_rows = 6;
    o.max_tables = 4;
    grow(t, &mut o);
    let m = gen_db(t, &o);
    ctx.say(|| m.describe());
    let mut img = m.image.clone();
    let broken = t.chance(2, 3) && break_links(t, ctx, &m, &mut img);
    let sim = Sim::new(img.clone());
    ctx.watch(&sim);
    delivery(t, &sim);
    let s2 = sim.clone();
    let r = lib(|| Database::open_non_persistent(s2, dt(m.ext)));
    let mut db = match r {
        Err(p) => return viol("panic", format!("open: {}", p.0)),
        Ok(Err(e)) => {
            ctx.absorb(&sim);
            return if broken {
                ctx.probe("broken_link_refused_at_open");
                Ok(())
            } else {
                viol("open-fails", format!("opening an intact database: {e}"))
            };
        }
        Ok(Ok(d)) => d,
    };
    let mut out = Ok(());
    for _ in 0..1 + t.draw(4) {
        // Some pages are in memory already.
        for _ in 0..t.draw(4) {
            let p = 1 + t.draw(u64::from(m.next_unused - 1)) as u32;
            ctx.say(|| format!("load page {p}"));
            let _ = lib(|| {
                let _ = db.load_page(pidx(p));
            });
        }
        let faulty = t.chance(1, 3);
        if faulty {
            gen_fault(t, ctx, &sim);
        }
        let ti = t.usize(m.tables.len());
        out = match t.draw(3) {
            0 => rows(ctx, &sim, &m, &img, &mut db, ti),
            x => pages(ctx, &sim, &m, &img, &mut db, ti, x == 1),
        };
        sim.with(|d| {
            d.plan.clear();
        });
        if faulty {
            let (r, w, e) = sim.with(|d| (d.chunk_r.clone(), d.chunk_w.clone(), d.eintr.clone()));
            sim.heal();
            sim.with(|d| {
                d.chunk_r = r;
                d.chunk_w = w;
                d.eintr = e;
            });
        }
        if out.is_err() {
            break;
        }
        if faulty {
            // Without the fault, the same walk is complete.
            out = pages(ctx, &sim, &m, &img, &mut db, ti, true);
            if out.is_err() {
                break;
            }
        }
    }
    std::mem::forget(db);
    ctx.absorb(&sim);
    out
}

/// Faults that an operation may report.
fn disturbances(sim: &Sim) -> u64 {
    sim.with(|d| d.errors + d.fired.get("eof_early").copied().unwrap_or(0))
}

/// Walk the pages of a table.
fn pages(
    ctx: &mut Ctx,
    sim: &Sim,
    m: &Db,
    img: &[u8],
    db: &mut Database<Sim>,
    ti: usize,
    by_index: bool,
) -> R {
    let kind = m.tables[ti].kind;
    let first = m.tables.iter().position(|x| x.kind == kind) == Some(ti);
    let want = model_walk(m, img, ti);
    let by_index = by_index || !first;
    ctx.say(|| {
        format!(
            "walk table {ti} by {}: expecting pages {:?}{}",
            if by_index { "index" } else { "type" },
            want.pages,
            if want.complete { "" } else { " then an error" }
        )
    });
    let before = disturbances(sim);
    let mut log: Vec<String> = vec![];
    let r = lib(|| -> Result<(), (String, String)> {
        let it = if by_index {
            db.iter_pages_for_table(TableIndex::from(ti))
        } else {
            db.iter_pages(page_type(kind))
        };
        let mut it = match it {
            Ok(i) => i,
            Err(e) => return Err(("no-iterator".into(), format!("table {ti}: {e}"))),
        };
        let mut got = 0usize;
        let mut errors = 0;
        let mut steps = 0usize;
        loop {
            steps += 1;
            if steps > m.pages.len() + 12 {
                return Err((
                    "endless-walk".into(),
                    format!("{steps} steps over table {ti}"),
                ));
            }
            match it.next() {
                Ok(Some(p)) => {
                    let n = want.pages.get(got).copied();
                    // Identify the page by its place in the file, not by its own claim.
                    let ok = match n {
                        Some(n) => {
                            p.header.page_index == pidx(n)
                                || ref_page(img, m.ext, n).is_ok_and(|r| r == *p)
                        }
                        None => false,
                    };
                    log.push(format!("page {:?}", p.header.page_index));
                    if !ok {
                        return Err((
                            "wrong-page".into(),
                            format!(
                                "table {ti}: delivered page {:?} as number {got} of {:?}{}",
                                p.header.page_index,
                                want.pages,
                                if want.complete {
                                    ""
                                } else {
                                    " (then the chain is broken)"
                                }
                            ),
                        ));
                    }
                    got += 1;
                }
                Ok(None) => {
                    log.push("end".into());
                    if got != want.pages.len() || !want.complete {
                        return Err((
                            "ends-early".into(),
                            format!("table {ti}: walk ended after {got} pages and {errors} errors; the chain is {:?}{}", want.pages, if want.complete { "" } else { " and then broken" }),
                        ));
                    }
                    return Ok(());
                }
                Err(e) => {
                    log.push(format!("error: {e}"));
                    errors += 1;
                    if errors >= 4 {
                        return Ok(());
                    }
                }
            }
        }
    });
    ctx.say(|| format!("  {}", log.join(", ")));
    let errors = log.iter().filter(|l| l.starts_with("error")).count();
    if errors > 0 {
        ctx.probe("walk_reported_error");
    }
    match r {
        Err(p) => viol(&p.class(), format!("walking table {ti}: {}", p.0)),
        Ok(Err((c, d))) => viol(&c, d),
        Ok(Ok(())) => {
            if errors > 0 && want.complete && disturbances(sim) == before {
                return viol(
                    "intact-chain-refused",
                    format!("walking table {ti}: {}", log.join(", ")),
                );
            }
            Ok(())
        }
    }
}

/// Walk the rows of a table, through the typed iterator.
fn rows(ctx: &mut Ctx, sim: &Sim, m: &Db, img: &[u8], db: &mut Database<Sim>, ti: usize) -> R {
    let kind = m.tables[ti].kind;
    if m.tables.iter().position(|x| x.kind == kind) != Some(ti) {
        return Ok(());
    }
    let want = model_walk(m, img, ti);
    let mut want_rows: Vec<Vec<String>> = vec![];
    let mut mixed = false;
    for p in &want.pages {
        let pg = match lib(|| ref_page(img, m.ext, *p)) {
            Ok(Ok(p)) => p,
            _ => return Ok(()),
        };
        mixed |= pg.header.page_type != page_type(kind);
        let mut v: Vec<String> = pg
            .content
            .as_data()
            .map(|d| d.rows.values().map(row_debug).collect())
            .unwrap_or_default();
        v.sort();
        want_rows.push(v);
    }
    if mixed {
        return Ok(());
    }
    let total: usize = want_rows.iter().map(Vec::len).sum();
    ctx.say(|| {
        format!(
            "iterate rows of table {ti} ({kind:?}): {total} rows on pages {:?}{}",
            want.pages,
            if want.complete { "" } else { ", then an error" }
        )
    });
    let before = disturbances(sim);
    let Some((got, end)) = (match lib(|| typed_rows_upto(db, kind, total + 8)) {
        Err(p) => return viol(&p.class(), format!("iterating rows of {kind:?}: {}", p.0)),
        Ok(x) => x,
    }) else {
        return Ok(());
    };
    let mut rest = &got[..];
    for w in &want_rows {
        let n = w.len().min(rest.len());
        let mut g: Vec<String> = rest[..n].to_vec();
        g.sort();
        let bad = if n == w.len() {
            g != *w
        } else {
            !g.iter().all(|x| w.contains(x))
        };
        if bad {
            return viol(
                "wrong-rows",
                format!("table {ti} ({kind:?}):\n got {g:?}\nwant {w:?}"),
            );
        }
        rest = &rest[n..];
    }
    if !rest.is_empty() {
        return viol(
            "wrong-rows",
            format!("table {ti} ({kind:?}): {} rows too many", rest.len()),
        );
    }
    match end {
        RowsEnd::End => {
            if got.len() != total || !want.complete {
                return viol(
                    "ends-early",
                    format!("table {ti} ({kind:?}): {} of {total} rows and no error", got.len()),
                );
            }
        }
        RowsEnd::EndAfterError => {
            return viol(
                "ends-early",
                format!(
                    "table {ti} ({kind:?}): {} of {total} rows; the iterator ended when it was advanced after an error",
                    got.len()
                ),
            )
        }
        RowsEnd::Errors => {
            if want.complete && disturbances(sim) == before {
                return viol(
                    "intact-chain-refused",
                    format!("iterating the rows of table {ti} ({kind:?})"),
                );
            }
            ctx.probe("row_walk_reported_error");
        }
        RowsEnd::TooMany => {
            return viol("wrong-rows", format!("table {ti} ({kind:?}): endless rows"))
        }
    }
    Ok(())
}

pub enum RowsEnd {
    End,
    /// `None` after an error although not everything had been delivered.
    EndAfterError,
    Errors,
    TooMany,
}

fn typed_rows_upto(
    db: &mut Database<Sim>,
    kind: Kind,
    max: usize,
) -> Option<(Vec<String>, RowsEnd)> {
    macro_rules! go {
        ($($k:ident => $t:ty),* $(,)?) => {
            match kind {
                $(Kind::$k => {
                    let mut it = match db.iter_rows::<$t>() { Ok(i) => i, Err(_) => return Some((vec![], RowsEnd::Errors)) };
                    let mut v = vec![];
                    let mut errors = 0;
                    loop {
                        match it.next() {
                            Ok(Some(r)) => v.push(format!("{r:?}")),
                            Ok(None) => {
                                // If everything was delivered after a recovery, that is fine, too.
                                let e = if errors > 0 && v.len() + 8 < max { RowsEnd::EndAfterError } else { RowsEnd::End };
                                return Some((v, e));
                            }
                            Err(_) => {
                                errors += 1;
                                if errors >= 4 {
                                    return Some((v, RowsEnd::Errors));
                                }
                            }
                        }
                        if v.len() > max {
                            return Some((v, RowsEnd::TooMany));
                        }
                    }
                })*
                _ => None,
            }
        };
    }
    go!(Track => Track, Genre => Genre, Artist => Artist, Album => Album, Label => Label, Key => Key, Color => Color,
        Node => PlaylistTreeNode, Entry => PlaylistEntry, HistPlaylist => HistoryPlaylist, HistEntry => HistoryEntry,
        Artwork => Artwork, Column => ColumnEntry, Menu => Menu, History => History)
}

// ---------------------------------------------------------------- C13

#[derive(Clone, Debug)]
pub struct NodeM {
    pub parent: u32,
    pub id: u32,
    pub folder: bool,
    pub name: String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
    Folder(u32, String, Vec<Tree>),
    List(u32, String),
}

/// The tree below `id`, or None if a folder would be visited twice.
pub fn model_tree(nodes: &[NodeM], visited: &mut BTreeSet<u32>, id: u32) -> Option<Vec<Tree>> {
    let mut out = vec![];
    for n in nodes.iter().filter(|n| n.parent == id) {
        if n.name == BAD {
            return None;
        }
        if n.folder {
            if nodes.iter().any(|c| c.parent == n.id) && !visited.insert(n.id) {
                return None;
            }
            out.push(Tree::Folder(
                n.id,
                n.name.clone(),
                model_tree(nodes, visited, n.id)?,
            ));
        } else {
            out.push(Tree::List(n.id, n.name.clone()));
        }
    }
    Some(out)
}

fn convert(v: &[PlaylistNode]) -> Vec<Tree> {
    v.iter()
        .map(|n| match n {
            PlaylistNode::Folder(f) => Tree::Folder(f.id.0, f.name.clone(), convert(&f.children)),
            PlaylistNode::Playlist(p) => Tree::List(p.id.0, p.name.clone()),
        })
        .collect()
}

fn node_name(t: &mut Tape) -> StrM {
    let mut r = t.seed();
    match t.draw(4) {
        3 if t.chance(1, 60) => bad_str(&mut r),
        0..=1 => {
            let n = t.usize(9);
            any_str(&ascii_text(&mut r, n))
        }
        2 => any_str(&uni_text(&mut r, 1 + t.usize(6))),
        _ => any_str(["A", "B", "folder", "list"][t.usize(4)]),
    }
}

/// Rows of a playlist tree of one of several shapes.
pub fn gen_nodes(
    t: &mut Tape,
    names: &mut dyn FnMut(&mut Tape) -> StrM,
) -> Vec<crate::gen_pdb::RowM> {
    let n = match t.draw(5) {
        0 => t.usize(4),
        1..=3 => 2 + t.usize(14),
        _ if t.chance(1, 20) => 260 + t.usize(200),
        _ => 10 + t.usize(50),
    };
    // Chains of very many folders may be refused; see media::gen_deep.
    let shape = match t.draw(5) {
        1 if n > 200 => 2,
        s => s,
    };
    let mut ids: Vec<u32> = vec![];
    let mut folders: Vec<u32> = vec![0];
    let mut rows = vec![];
    for i in 0..n {
        let id = match t.draw(24) {
            22 if !ids.is_empty() => ids[t.usize(ids.len())],
            23 => match t.draw(3) {
                0 => 0,
                1 => u32::MAX,
                _ => t.u32(),
            },
            _ => i as u32 + 1,
        };
        let folder = match shape {
            0 => t.chance(1, 4),
            1 => t.chance(9, 10),
            _ => t.chance(1, 2),
        };
        let parent = match t.draw(14) {
            // Anything: orphans, children of playlists, forward references, cycles.
            12 => t.draw(n as u64 + 3) as u32,
            13 => t.id32(),
            _ if shape == 1 => *folders.last().unwrap(),
            0..=3 => 0,
            _ => folders[t.usize(folders.len())],
        };
        let fl = if folder {
            *t.pick(&[1u32, 1, 1, 2, 0x100, u32::MAX])
        } else {
            0
        };
        let name = names(t);
        ids.push(id);
        if folder {
            folders.push(id);
        }
        let (u, s) = (t.draw(3) as u32, t.draw(9) as u32);
        rows.push(node_row(parent, u, s, id, fl, &name));
    }
    // Rows need not come parents first.
    if t.chance(1, 2) {
        let mut r = t.seed();
        for i in (1..rows.len()).rev() {
            let j = r.below(i as u64 + 1) as usize;
            rows.swap(i, j);
        }
    }
    rows
}

/// Distribute rows over pages of a table.
pub fn spread(
    t: &mut Tape,
    kind: Kind,
    rows: Vec<crate::gen_pdb::RowM>,
    page_size: usize,
    deleted: bool,
) -> PlannedTable {
    let mut pages: Vec<PlannedPage> = vec![PlannedPage::default()];
    let per = match t.draw(5) {
        4 => usize::MAX,
        _ => 1 + t.usize(20),
    };
    let (mut used, mut cnt) = (0usize, 0usize);
    for row in rows {
        // Room for the gaps that the layout may insert.
        let len = row.bytes.len().div_ceil(4) * 4 + 8 + 2;
        if cnt > 0
            && (used + len + (cnt / 16 + 2) * 4 + 4 > page_size - crate::gen_pdb::HEAP
                || cnt >= per)
        {
            pages.push(PlannedPage::default());
            used = 0;
            cnt = 0;
        }
        let present = !(deleted && t.chance(1, 5));
        pages.last_mut().unwrap().rows.push((row, present));
        used += len;
        cnt += 1;
    }
    if t.chance(1, 4) {
        let at = t.usize(pages.len() + 1);
        pages.insert(at, PlannedPage::default());
    }
    PlannedTable {
        kind,
        pages,
        index_first: !t.chance(1, 6),
    }
}

/// The nodes in the order a walk delivers them.
pub fn nodes_in_order(m: &Db) -> Vec<(u32, u16, NodeM)> {
    let mut out = vec![];
    for tb in m.tables.iter().filter(|t| t.kind == Kind::Node).take(1) {
        for p in &tb.chain {
            if let PageM::Data { slots, .. } = &m.pages[*p as usize - 1] {
                let mut v: Vec<_> = slots.iter().filter(|s| s.present).collect();
                v.sort_by_key(|s| s.off);
                for s in v {
                    if let Sem::Node {
                        parent,
                        id,
                        folder,
                        name,
                    } = &s.row.sem
                    {
                        out.push((
                            *p,
                            s.off,
                            NodeM {
                                parent: *parent,
                                id: *id,
                                folder: *folder,
                                name: name.clone(),
                            },
                        ));
                    }
                }
            }
        }
    }
    out
}

pub fn c13(t: &mut Tape, ctx: &mut Ctx) -> R {
    let page_size = *t.pick(&[1024usize, 4096, 1024, 512, 2048]);
    let rows = gen_nodes(t, &mut node_name);
    let deleted = t.chance(1, 3);
    let mut plan = vec![];
    for k in [Kind::Genre, Kind::Artist, Kind::Key] {
        if t.chance(1, 3) {
            let n = t.usize(6);
            let rows = (0..n)
                .map(|_| crate::gen_pdb::gen_row(t, k))
                .collect::<Vec<_>>();
            let rows: Vec<_> = rows.into_iter().filter(|r| r.bytes.len() < 300).collect();
            plan.push(spread(t, k, rows, page_size, false));
        }
    }
    let at = t.usize(plan.len() + 1);
    let nodes_table = spread(t, Kind::Node, rows, page_size, deleted);
    plan.insert(at, nodes_table);
    let m = layout(t, false, page_size, plan, true);
    ctx.say(|| m.describe());
    let mut img = m.image.clone();
    let broken = t.chance(1, 8) && break_links(t, ctx, &m, &mut img);
    let ti = m.tables.iter().position(|x| x.kind == Kind::Node).unwrap();
    let walk = model_walk(&m, &img, ti);
    let sim = Sim::new(img.clone());
    ctx.watch(&sim);
    delivery(t, &sim);
    let s2 = sim.clone();
    let mut db = match lib(|| Database::open_non_persistent(s2, DatabaseType::Plain)) {
        Err(p) => return viol("panic", format!("open: {}", p.0)),
        Ok(Err(e)) => {
            ctx.absorb(&sim);
            return if broken {
                Ok(())
            } else {
                viol("open-fails", format!("opening an intact database: {e}"))
            };
        }
        Ok(Ok(d)) => d,
    };
    let mut nodes = nodes_in_order(&m);
    // With a broken link the chain may still be a complete walk over other pages.
    if broken {
        let own: BTreeSet<u32> = m.tables[ti].chain.iter().copied().collect();
        if walk.complete && !walk.pages.iter().all(|p| own.contains(p)) {
            // Pages of another table in the chain: rows of another type.
            std::mem::forget(db);
            ctx.absorb(&sim);
            return Ok(());
        }
        nodes.retain(|n| walk.pages.contains(&n.0));
    }
    for (p, off, n) in &nodes {
        ctx.say(|| format!("  page {p} row {off}: {n:?}"));
    }
    let mut result = Ok(());
    for round in 0..1 + t.draw(3) {
        for _ in 0..t.draw(3) {
            let p = 1 + t.draw(u64::from(m.next_unused - 1)) as u32;
            ctx.say(|| format!("load page {p}"));
            let _ = lib(|| {
                let _ = db.load_page(pidx(p));
            });
        }
        // Move or rename a node in memory.
        if t.chance(1, 4) && !nodes.is_empty() {
            let i = t.usize(nodes.len());
            let (p, off) = (nodes[i].0, nodes[i].1);
            let what = t.draw(2);
            let v = if t.chance(1, 2) {
                nodes[t.usize(nodes.len())].2.id
            } else {
                t.draw(12) as u32
            };
            let r = lib(|| match db.load_page(pidx(p)) {
                Ok(pg) => match pg.content.as_data_mut().and_then(|d| d.rows.get_mut(&off)) {
                    Some(Row::Plain(PlainRow::PlaylistTreeNode(n))) => {
                        if what == 0 {
                            n.parent_id = PlaylistTreeNodeId(v);
                        } else {
                            n.id = PlaylistTreeNodeId(v);
                        }
                        true
                    }
                    _ => false,
                },
                Err(_) => false,
            });
            match r {
                Ok(true) => {
                    ctx.say(|| {
                        format!(
                            "node in page {p} at {off}: {} becomes {v}",
                            if what == 0 { "parent" } else { "id" }
                        )
                    });
                    if what == 0 {
                        nodes[i].2.parent = v;
                    } else {
                        nodes[i].2.id = v;
                    }
                    ctx.nontrivial = true;
                }
                Ok(false) => {
                    result = viol("row-missing", format!("page {p} has no node row at {off}"));
                    break;
                }
                Err(e) => {
                    result = viol("panic", e.0);
                    break;
                }
            }
        }
        let plain: Vec<NodeM> = nodes.iter().map(|n| n.2.clone()).collect();
        let tree = model_tree(&plain, &mut BTreeSet::from([0]), 0);
        let want = if walk.complete { tree } else { None };
        let faulty = t.chance(1, 3);
        if faulty {
            gen_fault(t, ctx, &sim);
        }
        let r = lib(|| get_playlists(&mut db));
        sim.with(|d| d.plan.clear());
        let touched = sim.with(|d| d.errors > 0 || d.fired.contains_key("eof_early"));
        if faulty {
            let (r, w, e) = sim.with(|d| (d.chunk_r.clone(), d.chunk_w.clone(), d.eintr.clone()));
            sim.heal();
            sim.with(|d| {
                d.chunk_r = r;
                d.chunk_w = w;
                d.eintr = e;
            });
        }
        result = match r {
            Err(p) => viol(&p.class(), format!("get_playlists: {}", p.0)),
            Ok(Err(e)) => {
                ctx.say(|| format!("get_playlists: error {e}"));
                match (&want, faulty && touched) {
                    (Some(_), false) if !plain.iter().any(|n| n.name == BAD) => viol(
                        "tree-refused",
                        format!("the tree is fine, but get_playlists failed: {e}"),
                    ),
                    (None, _) => {
                        ctx.probe("cycle_or_broken_chain_reported");
                        Ok(())
                    }
                    _ => {
                        ctx.probe("fault_reported");
                        Ok(())
                    }
                }
            }
            Ok(Ok(v)) => {
                let got = convert(&v);
                ctx.say(|| format!("get_playlists: {got:?}"));
                match want {
                    Some(w) if w == got => {
                        ctx.probe("tree_compared");
                        Ok(())
                    }
                    Some(w) => viol(
                        "wrong-tree",
                        format!("round {round}:\n got {got:?}\nwant {w:?}"),
                    ),
                    None => viol(
                        "partial-tree",
                        format!("the links are cyclic, a name is no text or a page is not readable, but a tree was returned: {got:?}"),
                    ),
                }
            }
        };
        if result.is_err() {
            break;
        }
        if faulty {
            sim.with(|d| d.errors = 0);
        }
    }
    std::mem::forget(db);
    ctx.absorb(&sim);
    result
}

#[allow(unused)]
fn unused(_: BTreeMap<u32, u32>) {}
