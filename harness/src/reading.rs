//! C01, C03, C11: reading any of the formats under delivery variations, faults and damage.

use crate::ctx::{lib, viol, Ctx, Panicked, R};
use crate::gen_pdb::{Kind, PLAIN_KINDS};
use crate::hist::delivery;
use crate::media::{gen_deep, damage, gen_media, Fmt, Media};
use crate::pdbx::{dt, page_type, pidx, typed_rows};
use crate::simio::{Fault, Sim, ERR_KINDS};
use crate::sys;
use crate::tape::Tape;
use binrw::{BinRead, BinWrite, Endian};
use fallible_iterator::FallibleIterator;
use rekordcrate::anlz::ANLZ;
use rekordcrate::device::get_playlists;
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::Page;
use rekordcrate::setting::Setting;
use rekordcrate::util::TableIndex;
use rekordcrate::xml::Document;
use std::io::{BufReader, Cursor, Read, Seek, Write};

/// What an operation gave: the values it yielded and whether it ended without error.
#[derive(Debug)]
pub struct Seen {
    pub items: Vec<Item>,
    pub ok: bool,
}

#[derive(Debug)]
pub enum Item {
    Text(String),
    Page(Box<Page>),
    Anlz(ANLZ),
    Setting(Setting),
    Xml(Box<Document>),
}

impl Item {
    fn same(&self, o: &Item) -> bool {
        match (self, o) {
            (Item::Text(a), Item::Text(b)) => a == b,
            (Item::Page(a), Item::Page(b)) => a == b,
            (Item::Anlz(a), Item::Anlz(b)) => a == b,
            (Item::Setting(a), Item::Setting(b)) => a == b,
            // A NaN in a library is not equal to itself.
            (Item::Xml(a), Item::Xml(b)) => a == b || format!("{a:?}") == format!("{b:?}"),
            _ => false,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Whole,
    Header,
    Page(u32),
    TablePages(usize),
    TypePages(Kind),
    Rows(Kind),
    Playlists,
}

/// A reader of some format, with whatever state it keeps between operations.
pub enum Reader<R: Read + Seek> {
    Pdb(Option<Database<R>>),
    One(Fmt, R),
}

pub fn open<S: Read + Seek>(fmt: Fmt, s: S) -> Result<(Reader<S>, bool), Panicked> {
    Ok(match fmt {
        Fmt::Pdb { ext } => {
            let db = lib(|| Database::open_non_persistent(s, dt(ext)))?.ok();
            let ok = db.is_some();
            (Reader::Pdb(db), ok)
        }
        f => (Reader::One(f, s), true),
    })
}

fn read_whole<S: Read + Seek>(fmt: Fmt, s: &mut S) -> Result<Item, ()> {
    match fmt {
        Fmt::Anlz => ANLZ::read(s).map(Item::Anlz).map_err(|_| ()),
        Fmt::Setting(ty) => Setting::read_args(s, (ty,))
            .map(Item::Setting)
            .map_err(|_| ()),
        Fmt::Xml => {
            let r: Result<Document, _> =
                quick_xml::de::from_reader(BufReader::with_capacity(512, s));
            r.map(|d| Item::Xml(Box::new(d))).map_err(|_| ())
        }
        Fmt::Pdb { .. } => Err(()),
    }
}

pub fn run_op<S: Read + Seek>(r: &mut Reader<S>, op: &Op) -> Result<Seen, Panicked> {
    lib(|| {
        let mut items = vec![];
        let ok = match (r, op) {
            (Reader::One(fmt, s), _) => match read_whole(*fmt, s) {
                Ok(v) => {
                    items.push(v);
                    true
                }
                Err(()) => false,
            },
            (Reader::Pdb(None), _) => false,
            (Reader::Pdb(Some(db)), op) => pdb_op(db, op, &mut items),
        };
        Seen { items, ok }
    })
}

fn pdb_op<S: Read + Seek>(db: &mut Database<S>, op: &Op, items: &mut Vec<Item>) -> bool {
    match op {
        Op::Whole | Op::Header => {
            items.push(Item::Text(format!("{:?}", db.get_header())));
            true
        }
        Op::Page(p) => match db.load_page(pidx(*p)) {
            Ok(p) => {
                items.push(Item::Page(Box::new(p.clone())));
                true
            }
            Err(_) => false,
        },
        Op::TablePages(i) => match db.iter_pages_for_table(TableIndex::from(*i)) {
            Err(_) => false,
            Ok(mut it) => loop {
                match it.next() {
                    Ok(Some(p)) => items.push(Item::Page(Box::new(p.clone()))),
                    Ok(None) => break true,
                    Err(_) => break false,
                }
            },
        },
        Op::TypePages(k) => match db.iter_pages(page_type(*k)) {
            Err(_) => false,
            Ok(mut it) => loop {
                match it.next() {
                    Ok(Some(p)) => items.push(Item::Page(Box::new(p.clone()))),
                    Ok(None) => break true,
                    Err(_) => break false,
                }
            },
        },
        Op::Rows(k) => match typed_rows(db, *k) {
            None => true,
            Some(Ok(v)) => {
                items.extend(v.into_iter().map(Item::Text));
                true
            }
            Some(Err(_)) => false,
        },
        Op::Playlists => match get_playlists(db) {
            Ok(p) => {
                items.push(Item::Text(format!("{p:?}")));
                true
            }
            Err(_) => false,
        },
    }
}

pub fn gen_ops(t: &mut Tape, m: &Media) -> Vec<Op> {
    let Fmt::Pdb { ext } = m.fmt else {
        return vec![Op::Whole; if t.chance(1, 6) { 2 } else { 1 }];
    };
    let page_size = m
        .bytes
        .get(4..8)
        .map_or(4096, |b| u32::from_le_bytes(b.try_into().unwrap()))
        .max(64);
    let pages = (m.bytes.len() as u64 / u64::from(page_size)).min(60) as u32;
    let tables = m
        .bytes
        .get(8..12)
        .map_or(0, |b| u32::from_le_bytes(b.try_into().unwrap()))
        .min(24) as usize;
    let n = 1 + t.draw(5);
    let mut v = vec![];
    // Mostly types of tables that exist.
    let present: Vec<Kind> = (0..tables)
        .filter_map(|i| {
            let at = 28 + 16 * i;
            let code = u32::from_le_bytes(m.bytes.get(at..at + 4)?.try_into().unwrap());
            PLAIN_KINDS.iter().copied().find(|k| k.code() == code)
        })
        .collect();
    let kind = |t: &mut Tape| {
        if present.is_empty() || t.chance(1, 10) {
            *t.pick(&PLAIN_KINDS)
        } else {
            *t.pick(&present)
        }
    };
    for _ in 0..n {
        v.push(match t.draw(8) {
            0 => Op::Header,
            1 | 2 => Op::Page(t.draw(u64::from(pages) + 1) as u32),
            3 | 4 => Op::TablePages(t.usize(tables + 1)),
            5 if !ext => Op::TypePages(kind(t)),
            5 => Op::TypePages(*t.pick(&[Kind::Tag, Kind::TrackTag])),
            6 if !ext => Op::Rows(kind(t)),
            7 if !ext => Op::Playlists,
            _ => Op::TablePages(t.usize(tables + 1)),
        });
    }
    v
}

fn baseline(m: &Media, ops: &[Op]) -> Result<Vec<Seen>, Panicked> {
    let (mut r, _) = open(m.fmt, Cursor::new(m.bytes.as_slice()))?;
    ops.iter()
        .map(|o| {
            if let Reader::One(_, s) = &mut r {
                s.set_position(0);
            }
            run_op(&mut r, o)
        })
        .collect()
}

fn panicked<T>(p: &Panicked, what: &str) -> Result<T, crate::ctx::Violation> {
    viol(&p.class(), format!("{what}: {}", p.0))
}

/// Run `f` over the stream as it is or wrapped in a buffered reader.
fn observe(
    fmt: Fmt,
    sim: &Sim,
    buffered: Option<usize>,
    ops: &[Op],
) -> Result<(Vec<Seen>, bool), Panicked> {
    fn go<S: Read + Seek>(
        fmt: Fmt,
        s: S,
        ops: &[Op],
        rewind: impl Fn(&mut S) -> bool,
    ) -> Result<(Vec<Seen>, bool), Panicked> {
        let (mut r, opened) = open(fmt, s)?;
        let mut v = vec![];
        for o in ops {
            if let Reader::One(_, s) = &mut r {
                if !rewind(s) {
                    v.push(Seen {
                        items: vec![],
                        ok: false,
                    });
                    continue;
                }
            }
            v.push(run_op(&mut r, o)?);
        }
        Ok((v, opened))
    }
    match buffered {
        None => go(fmt, sim.clone(), ops, |s| s.rewind().is_ok()),
        Some(c) => go(fmt, BufReader::with_capacity(c, sim.clone()), ops, |s| {
            s.rewind().is_ok()
        }),
    }
}

fn buffering(t: &mut Tape) -> Option<usize> {
    match t.draw(4) {
        0 | 1 => None,
        2 => Some(1 + t.usize(40)),
        _ => Some(*t.pick(&[64usize, 512, 4096, 8192])),
    }
}

/// C01: reading does not depend on how the stream delivers its bytes.
pub fn c01(t: &mut Tape, ctx: &mut Ctx) -> R {
    let mut m = gen_media(t, 8);
    if t.chance(1, 6) {
        for d in damage(t, &mut m.bytes) {
            ctx.say(|| d);
        }
    }
    ctx.say(|| format!("{} ({} bytes)", m.what, m.bytes.len()));
    let ops = gen_ops(t, &m);
    ctx.say(|| format!("operations: {ops:?}"));
    let Ok(base) = baseline(&m, &ops) else {
        // A crash on damaged media is another property's business.
        ctx.probe("baseline_panicked");
        return Ok(());
    };
    let sim = Sim::new(m.bytes.clone());
    ctx.watch(&sim);
    delivery(t, &sim);
    let buf = buffering(t);
    if buf.is_some() {
        ctx.probe("through_bufreader");
        ctx.nontrivial = true;
    }
    let r = observe(m.fmt, &sim, buf, &ops);
    ctx.absorb(&sim);
    let seen = match r {
        Ok(s) => s.0,
        Err(p) => return panicked(&p, "reading the same bytes in pieces"),
    };
    for (i, (a, b)) in base.iter().zip(&seen).enumerate() {
        ctx.probe(if a.ok {
            "compared_value"
        } else {
            "compared_error"
        });
        if a.ok != b.ok {
            return viol(
                if a.ok { "spurious-error" } else { "error-vanished" },
                format!("{} {:?}: succeeded {} when delivered at once, {} when delivered in pieces (buffer {buf:?})", m.what, ops[i], a.ok, b.ok),
            );
        }
        if a.items.len() != b.items.len() || a.items.iter().zip(&b.items).any(|(x, y)| !x.same(y)) {
            return viol(
                "different-data",
                format!("{} {:?}: different data when delivered in pieces (buffer {buf:?})\nat once:   {}\nin pieces: {}", m.what, ops[i], clip(&a.items), clip(&b.items)),
            );
        }
    }
    Ok(())
}

fn clip(v: &[Item]) -> String {
    let mut s = format!("{v:?}");
    if s.len() > 1500 {
        let mut n = 1500;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
        s.push_str("...");
    }
    s
}

/// C03: a failed or truncated read is never turned into data.
pub fn c03(t: &mut Tape, ctx: &mut Ctx) -> R {
    let m = gen_media(t, 8);
    ctx.say(|| format!("{} ({} bytes)", m.what, m.bytes.len()));
    let ops = gen_ops(t, &m);
    ctx.say(|| format!("operations: {ops:?}"));
    let Ok(base) = baseline(&m, &ops) else {
        ctx.probe("baseline_panicked");
        return Ok(());
    };
    let buf = buffering(t);
    // How many stream operations the undisturbed run takes.
    let dry = Sim::new(m.bytes.clone());
    let small = t.chance(1, 3);
    if small {
        let c = 1 + t.usize(30);
        dry.with(|d| d.chunk_r = crate::simio::Chunk::Fixed(c));
    }
    let chunk = dry.with(|d| d.chunk_r.clone());
    if observe(m.fmt, &dry, buf, &ops).is_err() {
        ctx.probe("baseline_panicked");
        return Ok(());
    }
    let total = dry.ops().max(1);
    let mut bytes = m.bytes.clone();
    let cut = t.chance(1, 4);
    if cut {
        let n = t.usize(bytes.len() + 1);
        bytes.truncate(n);
        ctx.fault("truncated_medium", 1);
        ctx.say(|| format!("medium ends after {n} bytes"));
    }
    let sim = Sim::new(bytes);
    ctx.watch(&sim);
    sim.with(|d| d.chunk_r = chunk);
    if !cut || t.chance(1, 3) {
        for _ in 0..1 + t.draw(5) / 4 {
            let at = t.draw(total + 1);
            let k = *t.pick(&ERR_KINDS);
            let f = match t.draw(5) {
                0 | 1 => Fault::Err(k),
                2 => Fault::ErrSticky(k),
                3 => Fault::Zero,
                _ => Fault::Short(1),
            };
            sim.with(|d| d.plan.insert(at, f));
        }
    }
    let r = observe(m.fmt, &sim, buf, &ops);
    ctx.absorb(&sim);
    let (seen, _) = match r {
        Ok(s) => s,
        Err(p) => return panicked(&p, &format!("{} with a failing read", m.what)),
    };
    for (i, (a, b)) in base.iter().zip(&seen).enumerate() {
        let same =
            b.items.len() <= a.items.len() && a.items.iter().zip(&b.items).all(|(x, y)| x.same(y));
        if b.ok {
            if !a.ok || !same || a.items.len() != b.items.len() {
                return viol(
                    "fault-became-data",
                    format!("{} {:?}: success with other data than without the fault (buffer {buf:?})\nwithout: {} {}\nwith:    {}", m.what, ops[i], a.ok, clip(&a.items), clip(&b.items)),
                );
            }
            ctx.probe("same_data");
        } else {
            if !same {
                return viol(
                    "fault-became-data",
                    format!("{} {:?}: items yielded before the error differ from those without the fault\nwithout: {}\nwith:    {}", m.what, ops[i], clip(&a.items), clip(&b.items)),
                );
            }
            ctx.probe(if a.ok {
                "fault_reported"
            } else {
                "error_as_before"
            });
        }
    }
    Ok(())
}

struct Null;
impl Write for Null {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// C11: damaged media give values or errors, nothing else.
pub fn c11(t: &mut Tape, ctx: &mut Ctx) -> R {
    let deep = t.chance(1, 700);
    let mut m = if deep { gen_deep(t) } else { gen_media(t, 10) };
    ctx.say(|| format!("{} ({} bytes)", m.what, m.bytes.len()));
    if deep {
        ctx.probe("deep");
    }
    let done = if deep && t.chance(2, 3) { vec![] } else { damage(t, &mut m.bytes) };
    ctx.fault("corruption", done.len() as u64);
    for d in &done {
        ctx.say(|| d.clone());
        ctx.digest.add_bytes(d.as_bytes());
    }
    let len = m.bytes.len() as u64;
    sys::mem_cap((64 << 20) + 64 * len as i64);
    let r = c11_body(t, ctx, &m);
    sys::mem_uncap();
    r
}

fn c11_body(t: &mut Tape, ctx: &mut Ctx, m: &Media) -> R {
    let len = m.bytes.len() as u64;
    let budget = 200_000 + 400 * len;
    let sim = Sim::new(m.bytes.clone());
    ctx.watch(&sim);
    if t.chance(1, 8) {
        sim.with(|d| d.chunk_r = crate::simio::Chunk::Fixed(3));
    }
    let more = |sim: &Sim| sim.with(|d| d.budget = d.ops + budget);
    macro_rules! lib {
        ($what:expr, $f:expr) => {
            match lib(|| $f) {
                Ok(v) => v,
                Err(p) => {
                    ctx.absorb(&sim);
                    return panicked(&p, &format!("{} of damaged {}", $what, m.what));
                }
            }
        };
    }
    more(&sim);
    match m.fmt {
        Fmt::Pdb { ext } => {
            let Ok(mut db) = lib!(
                "opening",
                Database::open(sim.clone(), dt(ext)).map_err(|_| ())
            ) else {
                ctx.absorb(&sim);
                ctx.probe("open_error");
                return Ok(());
            };
            ctx.probe("opened");
            let (tables, page_size) = lib!("header", {
                let h = db.get_header();
                let _ = write!(Null, "{h:?}");
                (h.tables.len(), h.page_size)
            });
            let pages = (len / u64::from(page_size.max(1))).min(48) as u32 + 2;
            // Access in the drawn order.
            let mut acts: Vec<Op> = vec![];
            let steps = 2 + t.draw(6);
            for _ in 0..steps {
                acts.push(match t.draw(7) {
                    0 | 1 => Op::Page(t.draw(u64::from(pages)) as u32),
                    2 => Op::TablePages(t.usize(tables.min(40) + 1)),
                    3 => Op::TypePages(*t.pick(&PLAIN_KINDS)),
                    4 => Op::Rows(*t.pick(&PLAIN_KINDS)),
                    _ => Op::Playlists,
                });
            }
            if t.chance(1, 3) {
                acts.extend((0..pages).map(Op::Page));
                acts.extend((0..tables.min(24)).map(Op::TablePages));
            }
            let mut seen = 0u64;
            for a in &acts {
                more(&sim);
                let mut items = vec![];
                let ok = lib!(format!("{a:?}"), pdb_op(&mut db, a, &mut items));
                ctx.probe(if ok { "value" } else { "error" });
                for i in &items {
                    if let Item::Page(p) = i {
                        seen += 1;
                        if seen < 60 {
                            lib!("printing", write!(Null, "{p:?} {p:#?}").is_ok());
                            if seen < 12 {
                                // Write the page out again.
                                let _ = lib!("page write-back", {
                                    let mut c = Cursor::new(vec![]);
                                    p.write_options(&mut c, Endian::Little, (page_size,))
                                        .is_ok()
                                });
                                ctx.probe("page_written");
                            }
                        }
                    }
                }
            }
            more(&sim);
            let ok = lib!("flush", db.flush().is_ok());
            ctx.probe(if ok { "flush_ok" } else { "flush_error" });
            let _ = lib!("drop", drop(db));
        }
        f => {
            let mut s = sim.clone();
            let v = lib!("reading", read_whole(f, &mut s));
            ctx.probe(match (f, v.is_ok()) {
                (Fmt::Anlz, true) => "anlz_value",
                (Fmt::Anlz, false) => "anlz_error",
                (Fmt::Xml, true) => "xml_value",
                (Fmt::Xml, false) => "xml_error",
                (_, true) => "setting_value",
                _ => "setting_error",
            });
            if let Ok(v) = v {
                lib!("printing", write!(Null, "{v:?} {v:#?}").is_ok());
                lib!(
                    "write-back",
                    match &v {
                        Item::Anlz(a) => a.write(&mut Cursor::new(vec![])).is_ok(),
                        Item::Setting(s) => s.write(&mut Cursor::new(vec![])).is_ok(),
                        Item::Xml(d) => quick_xml::se::to_string(d).is_ok(),
                        _ => true,
                    }
                );
            }
        }
    }
    ctx.absorb(&sim);
    Ok(())
}
