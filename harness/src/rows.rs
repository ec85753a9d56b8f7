//! C23: rows and string tables whose offsets are calculated (or given) are laid out truthfully,
//! wherever, over whatever and in whatever pieces they are written.

use crate::ctx::{lib, viol, Ctx, Panicked, Violation, R};
use crate::gen_pdb::{any_str, ascii_text, gen_row, gen_str, long_ascii, uni_text, Kind, StrM};
use crate::hist::delivery;
use crate::pdbx::{is_ucs2, make_row, page_type, str_len, table_of};
use crate::simio::{Fault, Sim, ERR_KINDS};
use crate::tape::Tape;
use binrw::{BinRead, BinResult, BinWrite, Endian};
use rekordcrate::pdb::ext::ExtRow;
use rekordcrate::pdb::offset_array::{
    OffsetArray, OffsetArrayContainer, OffsetArrayItemAlignment, OffsetArrayItems, OffsetSize,
};
use rekordcrate::pdb::string::DeviceSQLString;
use rekordcrate::pdb::{PlainRow, Row};
use rekordcrate::util::MaybeCalculated;
use std::io::{Cursor, Seek, SeekFrom};

// ---------------------------------------------------------------- what is written

#[derive(Clone, PartialEq, Debug)]
struct Items<I, const N: usize>([I; N]);

impl<I: Clone, const N: usize> OffsetArrayItems<N> for Items<I, N> {
    type Item = I;
    fn as_items(&self) -> [&I; N] {
        std::array::from_fn(|i| &self.0[i])
    }
    fn from_items(items: [I; N]) -> Self {
        Self(items)
    }
}

fn size(wide: bool) -> OffsetSize {
    if wide {
        OffsetSize::U16
    } else {
        OffsetSize::U8
    }
}

fn offsets<const N: usize>(wide: bool, offs: Option<&[usize]>) -> MaybeCalculated<OffsetArray<N>> {
    match offs {
        None => MaybeCalculated::Calculated,
        Some(o) if wide => MaybeCalculated::Provided(std::array::from_fn::<u16, N, _>(|i| o[i] as u16).into()),
        Some(o) => MaybeCalculated::Provided(std::array::from_fn::<u8, N, _>(|i| o[i] as u8).into()),
    }
}

/// The value under test, behind its type.
trait Subject {
    /// Replace an item by the one these bytes stand for.
    fn set(&mut self, i: usize, item: &Item);
    /// Leave the offsets to the library, or give them.
    fn place(&mut self, offs: Option<&[usize]>);
    fn write(&self, s: &mut Sim) -> BinResult<()>;
    /// Read and compare everything but the offsets. Also: whether the offsets are the ones given.
    fn reads_same(&self, s: &mut Sim, offs: &[usize]) -> BinResult<(bool, bool)>;
}

struct Table<I, const N: usize> {
    c: OffsetArrayContainer<Items<I, N>, N>,
    base: u64,
    wide: bool,
}

impl<I, const N: usize> Subject for Table<I, N>
where
    I: for<'a> BinRead<Args<'a> = ()> + for<'a> BinWrite<Args<'a> = ()> + OffsetArrayItemAlignment + Clone + PartialEq,
{
    fn set(&mut self, i: usize, item: &Item) {
        self.c.inner.0[i] = I::read_options(&mut Cursor::new(&item.bytes), Endian::Little, ()).expect("item");
    }
    fn place(&mut self, offs: Option<&[usize]>) {
        self.c.offsets = offsets(self.wide, offs);
    }
    fn write(&self, s: &mut Sim) -> BinResult<()> {
        self.c.write_options(s, Endian::Little, (self.base, size(self.wide), ()))
    }
    fn reads_same(&self, s: &mut Sim, offs: &[usize]) -> BinResult<(bool, bool)> {
        let c = OffsetArrayContainer::<Items<I, N>, N>::read_options(
            s,
            Endian::Little,
            (self.base, size(self.wide), ()),
        )?;
        Ok((c.inner == self.c.inner, c.offsets == offsets(self.wide, Some(offs))))
    }
}

fn table<I, const N: usize>(items: &[Item], base: u64, wide: bool) -> Box<dyn Subject>
where
    I: for<'a> BinRead<Args<'a> = ()>
        + for<'a> BinWrite<Args<'a> = ()>
        + OffsetArrayItemAlignment
        + Clone
        + PartialEq
        + 'static,
{
    let item = |i: usize| {
        I::read_options(&mut Cursor::new(&items[i].bytes), Endian::Little, ()).expect("item")
    };
    Box::new(Table::<I, N> {
        c: OffsetArrayContainer {
            offsets: MaybeCalculated::Calculated,
            inner: Items(std::array::from_fn(item)),
        },
        base,
        wide,
    })
}

struct WholeRow {
    kind: Kind,
    row: Row,
    wide: bool,
}

/// The strings of a row kind that public API can replace.
fn replaceable(kind: Kind) -> &'static [usize] {
    match kind {
        Kind::Track => &[17, 20],
        Kind::Artist => &[0],
        _ => &[0, 1],
    }
}

impl Subject for WholeRow {
    fn set(&mut self, i: usize, item: &Item) {
        let s = item.string();
        match &mut self.row {
            Row::Plain(PlainRow::Track(r)) if i == 17 => r.offsets.inner.title = s,
            Row::Plain(PlainRow::Track(r)) => r.offsets.inner.file_path = s,
            Row::Plain(PlainRow::Artist(r)) => r.offsets.inner.name = s,
            Row::Ext(ExtRow::Tag(r)) if i == 0 => r.offsets.inner.name = s,
            Row::Ext(ExtRow::Tag(r)) => r.offsets.inner.unknown = s,
            _ => unreachable!("row without replaceable strings"),
        }
    }
    fn place(&mut self, offs: Option<&[usize]>) {
        let w = self.wide;
        match &mut self.row {
            Row::Plain(PlainRow::Track(r)) => r.offsets.offsets = offsets(w, offs),
            Row::Plain(PlainRow::Artist(r)) => r.offsets.offsets = offsets(w, offs),
            Row::Ext(ExtRow::Tag(r)) => r.offsets.offsets = offsets(w, offs),
            _ => unreachable!("row without a public table"),
        }
    }
    fn write(&self, s: &mut Sim) -> BinResult<()> {
        self.row.write_options(s, Endian::Little, ())
    }
    fn reads_same(&self, s: &mut Sim, offs: &[usize]) -> BinResult<(bool, bool)> {
        let row = Row::read_options(s, Endian::Little, (page_type(self.kind),))?;
        let mut mine = WholeRow { kind: self.kind, row: self.row.clone(), wide: self.wide };
        mine.place(Some(offs));
        let there = mine.row == row;
        // With offsets out of the way.
        let mut other = WholeRow { kind: self.kind, row, wide: self.wide };
        mine.place(None);
        other.place(None);
        Ok((mine.row == other.row, there))
    }
}

// ---------------------------------------------------------------- model

#[derive(Clone, Debug)]
struct Item {
    bytes: Vec<u8>,
    align: usize,
    /// The text, if the string is to be made from it (otherwise from the bytes).
    text: Option<String>,
}

impl Item {
    fn new(s: StrM, from_text: bool) -> Item {
        Item {
            align: if is_ucs2(&s.bytes) { 4 } else { 1 },
            bytes: s.bytes,
            text: s.text.filter(|_| from_text),
        }
    }
    fn plain(bytes: Vec<u8>) -> Item {
        Item { bytes, align: 1, text: None }
    }
    fn string(&self) -> DeviceSQLString {
        match &self.text {
            Some(t) => DeviceSQLString::new(t).expect("text"),
            None => DeviceSQLString::read_options(&mut Cursor::new(&self.bytes), Endian::Little, ()).expect("string"),
        }
    }
}

fn gen_text(t: &mut Tape) -> Item {
    match t.draw(12) {
        0..=6 => Item::new(gen_str(t), false),
        7 | 8 => {
            // Around the limit of the short form.
            let n = 120 + t.usize(14);
            let mut r = t.seed();
            Item::new(any_str(&ascii_text(&mut r, n)), true)
        }
        9 | 10 => {
            let n = 1 + t.usize(40);
            let mut r = t.seed();
            let mut s = uni_text(&mut r, n);
            s.push('\u{e9}');
            Item::new(any_str(&s), true)
        }
        _ => {
            // As long as it gets.
            let n = match t.draw(8) {
                0 => 65531 - t.usize(3),
                1 => 20000 + t.usize(12000),
                _ => 200 + t.usize(900),
            };
            let mut r = t.seed();
            Item::new(long_ascii(&ascii_text(&mut r, n)), false)
        }
    }
}

struct Model {
    /// From the start of the row (or what stands for it) to the offset table.
    base: usize,
    /// What is written in front of the table.
    head: Vec<u8>,
    wide: bool,
    items: Vec<Item>,
    /// The items are no strings.
    plain: bool,
    /// Given offsets.
    given: Option<Vec<usize>>,
}

impl Model {
    fn w(&self) -> usize {
        if self.wide {
            2
        } else {
            1
        }
    }
    fn limit(&self) -> usize {
        if self.wide {
            65535
        } else {
            255
        }
    }
    fn strings_at(&self) -> usize {
        self.base + (self.items.len() + 1) * self.w()
    }
    /// One behind the other: the offsets and the end. None: an offset does not fit.
    fn in_order(&self) -> (Option<Vec<usize>>, usize) {
        let mut at = self.strings_at();
        let mut v = vec![];
        for i in &self.items {
            at = at.next_multiple_of(i.align);
            v.push(at);
            at += i.bytes.len();
        }
        (Some(v).filter(|v| v.iter().all(|o| *o <= self.limit())), at)
    }
    /// Any order, with gaps. None: an offset does not fit.
    fn anyhow(&self, t: &mut Tape) -> Option<Vec<usize>> {
        let mut left: Vec<usize> = (0..self.items.len()).collect();
        let mut v = vec![0; self.items.len()];
        let mut at = self.strings_at();
        let gaps = t.draw(3) * 9;
        while !left.is_empty() {
            let i = left.remove(t.usize(left.len()));
            at += t.usize(gaps as usize + 1);
            at = at.next_multiple_of(self.items[i].align);
            v[i] = at;
            at += self.items[i].bytes.len();
        }
        Some(v).filter(|v| v.iter().all(|o| *o <= self.limit()))
    }
    fn size(&self) -> usize {
        match &self.given {
            None => self.in_order().1,
            Some(o) => o.iter().zip(&self.items).map(|(o, i)| o + i.bytes.len()).max().unwrap_or(0).max(self.strings_at()),
        }
    }
}

fn gen_subject(t: &mut Tape) -> Option<(Model, Box<dyn Subject>)> {
    let kind = t.draw(8);
    if kind < 4 {
        let kind = *t.pick(&[Kind::Track, Kind::Artist, Kind::Tag]);
        let rm = gen_row(t, kind);
        let (base, n) = table_of(kind)?;
        let wide = rm.bytes[0] & 4 != 0;
        let w = if wide { 2 } else { 1 };
        let off = |i: usize| {
            let p = base + (i + 1) * w;
            rm.bytes[p] as usize + if wide { (rm.bytes[p + 1] as usize) << 8 } else { 0 }
        };
        let mut offs = vec![];
        let mut items = vec![];
        for i in 0..n {
            let b = &rm.bytes[off(i)..];
            let b = b[..str_len(b)?].to_vec();
            items.push(Item { align: if is_ucs2(&b) { 4 } else { 1 }, bytes: b, text: None });
            offs.push(off(i));
        }
        let row = make_row(kind, &rm.bytes, false).ok()?;
        let m = Model { base, head: rm.bytes[..base].to_vec(), wide, items, plain: false, given: Some(offs) };
        return Some((m, Box::new(WholeRow { kind, row, wide })));
    }
    let n = *t.pick(&[1usize, 2, 3, 8, 21, 0]);
    let wide = t.chance(1, 2);
    let base = *t.pick(&[0usize, 1, 2, 3, 4, 8, 0x1c, 0x5c, 0xf0]);
    let (items, s): (Vec<Item>, _) = if kind < 7 {
        let v: Vec<Item> = (0..n)
            .map(|i| if i > 5 { Item::new(any_str(""), true) } else { gen_text(t) })
            .collect();
        let b = base as u64;
        let s = match n {
            0 => table::<DeviceSQLString, 0>(&v, b, wide),
            1 => table::<DeviceSQLString, 1>(&v, b, wide),
            2 => table::<DeviceSQLString, 2>(&v, b, wide),
            3 => table::<DeviceSQLString, 3>(&v, b, wide),
            8 => table::<DeviceSQLString, 8>(&v, b, wide),
            _ => table::<DeviceSQLString, 21>(&v, b, wide),
        };
        (v, s)
    } else {
        let mut r = t.seed();
        let len = if t.chance(1, 2) { 2 } else { 5 };
        let v: Vec<Item> =
            (0..n).map(|_| Item::plain((0..len).map(|_| r.next() as u8).collect())).collect();
        let b = base as u64;
        let s = match (n, len) {
            (0, _) => table::<u16, 0>(&v, b, wide),
            (1, 2) => table::<u16, 1>(&v, b, wide),
            (2, 2) => table::<u16, 2>(&v, b, wide),
            (3, 2) => table::<u16, 3>(&v, b, wide),
            (8, 2) => table::<u16, 8>(&v, b, wide),
            (_, 2) => table::<u16, 21>(&v, b, wide),
            (1, _) => table::<[u8; 5], 1>(&v, b, wide),
            (2, _) => table::<[u8; 5], 2>(&v, b, wide),
            (3, _) => table::<[u8; 5], 3>(&v, b, wide),
            (8, _) => table::<[u8; 5], 8>(&v, b, wide),
            _ => table::<[u8; 5], 21>(&v, b, wide),
        };
        (v, s)
    };
    Some((Model { base, head: vec![], wide, items, plain: kind == 7, given: None }, s))
}

// ---------------------------------------------------------------- the check

fn panicked(p: &Panicked, what: &str) -> Violation {
    Violation { class: p.class(), detail: format!("{what}: {}", p.0) }
}

/// What has to be on the medium after the row (or table) was written with its base at `at`;
/// returns its offsets.
fn judge(m: &Model, img: &[u8], at: usize, before: &[u8]) -> Result<Vec<usize>, Violation> {
    let bad = |c: &str, d: String| Err(Violation { class: c.into(), detail: d });
    let w = m.w();
    let n = m.items.len();
    let get = |o: usize, l: usize| img.get(at + o..at + o + l);
    if !m.head.is_empty() && get(0, m.head.len()) != Some(&m.head) {
        return bad("row-fields-changed", format!("fields of the row are {:02x?}, should be {:02x?}", get(0, m.head.len()), m.head));
    }
    let Some(tab) = get(m.base, (n + 1) * w) else {
        return bad("incomplete", format!("the table at {} lies behind the end", m.base));
    };
    let num = |i: usize| {
        if m.wide {
            u16::from_le_bytes([tab[2 * i], tab[2 * i + 1]]) as usize
        } else {
            tab[i] as usize
        }
    };
    if num(0) != 3 {
        return bad("wrong-table", format!("the table starts with {}", num(0)));
    }
    let offs: Vec<usize> = (1..=n).map(num).collect();
    let mut mine: Vec<(usize, usize)> = vec![];
    for (i, x) in m.items.iter().enumerate() {
        let o = offs[i];
        if o % x.align != 0 && m.given.is_none() {
            return bad("misaligned", format!("string {i} of {n} is at {o}"));
        }
        if get(o, x.bytes.len()) != Some(&x.bytes) {
            let there = get(o, x.bytes.len().min(24));
            return bad("not-at-its-offset", format!("string {i} of {n} should be at {o} ({:02x?}...), there is {there:02x?}...", &x.bytes[..x.bytes.len().min(24)]));
        }
        if !x.bytes.is_empty() {
            mine.push((o, o + x.bytes.len()));
        }
    }
    if let Some(g) = &m.given {
        if *g != offs {
            return bad("offsets-changed", format!("offsets {offs:?}, given were {g:?}"));
        }
    }
    mine.sort_unstable();
    let mut end = m.strings_at();
    for (a, b) in &mine {
        if *a < end {
            return bad("overlap", format!("offsets {offs:?}: something at {a} lies over what ends at {end}"));
        }
        end = *b;
    }
    outside(m, img, at, before, end)?;
    Ok(offs)
}

/// Nothing in front of the row (or table) and behind its `end` may have changed.
fn outside(m: &Model, img: &[u8], at: usize, before: &[u8], end: usize) -> R {
    let first = at + if m.head.is_empty() { m.base } else { 0 };
    let last = at + end;
    for (i, b) in img.iter().enumerate() {
        if (i < first || i >= last) && *b != before.get(i).copied().unwrap_or(0) {
            return viol(
                "outside-changed",
                format!("byte {i} changed from {:02x?} to {b:02x}; the row reaches from {first} to {last}", before.get(i)),
            );
        }
    }
    if img.len() > last.max(before.len()) || img.len() < before.len() {
        return viol("outside-changed", format!("length {} became {}, the row ends at {last}", before.len(), img.len()));
    }
    Ok(())
}

pub fn c23(t: &mut Tape, ctx: &mut Ctx) -> R {
    if t.chance(1, 25) {
        // Inserted into a database, flushed and reopened.
        ctx.probe("in_database");
        return if t.chance(1, 3) {
            crate::ins::history(t, ctx, true, &[Kind::Tag])
        } else {
            crate::ins::history(t, ctx, false, &[Kind::Track, Kind::Artist])
        };
    }
    let Some((mut m, mut s)) = gen_subject(t) else {
        ctx.probe("no_subject");
        return Ok(());
    };
    let row = !m.head.is_empty();
    let n = t.usize(3) * t.usize(700);
    let mut r = t.seed();
    let sim = Sim::new((0..n).map(|_| r.next() as u8).collect());
    ctx.watch(&sim);
    delivery(t, &sim);
    let out = body(t, ctx, &sim, &mut m, s.as_mut(), row);
    ctx.absorb(&sim);
    out
}

fn seek_to(sim: &Sim, at: usize) {
    sim.with(|d| d.budget = d.ops + 15_000_000);
    let mut s = sim.clone();
    // The plan is empty and nothing is broken here.
    let _ = s.seek(SeekFrom::Start(at as u64));
}

fn body(t: &mut Tape, ctx: &mut Ctx, sim: &Sim, m: &mut Model, s: &mut dyn Subject, row: bool) -> R {
    let start_of = |m: &Model, at: usize| at + if row { 0 } else { m.base };
    let steps = 1 + t.usize(4);
    let mut at = t.usize(400);
    for step in 0..steps {
        if step > 0 {
            // Other strings, or another place.
            if t.chance(1, 3) {
                at = t.usize(2000);
            }
            for _ in 0..t.draw(3) {
                if m.items.is_empty() {
                    break;
                }
                let (i, x) = if row {
                    (*t.pick(replaceable(match m.base { 0x5C => Kind::Track, 8 => Kind::Artist, _ => Kind::Tag })), gen_text(t))
                } else {
                    let i = t.usize(m.items.len());
                    let x = if m.plain {
                        m.items[t.usize(m.items.len())].clone()
                    } else {
                        gen_text(t)
                    };
                    (i, x)
                };
                s.set(i, &x);
                m.items[i] = x;
                // Offsets that were given fit the old strings only.
                m.given = None;
                ctx.probe("string_replaced");
            }
        }
        // Leave the offsets to the library, keep those that are there, or give others.
        match t.draw(8) {
            0..=4 => m.given = None,
            5 => {}
            _ => m.given = m.anyhow(t),
        }
        s.place(m.given.as_deref());
        let fits = m.given.is_some() || m.in_order().0.is_some();
        let size = m.size();
        ctx.say(|| {
            format!(
                "write at {at}: table at {} with {} entries, wide {}, offsets {}, {size} bytes{}",
                m.base,
                m.items.len(),
                m.wide,
                m.given.as_ref().map_or("calculated".to_string(), |g| format!("{g:?}")),
                if fits { "" } else { ", do not fit" }
            )
        });
        // Attempts that fail, then one that does not.
        let total = {
            let dry = Sim::new(vec![]);
            let (c, e) = sim.with(|d| (d.chunk_w.clone(), d.eintr.clone()));
            dry.with(|d| {
                d.chunk_w = c;
                d.eintr = e;
            });
            let mut x = dry.clone();
            let _ = x.seek(SeekFrom::Start(start_of(m, at) as u64));
            lib(|| s.write(&mut x)).map_err(|p| panicked(&p, "writing"))?.ok();
            dry.ops()
        };
        let tries = t.usize(3);
        for k in 0..=tries {
            let before = sim.content();
            seek_to(sim, start_of(m, at));
            let faulty = k < tries;
            let delivered = sim.with(|d| (d.chunk_r.clone(), d.chunk_w.clone(), d.eintr.clone()));
            if faulty {
                let kind = *t.pick(&ERR_KINDS);
                let f = *t.pick(&[Fault::Err(kind), Fault::ErrSticky(kind), Fault::Zero, Fault::Short(1)]);
                let k = match t.draw(3) {
                    0 => total.saturating_sub(1 + t.draw(4)),
                    1 => t.draw(6),
                    _ => t.draw(total + 2),
                };
                ctx.say(|| format!("  with {f:?} at step {k}"));
                sim.with(|d| {
                    let now = d.ops;
                    d.plan.insert(now + k, f);
                });
            }
            let errors = sim.with(|d| d.errors);
            let mut x = sim.clone();
            let r = lib(|| s.write(&mut x)).map_err(|p| panicked(&p, "writing"))?;
            let failed = sim.with(|d| d.errors) > errors;
            sim.heal();
            sim.with(|d| (d.chunk_r, d.chunk_w, d.eintr) = delivered);
            match r {
                Ok(()) if failed => {
                    return viol("failure-acknowledged", "a write that failed was reported as done");
                }
                Ok(()) => {
                    // Also behind a fault that was not hit.
                    let offs = judge(m, &sim.content(), at, &before)?;
                    ctx.probe(match (row, m.given.is_some()) {
                        (true, false) => "row_calculated",
                        (true, true) => "row_given",
                        (false, false) => "table_calculated",
                        (false, true) => "table_given",
                    });
                    read_back(sim, s, start_of(m, at), &offs)?;
                }
                Err(e) => {
                    if !failed && fits {
                        return viol("refused", format!("what fits is not written: {e}"));
                    }
                    ctx.probe(if failed { "write_failed" } else { "refused_offsets" });
                    outside(m, &sim.content(), at, &before, size)?;
                }
            }
        }
    }
    ctx.nontrivial = true;
    Ok(())
}

fn read_back(sim: &Sim, s: &dyn Subject, start: usize, offs: &[usize]) -> R {
    seek_to(sim, start);
    let mut x = sim.clone();
    let r = lib(|| s.reads_same(&mut x, offs)).map_err(|p| panicked(&p, "reading back"))?;
    match r {
        Err(e) => viol("unreadable", format!("what was written cannot be read: {e}")),
        Ok((true, true)) => Ok(()),
        Ok((same, _)) => viol(
            "reads-differently",
            if same { "the offsets read back are not those that were written" } else { "what was written reads back differently" },
        ),
    }
}
