//! Glue between the generated databases and rekordcrate's PDB API: page types, edits with their
//! byte-level meaning, access paths and dumps.

use crate::ctx::{lib, Panicked};
use crate::gen_pdb::{ascii_text, gen_row, index_capacity, short_ascii, Db, Kind, PageM, Sem, HEAP};
use crate::simio::Sim;
use crate::tape::Tape;
use binrw::{BinRead, BinWrite, Endian};
use fallible_iterator::FallibleIterator;
use rekordcrate::pdb::bitfields::PageFlags;
use rekordcrate::pdb::ext::{ExtPageType, ExtRow, ParentId, TagId};
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::string::DeviceSQLString;
use rekordcrate::pdb::*;
use rekordcrate::util::{MaybeCalculated, RekordcrateError, TableIndex};
use std::io::{Cursor, Read, Seek};

pub type E = RekordcrateError;

pub fn dt(ext: bool) -> DatabaseType {
    if ext {
        DatabaseType::Ext
    } else {
        DatabaseType::Plain
    }
}

pub fn page_type(kind: Kind) -> PageType {
    use PlainPageType as P;
    let p = match kind {
        Kind::Track => P::Tracks,
        Kind::Genre => P::Genres,
        Kind::Artist => P::Artists,
        Kind::Album => P::Albums,
        Kind::Label => P::Labels,
        Kind::Key => P::Keys,
        Kind::Color => P::Colors,
        Kind::Node => P::PlaylistTree,
        Kind::Entry => P::PlaylistEntries,
        Kind::HistPlaylist => P::HistoryPlaylists,
        Kind::HistEntry => P::HistoryEntries,
        Kind::Artwork => P::Artwork,
        Kind::Column => P::Columns,
        Kind::Menu => P::Menu,
        Kind::History => P::History,
        Kind::Tag => return PageType::Ext(ExtPageType::Tag),
        Kind::TrackTag => return PageType::Ext(ExtPageType::TrackTag),
        Kind::Unknown(n) => return PageType::Unknown(n),
    };
    PageType::Plain(p)
}

pub fn pidx(p: u32) -> PageIndex {
    PageIndex::try_from(p).expect("page index")
}

pub fn parse_row(kind: Kind, bytes: &[u8]) -> Result<Row, binrw::Error> {
    // Offsets in rows are relative to the row start and may be followed by nothing.
    Row::read_options(&mut Cursor::new(bytes), Endian::Little, (page_type(kind),))
}

/// A row of these bytes; `calc`: the library is to calculate the offsets of its strings.
pub fn make_row(kind: Kind, bytes: &[u8], calc: bool) -> Result<Row, binrw::Error> {
    let mut row = parse_row(kind, bytes)?;
    if calc {
        match &mut row {
            Row::Plain(PlainRow::Track(r)) => r.offsets.offsets = MaybeCalculated::Calculated,
            Row::Plain(PlainRow::Artist(r)) => r.offsets.offsets = MaybeCalculated::Calculated,
            Row::Ext(ExtRow::Tag(r)) => r.offsets.offsets = MaybeCalculated::Calculated,
            _ => {}
        }
    }
    Ok(row)
}

/// The row as it is read back: offsets that were left to be calculated are there.
pub fn settled(row: &Row) -> Row {
    let kind = match row {
        Row::Plain(PlainRow::Track(r)) if r.offsets.offsets == MaybeCalculated::Calculated => Kind::Track,
        Row::Plain(PlainRow::Artist(r)) if r.offsets.offsets == MaybeCalculated::Calculated => Kind::Artist,
        Row::Ext(ExtRow::Tag(r)) if r.offsets.offsets == MaybeCalculated::Calculated => Kind::Tag,
        _ => return row.clone(),
    };
    let mut c = Cursor::new(vec![]);
    row.write_options(&mut c, Endian::Little, ())
        .ok()
        .and_then(|()| parse_row(kind, c.get_ref()).ok())
        .unwrap_or_else(|| row.clone())
}

pub fn settled_page(page: &Page) -> Page {
    let mut p = page.clone();
    if let Some(d) = p.content.as_data_mut() {
        for r in d.rows.values_mut() {
            *r = settled(r);
        }
    }
    p
}

/// Where the offset table of a row of this kind is, and how many strings it has.
pub fn table_of(kind: Kind) -> Option<(usize, usize)> {
    match kind {
        Kind::Track => Some((0x5C, 21)),
        Kind::Artist => Some((8, 1)),
        Kind::Album => Some((0x14, 1)),
        Kind::Tag => Some((0x1C, 2)),
        _ => None,
    }
}

/// Length of the string that starts here.
pub fn str_len(b: &[u8]) -> Option<usize> {
    let f = *b.first()?;
    if f & 1 == 1 {
        Some((f >> 1) as usize)
    } else {
        Some(u16::from_le_bytes([*b.get(1)?, *b.get(2)?]) as usize)
    }
}

/// UTF-16 text, which has to be aligned (and not an ISRC, which has the same flags).
pub fn is_ucs2(s: &[u8]) -> bool {
    let isrc = s.len() == 18 && s[4] == 3 && s[17] == 0 && s[5..17].iter().all(u8::is_ascii_graphic);
    s[0] == 0x90 && !isrc
}

/// The same row with its strings one behind the other, the way calculated offsets are. None: an
/// offset does not fit.
pub fn laid_out(rm: &crate::gen_pdb::RowM) -> Option<crate::gen_pdb::RowM> {
    let (at, n) = table_of(rm.kind)?;
    let wide = rm.bytes[0] & 4 != 0;
    let w = if wide { 2 } else { 1 };
    let off = |i: usize| {
        let p = at + (i + 1) * w;
        if wide {
            u16::from_le_bytes([rm.bytes[p], rm.bytes[p + 1]]) as usize
        } else {
            rm.bytes[p] as usize
        }
    };
    let mut out = crate::gen_pdb::RowM {
        bytes: rm.bytes[..at + (n + 1) * w].to_vec(),
        gaps: vec![],
        calc: true,
        ..rm.clone()
    };
    for i in 0..n {
        let old = off(i);
        let s = rm.bytes.get(old..old + str_len(&rm.bytes[old..])?)?;
        if is_ucs2(s) {
            while out.bytes.len() % 4 != 0 {
                out.gaps.push(out.bytes.len());
                out.bytes.push(0);
            }
        }
        let new = out.bytes.len();
        let p = at + (i + 1) * w;
        if wide {
            out.bytes[p..p + 2].copy_from_slice(&u16::try_from(new).ok()?.to_le_bytes());
        } else {
            out.bytes[p] = u8::try_from(new).ok()?;
        }
        if let Some((e, len)) = rm.edit_str {
            if e == old + 1 {
                out.edit_str = Some((new + 1, len));
            }
        }
        out.bytes.extend_from_slice(s);
    }
    Some(out)
}

/// Everything observable of a database: header and every page, or the error for it (as a fixed
/// marker - error texts are not compared).
pub fn dump_db<R: Read + Seek>(db: &mut Database<R>, pages: u32) -> Vec<String> {
    let mut out = vec![format!("{:?}", db.get_header())];
    for p in 1..=pages {
        out.push(match db.load_page(pidx(p)) {
            Ok(pg) => format!("{pg:?}"),
            Err(_) => "<error>".into(),
        });
    }
    out
}

/// A change of one page or of the header through the public API, and the bytes it stands for.
#[derive(Clone, Debug)]
pub enum What {
    HdrUnknown(u32),
    HdrSequence(u32),
    /// Never less than the number of pages, so that no page drops out of use.
    HdrNextUnused(u32),
    /// First (false) or last page of a table.
    HdrTable(usize, bool, u32),
    PageUnknown1(u32),
    PageUnknown2(u32),
    /// Everything but the flag that says whether this is an index page.
    PageFlags(u8),
    /// Only of the last page of a table, where nothing follows it.
    PageNext(u32),
    DataHdr(usize, u16),
    GroupUnknown(usize, u16),
    IdxA(u16),
    IdxB(u16),
    IdxNextOffset(u16),
    IdxFirstEmpty(u16),
    IdxEntry(usize, u32, u8),
    RowU32 { off: u16, field: usize, v: u32 },
    RowText { off: u16, at: usize, text: String },
    RowU8 { off: u16, field: usize, v: u8 },
    /// Any field of a row of any kind: the row is replaced by one that differs in that field.
    RowBytes { kind: Kind, off: u16, field: usize, v: Vec<u8> },
    /// The row in this slot is deleted; so many valid rows remain.
    Delete { off: u16, slot: usize, valid: u16 },
    /// An entry is added to an index page that has so many.
    IdxPush { n: usize, v: u32 },
}

/// What can be stored as a page index through the API.
fn page_number(v: u32) -> Option<u32> {
    (v < 0x03ff_ffff).then_some(v)
}

/// Fields of a row that hold any value without changing how the rest of the row is read: offset
/// and width.
fn free_fields(kind: Kind) -> &'static [(usize, usize)] {
    match kind {
        Kind::Album => &[(2, 2), (4, 4), (8, 4), (12, 4), (16, 4)],
        Kind::Artist => &[(2, 2), (4, 4)],
        Kind::Artwork | Kind::Genre | Kind::Label | Kind::HistPlaylist => &[(0, 4)],
        Kind::Color => &[(0, 4), (4, 1), (6, 2)],
        Kind::HistEntry | Kind::Entry => &[(0, 4), (4, 4), (8, 4)],
        Kind::History => &[(2, 2), (4, 4)],
        Kind::Key => &[(0, 4), (4, 4)],
        Kind::Node => &[(0, 4), (4, 4), (8, 4), (12, 4), (16, 4)],
        Kind::Column => &[(0, 2), (2, 2)],
        Kind::Track => &[
            (2, 2),
            (4, 4),
            (8, 4),
            (12, 4),
            (16, 4),
            (20, 4),
            (24, 2),
            (26, 2),
            (28, 4),
            (32, 4),
            (36, 4),
            (40, 4),
            (44, 4),
            (48, 4),
            (52, 4),
            (56, 4),
            (60, 4),
            (64, 4),
            (68, 4),
            (72, 4),
            (76, 2),
            (78, 2),
            (80, 2),
            (82, 2),
            (84, 2),
            (86, 2),
            (89, 1),
        ],
        Kind::Menu => &[(0, 2), (2, 2), (4, 1), (6, 2)],
        Kind::Tag => &[
            (2, 2),
            (4, 4),
            (8, 4),
            (12, 4),
            (16, 4),
            (20, 4),
            (24, 4),
        ],
        Kind::TrackTag => &[(4, 4), (8, 4), (12, 4)],
        Kind::Unknown(_) => &[],
    }
}

impl What {
    /// Whether this edits the row at that place of the heap.
    pub fn row(&self) -> Option<u16> {
        match self {
            What::RowU32 { off, .. }
            | What::RowU8 { off, .. }
            | What::RowText { off, .. }
            | What::RowBytes { off, .. } => Some(*off),
            _ => None,
        }
    }
    /// The same kind of edit of the same place, storing the value `b` stands for.
    pub fn with_bytes(&self, b: &[u8]) -> Option<What> {
        let u16_ = || Some(u16::from_le_bytes(b.try_into().ok()?));
        let u32_ = || Some(u32::from_le_bytes(b.try_into().ok()?));
        Some(match self {
            What::HdrUnknown(_) => What::HdrUnknown(u32_()?),
            What::HdrSequence(_) => What::HdrSequence(u32_()?),
            What::HdrNextUnused(_) => What::HdrNextUnused(u32_()?),
            What::HdrTable(i, l, _) => What::HdrTable(*i, *l, page_number(u32_()?)?),
            What::PageFlags(_) => What::PageFlags(*b.first()?),
            What::PageNext(_) => What::PageNext(page_number(u32_()?)?),
            What::RowBytes { kind, off, field, .. } => What::RowBytes {
                kind: *kind,
                off: *off,
                field: *field,
                v: b.to_vec(),
            },
            What::Delete { .. } | What::IdxPush { .. } => return None,
            What::PageUnknown1(_) => What::PageUnknown1(u32_()?),
            What::PageUnknown2(_) => What::PageUnknown2(u32_()?),
            What::DataHdr(i, _) => What::DataHdr(*i, u16_()?),
            What::GroupUnknown(g, _) => What::GroupUnknown(*g, u16_()?),
            What::IdxA(_) => What::IdxA(u16_()?),
            What::IdxB(_) => What::IdxB(u16_()?),
            What::IdxNextOffset(_) => What::IdxNextOffset(u16_()?),
            What::IdxFirstEmpty(_) => What::IdxFirstEmpty(u16_()?),
            What::IdxEntry(i, ..) => {
                let v = u32_()?;
                if v >> 3 > 0x03ff_fffe {
                    return None;
                }
                What::IdxEntry(*i, v >> 3, (v & 7) as u8)
            }
            What::RowU32 { off, field, .. } => What::RowU32 {
                off: *off,
                field: *field,
                v: u32_()?,
            },
            What::RowU8 { off, field, .. } => What::RowU8 {
                off: *off,
                field: *field,
                v: *b.first()?,
            },
            What::RowText { off, at, .. } => {
                let text = String::from_utf8(b.to_vec()).ok()?;
                if !text.is_ascii() {
                    return None;
                }
                What::RowText {
                    off: *off,
                    at: *at,
                    text,
                }
            }
        })
    }
}

#[derive(Clone, Debug)]
pub struct Edit {
    /// 0: the database header.
    pub page: u32,
    pub what: What,
    /// Absolute file position and new bytes.
    pub at: usize,
    pub bytes: Vec<u8>,
    /// Further places that change with it.
    pub more: Vec<(usize, Vec<u8>)>,
}

/// Draw an edit that is possible on `page` of the current model, if any.
pub fn gen_edit(t: &mut Tape, db: &Db, page: u32) -> Option<Edit> {
    let put = |what: What, at: usize, bytes: &[u8]| {
        Some(Edit {
            page,
            what,
            at,
            bytes: bytes.to_vec(),
            more: vec![],
        })
    };
    if page == 0 {
        let v = t.u32();
        return match t.draw(if db.tables.is_empty() { 5 } else { 8 }) {
            0 | 1 => put(What::HdrUnknown(v), 16, &v.to_le_bytes()),
            2 | 3 => put(What::HdrSequence(v), 20, &v.to_le_bytes()),
            4 => {
                let v = db.next_unused + t.draw(1 << 20) as u32;
                put(What::HdrNextUnused(v), 12, &v.to_le_bytes())
            }
            _ => {
                // Near the end as often as anywhere.
                let n = db.tables.len();
                let i = if t.chance(1, 2) { n - 1 } else { t.usize(n) };
                let last = t.chance(1, 2);
                let v = t.draw(u64::from(db.next_unused) + 9) as u32;
                put(
                    What::HdrTable(i, last, v),
                    28 + 16 * i + if last { 12 } else { 8 },
                    &v.to_le_bytes(),
                )
            }
        };
    }
    let base = db.page_base(page);
    let mk = |what: What, at: usize, bytes: &[u8]| put(what, base + at, bytes);
    let page_next = |t: &mut Tape| {
        let v = t.draw(0x03ff_ffff) as u32;
        if db.tables.iter().any(|tb| tb.last == page) {
            mk(What::PageNext(v), 0x0C, &v.to_le_bytes())
        } else {
            mk(What::PageUnknown1(v), 0x10, &v.to_le_bytes())
        }
    };
    match &db.pages[page as usize - 1] {
        PageM::Blank => None,
        PageM::Index { entries } => {
            let n = *entries;
            let cap = index_capacity(db.page_size);
            match t.draw(if n > 0 { 12 } else { 8 }) {
                0 => {
                    let v = t.u32();
                    mk(What::PageUnknown1(v), 0x10, &v.to_le_bytes())
                }
                5 => page_next(t),
                6 => {
                    let v = t.u8() | 0x40;
                    mk(What::PageFlags(v), 27, &[v])
                }
                7 => {
                    if n >= cap {
                        return None;
                    }
                    let v = ((t.draw(0x03ff_fffe) as u32) << 3) | t.draw(8) as u32;
                    let mut e = mk(
                        What::IdxPush { n, v },
                        0x38,
                        &(n as u16 + 1).to_le_bytes(),
                    )?;
                    e.more.push((base + 0x3C + 4 * n, v.to_le_bytes().to_vec()));
                    Some(e)
                }
                1 => {
                    let v = t.u16();
                    mk(What::IdxA(v), 0x20, &v.to_le_bytes())
                }
                2 => {
                    let v = t.u16();
                    mk(What::IdxB(v), 0x22, &v.to_le_bytes())
                }
                3 => {
                    let v = t.u16();
                    mk(What::IdxNextOffset(v), 0x26, &v.to_le_bytes())
                }
                4 => {
                    let v = t.u16();
                    mk(What::IdxFirstEmpty(v), 0x3A, &v.to_le_bytes())
                }
                _ => {
                    let i = t.usize(n);
                    let p = t.draw(0x03ff_fffe) as u32;
                    let f = t.draw(8) as u8;
                    mk(
                        What::IdxEntry(i, p, f),
                        0x3C + 4 * i,
                        &((p << 3) | u32::from(f)).to_le_bytes(),
                    )
                }
            }
        }
        PageM::Data { slots, .. } => {
            let present: Vec<_> = slots.iter().filter(|s| s.present).collect();
            let k = t.draw(14);
            if k >= 12 && !present.is_empty() {
                let s = present[t.usize(present.len())];
                let slot = slots.iter().position(|x| x.off == s.off && x.present)?;
                let g = slot / 16;
                let mut flags = 0u16;
                for (i, x) in slots.iter().skip(g * 16).take(16).enumerate() {
                    if x.present && g * 16 + i != slot {
                        flags |= 1 << i;
                    }
                }
                let valid = present.len() as u16 - 1;
                let packed = slots.len() as u32 | (u32::from(valid) << 13);
                let mut e = mk(
                    What::Delete {
                        off: s.off,
                        slot,
                        valid,
                    },
                    0x18,
                    &packed.to_le_bytes()[..3],
                )?;
                e.more.push((
                    base + db.page_size - 36 * (g + 1) + 32,
                    flags.to_le_bytes().to_vec(),
                ));
                return Some(e);
            }
            if k >= 10 && !present.is_empty() {
                let s = present[t.usize(present.len())];
                let f = free_fields(s.row.kind);
                if !f.is_empty() {
                    let (field, n) = *t.pick(f);
                    let v = t.u32().to_le_bytes()[..n].to_vec();
                    let b = v.clone();
                    return mk(
                        What::RowBytes {
                            kind: s.row.kind,
                            off: s.off,
                            field,
                            v,
                        },
                        HEAP + s.off as usize + field,
                        &b,
                    );
                }
            }
            if k >= 4 && !present.is_empty() {
                let s = present[t.usize(present.len())];
                let rb = HEAP + s.off as usize;
                let v32 = t.id32();
                let fields: &[usize] = match s.row.kind {
                    Kind::Entry => &[0, 4, 8],
                    Kind::Node => &[0, 12],
                    Kind::Artist => &[4],
                    Kind::Track => &[68, 72],
                    Kind::Tag => &[4, 8, 12, 16, 20, 24],
                    Kind::TrackTag => &[4, 8, 12],
                    _ => &[],
                };
                if let (Some((at, len)), true) = (s.row.edit_str, t.chance(1, 2)) {
                    let mut r = t.seed();
                    let text = ascii_text(&mut r, len);
                    let b = text.as_bytes().to_vec();
                    return mk(
                        What::RowText {
                            off: s.off,
                            at,
                            text,
                        },
                        rb + at,
                        &b,
                    );
                }
                if s.row.kind == Kind::Track && t.chance(1, 4) {
                    let v = t.u8();
                    return mk(
                        What::RowU8 {
                            off: s.off,
                            field: 89,
                            v,
                        },
                        rb + 89,
                        &[v],
                    );
                }
                if s.row.kind == Kind::Menu {
                    let v = t.u8();
                    return mk(
                        What::RowU8 {
                            off: s.off,
                            field: 4,
                            v,
                        },
                        rb + 4,
                        &[v],
                    );
                }
                if !fields.is_empty() {
                    let f = *t.pick(fields);
                    return mk(
                        What::RowU32 {
                            off: s.off,
                            field: f,
                            v: v32,
                        },
                        rb + f,
                        &v32.to_le_bytes(),
                    );
                }
            }
            match k % 6 {
                4 => page_next(t),
                5 => {
                    let v = t.u8() & !0x40;
                    mk(What::PageFlags(v), 27, &[v])
                }
                0 => {
                    let v = t.u32();
                    mk(What::PageUnknown1(v), 0x10, &v.to_le_bytes())
                }
                1 => {
                    let v = t.u32();
                    mk(What::PageUnknown2(v), 0x14, &v.to_le_bytes())
                }
                2 if !slots.is_empty() => {
                    let g = t.usize(slots.len().div_ceil(16));
                    let v = t.u16();
                    mk(
                        What::GroupUnknown(g, v),
                        db.page_size - 36 * (g + 1) + 34,
                        &v.to_le_bytes(),
                    )
                }
                _ => {
                    let i = t.usize(4);
                    let v = t.u16();
                    mk(What::DataHdr(i, v), 0x20 + 2 * i, &v.to_le_bytes())
                }
            }
        }
    }
}

/// Apply an edit to a loaded page. None: the page does not have what the model says it has.
pub fn apply_edit(page: &mut Page, what: &What) -> Option<()> {
    match what {
        What::HdrUnknown(_)
        | What::HdrSequence(_)
        | What::HdrNextUnused(_)
        | What::HdrTable(..) => return None,
        What::PageFlags(v) => page.header.page_flags = PageFlags::from_bytes([*v]),
        What::PageNext(v) => page.header.next_page = pidx(*v),
        What::IdxPush { n, v } => {
            let c = page.content.as_index_mut()?;
            if c.entries.len() != *n {
                return None;
            }
            let e = IndexEntry::try_from((pidx(v >> 3), (v & 7) as u8)).ok()?;
            c.entries.push(e);
            c.header.num_entries += 1;
        }
        What::RowBytes {
            kind,
            off,
            field,
            v,
        } => {
            let row = page.content.as_data_mut()?.rows.get_mut(off)?;
            let mut c = Cursor::new(vec![]);
            row.write_options(&mut c, Endian::Little, ()).ok()?;
            let mut b = c.into_inner();
            b.get_mut(*field..field + v.len())?.copy_from_slice(v);
            *row = parse_row(*kind, &b).ok()?;
        }
        What::Delete { off, slot, valid } => {
            let d = page.content.as_data_mut()?;
            d.row_groups.get_mut(slot / 16)?.row_presence_flags &= !(1 << (slot % 16));
            d.rows.remove(off)?;
            page.header.packed_row_counts.set_num_rows_valid(*valid);
        }
        What::PageUnknown1(v) => page.header.unknown1 = *v,
        What::PageUnknown2(v) => page.header.unknown2 = *v,
        What::DataHdr(i, v) => {
            let h = &mut page.content.as_data_mut()?.header;
            *match i {
                0 => &mut h.unknown5,
                1 => &mut h.unknown_not_num_rows_large,
                2 => &mut h.unknown6,
                _ => &mut h.unknown7,
            } = *v;
        }
        What::GroupUnknown(g, v) => {
            page.content.as_data_mut()?.row_groups.get_mut(*g)?.unknown = *v
        }
        What::IdxA(v) => page.content.as_index_mut()?.header.unknown_a = *v,
        What::IdxB(v) => page.content.as_index_mut()?.header.unknown_b = *v,
        What::IdxNextOffset(v) => page.content.as_index_mut()?.header.next_offset = *v,
        What::IdxFirstEmpty(v) => page.content.as_index_mut()?.header.first_empty = *v,
        What::IdxEntry(i, p, f) => {
            *page.content.as_index_mut()?.entries.get_mut(*i)? =
                IndexEntry::try_from((pidx(*p), *f)).ok()?;
        }
        What::RowU32 { off, field, v } => {
            let row = page.content.as_data_mut()?.rows.get_mut(off)?;
            edit_u32(row, *field, *v)?;
        }
        What::RowU8 { off, field, v } => match page.content.as_data_mut()?.rows.get_mut(off)? {
            Row::Plain(PlainRow::Track(r)) if *field == 89 => r.rating = *v,
            Row::Plain(PlainRow::Menu(r)) if *field == 4 => r.unknown = *v,
            _ => return None,
        },
        What::RowText { off, text, .. } => {
            let s = DeviceSQLString::new(text).ok()?;
            match page.content.as_data_mut()?.rows.get_mut(off)? {
                Row::Plain(PlainRow::Track(r)) => r.offsets.inner.title = s,
                Row::Plain(PlainRow::PlaylistTreeNode(r)) => r.name = s,
                Row::Plain(PlainRow::Artist(r)) => r.offsets.inner.name = s,
                Row::Plain(PlainRow::ColumnEntry(r)) => r.column_name = s,
                _ => return None,
            }
        }
    }
    Some(())
}

/// Apply an edit of the database header.
pub fn apply_hdr(h: &mut Header, what: &What) -> Option<()> {
    match what {
        What::HdrUnknown(v) => h.unknown = *v,
        What::HdrSequence(v) => h.sequence = *v,
        What::HdrNextUnused(v) => h.next_unused_page = pidx(*v),
        What::HdrTable(i, last, v) => {
            let t = h.tables.get_mut(*i)?;
            *if *last {
                &mut t.last_page
            } else {
                &mut t.first_page
            } = pidx(*v);
        }
        _ => return None,
    }
    Some(())
}

/// Keep the model in step with an edit that changes what a page consists of.
pub fn adopt_edit(db: &mut Db, e: &Edit) {
    match (&e.what, e.page.checked_sub(1).map(|p| &mut db.pages[p as usize])) {
        (What::Delete { slot, .. }, Some(PageM::Data { slots, .. })) => {
            slots[*slot].present = false;
        }
        (What::IdxPush { .. }, Some(PageM::Index { entries })) => *entries += 1,
        _ => {}
    }
}

/// Whether the header still gives this table the pages it has in the model.
pub fn table_intact(h: &Header, m: &Db, ti: usize) -> bool {
    h.tables.get(ti).is_some_and(|t| {
        t.first_page == pidx(m.tables[ti].first) && t.last_page == pidx(m.tables[ti].last)
    })
}

fn edit_u32(row: &mut Row, field: usize, v: u32) -> Option<()> {
    match (row, field) {
        (Row::Plain(PlainRow::PlaylistEntry(r)), 0) => r.entry_index = v,
        (Row::Plain(PlainRow::PlaylistEntry(r)), 4) => r.track_id = TrackId(v),
        (Row::Plain(PlainRow::PlaylistEntry(r)), 8) => r.playlist_id = PlaylistTreeNodeId(v),
        (Row::Plain(PlainRow::PlaylistTreeNode(r)), 0) => r.parent_id = PlaylistTreeNodeId(v),
        (Row::Plain(PlainRow::PlaylistTreeNode(r)), 12) => r.id = PlaylistTreeNodeId(v),
        (Row::Plain(PlainRow::Artist(r)), 4) => r.id = ArtistId(v),
        (Row::Plain(PlainRow::Track(r)), 68) => r.artist_id = ArtistId(v),
        (Row::Plain(PlainRow::Track(r)), 72) => r.id = TrackId(v),
        (Row::Ext(ExtRow::Tag(r)), 4) => r.unknown1 = v,
        (Row::Ext(ExtRow::Tag(r)), 8) => r.unknown2 = v,
        (Row::Ext(ExtRow::Tag(r)), 12) => r.parent_id = ParentId(std::num::NonZero::new(v)),
        (Row::Ext(ExtRow::Tag(r)), 16) => r.position = v,
        (Row::Ext(ExtRow::Tag(r)), 20) => r.id = TagId(v),
        (Row::Ext(ExtRow::Tag(r)), 24) => r.raw_is_category = v,
        (Row::Ext(ExtRow::TrackTag(r)), 4) => r.track_id = TrackId(v),
        (Row::Ext(ExtRow::TrackTag(r)), 8) => r.tag_id = TagId(v),
        (Row::Ext(ExtRow::TrackTag(r)), 12) => r.unknown_const = v,
        _ => return None,
    }
    Some(())
}

/// How a page is reached.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Path {
    Direct,
    ByTable,
    ByType,
}

/// Run `f` on page `page`, reached through `path`.
pub fn on_page<R: Read + Seek, T>(
    db: &mut Database<R>,
    m: &Db,
    page: u32,
    path: Path,
    f: impl FnOnce(&mut Page) -> T,
) -> Result<Option<T>, E> {
    let owner = m.tables.iter().position(|t| t.chain.contains(&page));
    match (path, owner) {
        // A table whose first or last page was edited no longer leads there.
        (Path::ByTable | Path::ByType, Some(ti)) if table_intact(db.get_header(), m, ti) => {
            let kind = m.tables[ti].kind;
            let first_of_kind = m.tables.iter().position(|t| t.kind == kind) == Some(ti);
            let mut it = if path == Path::ByType && first_of_kind {
                db.iter_pages(page_type(kind))?
            } else {
                db.iter_pages_for_table(TableIndex::from(ti))?
            };
            while let Some(p) = it.next()? {
                if p.header.page_index == pidx(page) {
                    return Ok(Some(f(p)));
                }
            }
            Ok(None)
        }
        _ => Ok(Some(f(db.load_page(pidx(page))?))),
    }
}

/// Rows of a table through the typed row iterator, printed.
pub fn typed_rows<R: Read + Seek>(
    db: &mut Database<R>,
    kind: Kind,
) -> Option<Result<Vec<String>, E>> {
    macro_rules! go {
        ($($k:ident => $t:ty),* $(,)?) => {
            match kind {
                $(Kind::$k => {
                    let it = match db.iter_rows::<$t>() { Ok(i) => i, Err(e) => return Some(Err(e)) };
                    Some(it.map(|r| Ok(settled_debug(r))).collect::<Vec<String>>())
                })*
                _ => None,
            }
        };
    }
    go!(Track => Track, Genre => Genre, Artist => Artist, Album => Album, Label => Label, Key => Key, Color => Color,
        Node => PlaylistTreeNode, Entry => PlaylistEntry, HistPlaylist => HistoryPlaylist, HistEntry => HistoryEntry,
        Artwork => Artwork, Column => ColumnEntry, Menu => Menu, History => History)
}

/// A typed row as it is printed when it is read back.
fn settled_debug<T: std::fmt::Debug + 'static>(r: &T) -> String {
    let any = r as &dyn std::any::Any;
    if let Some(r) = any.downcast_ref::<Track>() {
        return row_debug(&settled(&Row::Plain(PlainRow::Track(r.clone()))));
    }
    if let Some(r) = any.downcast_ref::<Artist>() {
        return row_debug(&settled(&Row::Plain(PlainRow::Artist(r.clone()))));
    }
    format!("{r:?}")
}

/// A row printed the way `typed_rows` prints it.
pub fn row_debug(row: &Row) -> String {
    match row {
        Row::Plain(PlainRow::Track(r)) => format!("{r:?}"),
        Row::Plain(PlainRow::Genre(r)) => format!("{r:?}"),
        Row::Plain(PlainRow::Artist(r)) => format!("{r:?}"),
        Row::Plain(PlainRow::Album(r)) => format!("{r:?}"),
        Row::Plain(PlainRow::Label(r)) => format!("{r:?}"),
        Row::Plain(PlainRow::Key(r)) => format!("{r:?}"),
        Row::Plain(PlainRow::Color(r)) => format!("{r:?}"),
        Row::Plain(PlainRow::PlaylistTreeNode(r)) => format!("{r:?}"),
        Row::Plain(PlainRow::PlaylistEntry(r)) => format!("{r:?}"),
        Row::Plain(PlainRow::HistoryPlaylist(r)) => format!("{r:?}"),
        Row::Plain(PlainRow::HistoryEntry(r)) => format!("{r:?}"),
        Row::Plain(PlainRow::Artwork(r)) => format!("{r:?}"),
        Row::Plain(PlainRow::ColumnEntry(r)) => format!("{r:?}"),
        Row::Plain(PlainRow::Menu(r)) => format!("{r:?}"),
        Row::Plain(PlainRow::History(r)) => format!("{r:?}"),
        r => format!("{r:?}"),
    }
}

/// Parse page `page` of an in-memory image with a fresh database.
pub fn ref_page(image: &[u8], ext: bool, page: u32) -> Result<Page, String> {
    let mut db = Database::open_non_persistent(Cursor::new(image), dt(ext))
        .map_err(|e| format!("open: {e}"))?;
    let p = db.load_page(pidx(page)).map_err(|e| format!("load: {e}"))?;
    Ok(p.clone())
}

/// The bytes of a page as the library writes them over the given previous contents.
pub fn page_over(page: &Page, before: &[u8]) -> Result<Vec<u8>, String> {
    let mut c = Cursor::new(before.to_vec());
    page.write_options(&mut c, Endian::Little, (before.len() as u32,))
        .map_err(|e| e.to_string())?;
    Ok(c.into_inner())
}

pub fn new_row(t: &mut Tape, kind: Kind) -> Option<(crate::gen_pdb::RowM, Row)> {
    if matches!(kind, Kind::Unknown(_)) {
        return None;
    }
    let mut rm = gen_row(t, kind);
    if matches!(kind, Kind::Track | Kind::Artist | Kind::Tag) && t.chance(1, 2) {
        if let Some(x) = laid_out(&rm) {
            rm = x;
        }
    }
    let row = lib(|| make_row(kind, &rm.bytes, rm.calc)).ok()?.ok()?;
    Some((rm, row))
}

pub fn open_rw(sim: &Sim, ext: bool) -> Result<Result<Database<Sim>, E>, Panicked> {
    lib(|| Database::open(sim.clone(), dt(ext)))
}

#[allow(unused)]
pub fn unused(_: Sem) {
    let _ = short_ascii("x");
}
