//! Independent byte-level generator and model of PDB databases.

use crate::tape::{Rng, Tape};

#[derive(Clone, Debug)]
pub struct StrM {
    pub bytes: Vec<u8>,
    pub text: Option<String>,
    /// Short ASCII form (single header byte): can be replaced by another ASCII text of equal length.
    pub short: bool,
    pub ucs2: bool,
}

pub fn short_ascii(s: &str) -> StrM {
    assert!(s.is_ascii() && s.len() <= 126);
    let mut b = vec![(((s.len() + 1) << 1) | 1) as u8];
    b.extend_from_slice(s.as_bytes());
    StrM {
        bytes: b,
        text: Some(s.into()),
        short: true,
        ucs2: false,
    }
}
pub fn long_ascii(s: &str) -> StrM {
    let mut b = vec![0x40];
    b.extend_from_slice(&((s.len() + 4) as u16).to_le_bytes());
    b.push(0);
    b.extend_from_slice(s.as_bytes());
    StrM {
        bytes: b,
        text: Some(s.into()),
        short: false,
        ucs2: false,
    }
}
pub fn ucs2(s: &str) -> StrM {
    let u: Vec<u16> = s.encode_utf16().collect();
    let mut b = vec![0x90];
    b.extend_from_slice(&((u.len() * 2 + 4) as u16).to_le_bytes());
    b.push(0);
    for x in u {
        b.extend_from_slice(&x.to_le_bytes());
    }
    StrM {
        bytes: b,
        text: Some(s.into()),
        short: false,
        ucs2: true,
    }
}
/// What the model calls a text that is not valid UTF-16.
pub const BAD: &str = "\u{10fffe}undecodable";
pub fn bad_str(r: &mut Rng) -> StrM {
    let mut s = ucs2("A\u{e4}bcd");
    let at = 4 + 2 * r.below(5) as usize;
    s.bytes[at..at + 2].copy_from_slice(&[0x34, 0xd8 + 4 * r.below(2) as u8]);
    s.text = Some(BAD.into());
    s
}
pub fn isrc(s: &str) -> StrM {
    let mut b = vec![0x90];
    b.extend_from_slice(&((s.len() + 2 + 4) as u16).to_le_bytes());
    b.push(0);
    b.push(3);
    b.extend_from_slice(s.as_bytes());
    b.push(0);
    StrM {
        bytes: b,
        text: Some(s.into()),
        short: false,
        ucs2: false,
    }
}
/// Encode text the way rekordbox does (used where the text matters, not the encoding).
pub fn any_str(s: &str) -> StrM {
    if s.is_ascii() && s.len() <= 126 {
        short_ascii(s)
    } else if s.is_ascii() {
        long_ascii(s)
    } else {
        ucs2(s)
    }
}

pub fn ascii_text(r: &mut Rng, n: usize) -> String {
    (0..n)
        .map(|_| (b' ' + (r.below(95) as u8)) as char)
        .collect()
}
pub fn uni_text(r: &mut Rng, n: usize) -> String {
    const POOL: [char; 14] = [
        'ä', 'Ö', 'é', '❤', '漢', 'ă', '字', '🎵', 'ß', 'Ж', 'A', 'z', '0', 'ñ',
    ];
    (0..n).map(|_| POOL[r.below(14) as usize]).collect()
}

pub fn gen_str(t: &mut Tape) -> StrM {
    match t.draw(12) {
        0..=5 => {
            let n = t.usize(14);
            let mut r = t.seed();
            short_ascii(&ascii_text(&mut r, n))
        }
        6 => {
            let n = t.usize(127);
            let mut r = t.seed();
            short_ascii(&ascii_text(&mut r, n))
        }
        7 => {
            let n = if t.chance(1, 10) {
                t.usize(1500)
            } else {
                t.usize(200)
            };
            let mut r = t.seed();
            long_ascii(&ascii_text(&mut r, n))
        }
        8..=10 => {
            let n = 1 + if t.chance(1, 20) { t.usize(600) } else { t.usize(20) };
            let mut r = t.seed();
            ucs2(&uni_text(&mut r, n))
        }
        _ => {
            let mut r = t.seed();
            let s: String = (0..12)
                .map(|_| (b'A' + r.below(26) as u8) as char)
                .collect();
            isrc(&s)
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Track,
    Genre,
    Artist,
    Album,
    Label,
    Key,
    Color,
    Node,
    Entry,
    HistPlaylist,
    HistEntry,
    Artwork,
    Column,
    Menu,
    History,
    Tag,
    TrackTag,
    Unknown(u32),
}

pub const PLAIN_KINDS: [Kind; 15] = [
    Kind::Track,
    Kind::Genre,
    Kind::Artist,
    Kind::Album,
    Kind::Label,
    Kind::Key,
    Kind::Color,
    Kind::Node,
    Kind::Entry,
    Kind::HistPlaylist,
    Kind::HistEntry,
    Kind::Artwork,
    Kind::Column,
    Kind::Menu,
    Kind::History,
];

impl Kind {
    pub fn code(self) -> u32 {
        match self {
            Kind::Track => 0,
            Kind::Genre => 1,
            Kind::Artist => 2,
            Kind::Album => 3,
            Kind::Label => 4,
            Kind::Key => 5,
            Kind::Color => 6,
            Kind::Node => 7,
            Kind::Entry => 8,
            Kind::HistPlaylist => 11,
            Kind::HistEntry => 12,
            Kind::Artwork => 13,
            Kind::Column => 16,
            Kind::Menu => 17,
            Kind::History => 19,
            Kind::Tag => 3,
            Kind::TrackTag => 4,
            Kind::Unknown(n) => n,
        }
    }
}

/// Semantic content of a row, where a check needs it.
#[derive(Clone, Debug)]
pub enum Sem {
    None,
    Node {
        parent: u32,
        id: u32,
        folder: bool,
        name: String,
    },
    Entry {
        index: u32,
        track: u32,
        playlist: u32,
    },
    Track {
        id: u32,
        artist: u32,
        title: String,
        path: String,
    },
    Artist {
        id: u32,
        name: String,
    },
}

#[derive(Clone, Debug)]
pub struct RowM {
    pub kind: Kind,
    pub bytes: Vec<u8>,
    /// Positions in `bytes` that belong to no field.
    pub gaps: Vec<usize>,
    pub sem: Sem,
    /// Offset in `bytes` of a short ASCII string that public API can replace, with its length.
    pub edit_str: Option<(usize, usize)>,
    /// The library is to calculate the offsets of its strings.
    pub calc: bool,
}

/// Row bytes, and the positions in them that belong to no field (padding).
struct B(Vec<u8>, Vec<usize>);
impl B {
    fn u8(&mut self, v: u8) {
        self.0.push(v)
    }
    fn u16(&mut self, v: u16) {
        self.0.extend_from_slice(&v.to_le_bytes())
    }
    fn u32(&mut self, v: u32) {
        self.0.extend_from_slice(&v.to_le_bytes())
    }
    fn s(&mut self, s: &StrM) {
        self.0.extend_from_slice(&s.bytes)
    }
}

/// Append an offset array (subtype bit 0x04 decides the width) and its strings; returns the
/// offsets of the strings.
fn offset_strings(
    b: &mut B,
    wide: bool,
    strs: &[StrM],
    gap: u64,
    r: &mut Rng,
    order: bool,
) -> Option<Vec<usize>> {
    let n = strs.len();
    let w = if wide { 2 } else { 1 };
    let arr_at = b.0.len();
    let mut at = arr_at + (n + 1) * w;
    let mut offs = vec![0usize; n];
    let mut data: Vec<u8> = vec![];
    let idx: Vec<usize> = if order {
        (0..n).collect()
    } else {
        (0..n).rev().collect()
    };
    for i in idx {
        let mut pad = if gap > 0 { r.below(gap) as usize } else { 0 };
        if strs[i].ucs2 {
            pad += (4 - (at + pad) % 4) % 4;
        }
        for _ in 0..pad {
            data.push(0);
            b.1.push(at);
            at += 1;
        }
        offs[i] = at;
        data.extend_from_slice(&strs[i].bytes);
        at += strs[i].bytes.len();
    }
    if wide {
        b.u16(3);
        for o in &offs {
            b.u16(u16::try_from(*o).ok()?);
        }
    } else {
        b.u8(3);
        for o in &offs {
            b.u8(u8::try_from(*o).ok()?);
        }
    }
    b.0.extend_from_slice(&data);
    Some(offs)
}

pub fn track_row(
    t: &mut Tape,
    id: u32,
    artist: u32,
    title: &StrM,
    path: &StrM,
    strs: Vec<StrM>,
) -> RowM {
    let mut b = B(vec![], vec![]);
    let wide = true;
    b.u16(0x24);
    b.u16(t.draw(200) as u16 * 0x20);
    b.u32(0x000c_0700);
    for _ in 0..4 {
        let v = t.id32();
        b.u32(v);
    }
    b.u16(19048);
    b.u16(30967);
    for _ in 0..5 {
        let v = t.id32();
        b.u32(v);
    }
    for _ in 0..5 {
        let v = t.id32();
        b.u32(v);
    }
    b.u32(artist);
    b.u32(id);
    for _ in 0..5 {
        let v = t.u16();
        b.u16(v);
    }
    b.u16(0x29);
    b.u8(t.draw(9) as u8);
    b.u8(t.draw(6) as u8);
    let ft = *t.pick(&[0u16, 1, 4, 5, 0xb, 0xc, 0x77, 0x100, 0xffff]);
    b.u16(ft);
    assert_eq!(b.0.len(), 0x5C);
    let mut all = strs;
    all[17] = title.clone();
    all[20] = path.clone();
    let mut r = t.seed();
    let order = !t.chance(1, 6);
    let offs = offset_strings(&mut b, wide, &all, 0, &mut r, order).unwrap();
    let edit = if title.short {
        Some((offs[17] + 1, title.bytes.len() - 1))
    } else {
        None
    };
    RowM {
        kind: Kind::Track,
        bytes: b.0,
        gaps: b.1,
        sem: Sem::Track {
            id,
            artist,
            title: title.text.clone().unwrap(),
            path: path.text.clone().unwrap(),
        },
        edit_str: edit,
        calc: false,
    }
}

pub fn node_row(parent: u32, unknown: u32, sort: u32, id: u32, folder: u32, name: &StrM) -> RowM {
    let mut b = B(vec![], vec![]);
    b.u32(parent);
    b.u32(unknown);
    b.u32(sort);
    b.u32(id);
    b.u32(folder);
    b.s(name);
    let edit = if name.short {
        Some((21, name.bytes.len() - 1))
    } else {
        None
    };
    RowM {
        kind: Kind::Node,
        bytes: b.0,
        gaps: b.1,
        sem: Sem::Node {
            parent,
            id,
            folder: folder > 0,
            name: name.text.clone().unwrap_or_default(),
        },
        edit_str: edit,
        calc: false,
    }
}

pub fn entry_row(index: u32, track: u32, playlist: u32) -> RowM {
    let mut b = B(vec![], vec![]);
    b.u32(index);
    b.u32(track);
    b.u32(playlist);
    RowM {
        kind: Kind::Entry,
        bytes: b.0,
        gaps: b.1,
        sem: Sem::Entry {
            index,
            track,
            playlist,
        },
        edit_str: None,
        calc: false,
    }
}

pub fn artist_row(t: &mut Tape, id: u32, name: &StrM) -> RowM {
    let wide = t.chance(1, 3);
    let mut b = B(vec![], vec![]);
    b.u16(if wide { 0x64 } else { 0x60 });
    b.u16(t.draw(100) as u16 * 0x20);
    b.u32(id);
    let mut r = t.seed();
    let offs = offset_strings(&mut b, wide, std::slice::from_ref(name), 6, &mut r, true).unwrap();
    let edit = if name.short {
        Some((offs[0] + 1, name.bytes.len() - 1))
    } else {
        None
    };
    RowM {
        kind: Kind::Artist,
        bytes: b.0,
        gaps: b.1,
        sem: Sem::Artist {
            id,
            name: name.text.clone().unwrap(),
        },
        edit_str: edit,
        calc: false,
    }
}

pub fn gen_row(t: &mut Tape, kind: Kind) -> RowM {
    let mut b = B(vec![], vec![]);
    match kind {
        Kind::Track => {
            let mut strs: Vec<StrM> = Vec::new();
            let busy = t.usize(4);
            for _ in 0..21 {
                strs.push(short_ascii(""));
            }
            for _ in 0..busy {
                let i = t.usize(21);
                strs[i] = gen_str(t);
            }
            let title = gen_str(t);
            let path = gen_str(t);
            let (id, artist) = (t.id32(), t.id32());
            return track_row(t, id, artist, &title, &path, strs);
        }
        Kind::Node => {
            let (p, u, s, i, f) = (t.id32(), t.id32(), t.id32(), t.id32(), t.draw(2) as u32);
            let name = gen_str(t);
            return node_row(p, u, s, i, f, &name);
        }
        Kind::Entry => {
            let (a, c, d) = (t.id32(), t.id32(), t.id32());
            return entry_row(a, c, d);
        }
        Kind::Artist => {
            let name = gen_str(t);
            let id = t.id32();
            return artist_row(t, id, &name);
        }
        Kind::Genre | Kind::Label | Kind::HistPlaylist | Kind::Artwork => {
            b.u32(t.id32());
            b.s(&gen_str(t));
        }
        Kind::Album => {
            let wide = t.chance(1, 3);
            b.u16(if wide { 0x84 } else { 0x80 });
            b.u16(t.draw(100) as u16 * 0x20);
            for _ in 0..4 {
                let v = t.id32();
                b.u32(v);
            }
            let s = gen_str(t);
            let mut r = t.seed();
            offset_strings(&mut b, wide, &[s], 6, &mut r, true).unwrap();
        }
        Kind::Key => {
            let v = t.id32();
            b.u32(v);
            b.u32(v);
            b.s(&gen_str(t));
        }
        Kind::Color => {
            b.u32(t.id32());
            b.u8(t.u8());
            b.u8(t.draw(9) as u8);
            b.u16(t.u16());
            b.s(&gen_str(t));
        }
        Kind::HistEntry => {
            for _ in 0..3 {
                let v = t.id32();
                b.u32(v);
            }
        }
        Kind::Column => {
            b.u16(t.u16());
            b.u16(t.u16());
            b.s(&gen_str(t));
        }
        Kind::Menu => {
            b.u16(t.u16());
            b.u16(t.u16());
            b.u8(t.u8());
            b.u8(t.draw(4) as u8);
            b.u16(t.u16());
        }
        Kind::History => {
            b.u16(0x280);
            b.u16(t.draw(100) as u16 * 0x20);
            b.u32(t.id32());
            b.u32(0);
            b.s(&gen_str(t));
            b.u16(0x1E19);
            b.s(&short_ascii("1000"));
            b.s(&gen_str(t));
        }
        Kind::Tag => {
            let wide = t.chance(1, 3);
            b.u16(if wide { 0x684 } else { 0x680 });
            b.u16(t.draw(100) as u16 * 0x20);
            for _ in 0..6 {
                let v = t.id32();
                b.u32(v);
            }
            let s = gen_str(t);
            let s2 = gen_str(t);
            let narrow_ok = 0x1C + 3 + s.bytes.len() + s2.bytes.len() + 24 < 256;
            let wide = if wide || !narrow_ok {
                b.0[0] = 0x84;
                true
            } else {
                false
            };
            let mut r = t.seed();
            offset_strings(&mut b, wide, &[s, s2], 4, &mut r, true).unwrap();
        }
        Kind::TrackTag => {
            b.u32(0);
            for _ in 0..3 {
                let v = t.id32();
                b.u32(v);
            }
        }
        Kind::Unknown(_) => {
            let n = 1 + t.usize(24);
            let mut r = t.seed();
            for _ in 0..n {
                b.u8(r.next() as u8);
            }
        }
    }
    RowM {
        kind,
        bytes: b.0,
        gaps: b.1,
        sem: Sem::None,
        edit_str: None,
        calc: false,
    }
}

#[derive(Clone, Debug)]
pub struct Slot {
    pub off: u16,
    pub present: bool,
    pub row: RowM,
}

#[derive(Clone, Debug)]
pub enum PageM {
    Blank,
    Index {
        entries: usize,
    },
    Data {
        slots: Vec<Slot>,
        used: u16,
        free: u16,
    },
}

#[derive(Clone, Debug)]
pub struct TableM {
    pub kind: Kind,
    pub first: u32,
    pub last: u32,
    pub chain: Vec<u32>,
}

#[derive(Clone, Debug)]
pub struct Db {
    pub ext: bool,
    pub page_size: usize,
    pub next_unused: u32,
    pub tables: Vec<TableM>,
    /// pages[i] is page i+1
    pub pages: Vec<PageM>,
    pub image: Vec<u8>,
}

pub const PAGE_HDR: usize = 0x20;
pub const HEAP: usize = 0x28;

fn put(img: &mut [u8], at: usize, b: &[u8]) {
    img[at..at + b.len()].copy_from_slice(b);
}

fn page_header(
    img: &mut [u8],
    base: usize,
    index: u32,
    ty: u32,
    next: u32,
    u1: u32,
    rows: u32,
    valid: u32,
    flags: u8,
    free: u16,
    used: u16,
) {
    put(img, base, &0u32.to_le_bytes());
    put(img, base + 4, &index.to_le_bytes());
    put(img, base + 8, &ty.to_le_bytes());
    put(img, base + 12, &next.to_le_bytes());
    put(img, base + 16, &u1.to_le_bytes());
    put(img, base + 20, &0u32.to_le_bytes());
    let packed = rows | (valid << 13);
    put(img, base + 24, &packed.to_le_bytes()[..3]);
    img[base + 27] = flags;
    put(img, base + 28, &free.to_le_bytes());
    put(img, base + 30, &used.to_le_bytes());
}

pub fn index_capacity(page_size: usize) -> usize {
    (page_size - 0x20 - 28 - 20) / 4
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub page_sizes: &'static [usize],
    pub max_tables: u64,
    pub max_rows: u64,
    pub max_pages: u64,
    /// At least this many pages in each table.
    pub min_pages: u64,
    pub unknown_tables: bool,
    pub ext: Option<bool>,
    pub kinds: &'static [Kind],
    pub blank: bool,
}

pub const ANY: Opts = Opts {
    page_sizes: &[4096, 512, 1024, 512, 256, 4096, 2048, 8192],
    max_tables: 6,
    max_rows: 20,
    max_pages: 3,
    min_pages: 0,
    unknown_tables: true,
    ext: None,
    kinds: &[],
    blank: true,
};

/// Now and then, something about the database is large.
pub fn grow(t: &mut Tape, o: &mut Opts) {
    match t.draw(200) {
        177..=181 => {
            o.max_rows = 200;
            o.max_pages = o.max_pages.min(2);
            o.max_tables = 2;
            o.page_sizes = &[4096, 8192, 4096, 16384];
            if o.kinds.is_empty() {
                o.kinds = &[Kind::Entry, Kind::Color, Kind::Genre, Kind::HistEntry, Kind::Menu];
            }
        }
        182..=186 => o.max_tables = 20,
        187..=191 => {
            o.max_pages = 24;
            o.max_tables = o.max_tables.min(3);
            o.max_rows = o.max_rows.min(6);
        }
        192..=196 => {
            o.page_sizes = &[16384, 32768, 65536, 12288];
            o.max_tables = 2;
            o.max_pages = 2;
        }
        199 => {
            // More pages than fit in a byte.
            o.page_sizes = &[256];
            o.min_pages = 260;
            o.max_pages = 420;
            o.max_tables = 2;
            o.max_rows = 2;
            if o.kinds.is_empty() {
                o.kinds = &[Kind::Entry, Kind::Color, Kind::Genre, Kind::HistEntry];
            }
        }
        _ => {}
    }
}

/// A planned data page: the rows to place in it.
#[derive(Clone, Debug, Default)]
pub struct PlannedPage {
    pub rows: Vec<(RowM, bool)>,
    /// Stop adding rows when full (otherwise all rows are required to fit).
    pub lossy: bool,
}
#[derive(Clone, Debug)]
pub struct PlannedTable {
    pub kind: Kind,
    pub pages: Vec<PlannedPage>,
    pub index_first: bool,
}

/// Lay out planned tables into a database image.
pub fn layout(
    t: &mut Tape,
    ext: bool,
    page_size: usize,
    plan: Vec<PlannedTable>,
    blank: bool,
) -> Db {
    // Which table owns each page, in file order.
    let mut todo: Vec<(usize, usize)> = plan
        .iter()
        .enumerate()
        .map(|(i, p)| (i, p.pages.len() + usize::from(p.index_first)))
        .collect();
    let mut owners: Vec<Option<usize>> = vec![];
    let interleave = t.draw(3);
    loop {
        let live: Vec<usize> = todo
            .iter()
            .enumerate()
            .filter(|(_, x)| x.1 > 0)
            .map(|(i, _)| i)
            .collect();
        if live.is_empty() {
            break;
        }
        let pick = if interleave == 0 {
            live[0]
        } else {
            live[t.usize(live.len())]
        };
        if blank && t.chance(1, 12) {
            owners.push(None);
        }
        owners.push(Some(todo[pick].0));
        todo[pick].1 -= 1;
    }
    let npages = owners.len();
    let next_unused = npages as u32 + 1;
    let mut image = vec![0u8; page_size * (npages + 1)];
    let mut pages: Vec<PageM> = vec![PageM::Blank; npages];
    let mut tables = vec![];
    let mut fill = t.seed();
    let garbage = t.chance(1, 3);
    // Fields that nobody knows the meaning of hold anything.
    let odd = t.chance(1, 3);
    for (ti, p) in plan.iter().enumerate() {
        let chain: Vec<u32> = owners
            .iter()
            .enumerate()
            .filter(|(_, o)| **o == Some(ti))
            .map(|(i, _)| i as u32 + 1)
            .collect();
        for (ci, &pno) in chain.iter().enumerate() {
            let base = pno as usize * page_size;
            let next = chain
                .get(ci + 1)
                .copied()
                .unwrap_or(next_unused + t.draw(3) as u32);
            if ci == 0 && p.index_first {
                let cap = index_capacity(page_size);
                let n = match t.draw(5) {
                    0..=2 => t.usize(cap.min(6) + 1),
                    3 => cap,
                    _ => t.usize(cap + 1),
                };
                page_header(
                    &mut image,
                    base,
                    pno,
                    p.kind.code(),
                    next,
                    1 + t.draw(2500) as u32,
                    0,
                    0,
                    0x64,
                    0,
                    0,
                );
                let mut h: Vec<u8> = vec![];
                let (a, b, off, empty) = if odd {
                    (
                        [0x1fff, 1, fill.next() as u16][fill.below(3) as usize],
                        [0x1fff, 0, fill.next() as u16][fill.below(3) as usize],
                        [n as u16, fill.next() as u16][fill.below(2) as usize],
                        [n as u16, fill.below(n as u64 + 1) as u16][fill.below(2) as usize],
                    )
                } else {
                    (0x1fff, 0x1fff, n as u16, 0x1fff)
                };
                h.extend_from_slice(&a.to_le_bytes());
                h.extend_from_slice(&b.to_le_bytes());
                h.extend_from_slice(&0x03ecu16.to_le_bytes());
                h.extend_from_slice(&off.to_le_bytes());
                h.extend_from_slice(&pno.to_le_bytes());
                h.extend_from_slice(&next.to_le_bytes());
                h.extend_from_slice(&0x03ff_ffffu64.to_le_bytes());
                h.extend_from_slice(&(n as u16).to_le_bytes());
                h.extend_from_slice(&empty.to_le_bytes());
                put(&mut image, base + 0x20, &h);
                for i in 0..cap {
                    let v: u32 = if i < n && odd && fill.below(4) == 0 {
                        0x1FFF_FFF8
                    } else if i < n {
                        let target = fill.below(u64::from(next_unused)) as u32;
                        (target << 3) | (fill.below(8) as u32)
                    } else {
                        0x1FFF_FFF8
                    };
                    put(&mut image, base + 0x20 + 28 + 4 * i, &v.to_le_bytes());
                }
                if odd {
                    put(&mut image, base + 20, &(fill.next() as u32).to_le_bytes());
                    image[base + 27] = fill.next() as u8 | 0x40;
                }
                pages[pno as usize - 1] = PageM::Index { entries: n };
                continue;
            }
            let pp = &p.pages[ci - usize::from(p.index_first)];
            let end = base + page_size;
            let heap_size = page_size - HEAP;
            let mut slots: Vec<Slot> = vec![];
            let mut used = 0usize;
            for (row, present) in &pp.rows {
                let gap = if garbage && fill.below(4) == 0 {
                    fill.below(3) as usize * 4
                } else {
                    0
                };
                let off = used + gap;
                let len = row.bytes.len().div_ceil(4) * 4;
                let n = slots.len() + 1;
                let footer = n.div_ceil(16) * 4 + n * 2;
                if off + len + footer > heap_size {
                    if pp.lossy {
                        break;
                    }
                    panic!(
                        "row does not fit in page: {} + {} + {} > {}",
                        off, len, footer, heap_size
                    );
                }
                slots.push(Slot {
                    off: off as u16,
                    present: *present,
                    row: row.clone(),
                });
                used = off + len;
            }
            let n = slots.len();
            let groups = n.div_ceil(16);
            let footer = groups * 4 + n * 2;
            let free = heap_size - used - footer;
            // Slots need not be in heap order.
            if n > 1 && t.chance(1, 5) {
                let a = t.usize(n);
                let b = t.usize(n);
                slots.swap(a, b);
            }
            let any_deleted = slots.iter().any(|s| !s.present);
            let valid = slots.iter().filter(|s| s.present).count() as u32;
            if garbage {
                for b in &mut image[base + HEAP..end] {
                    *b = fill.next() as u8;
                }
            }
            page_header(
                &mut image,
                base,
                pno,
                p.kind.code(),
                next,
                1 + t.draw(2500) as u32,
                n as u32,
                valid,
                if any_deleted { 0x34 } else { 0x24 },
                free as u16,
                used as u16,
            );
            let mut dh: Vec<u8> = vec![];
            for v in [1u16, t.draw(40) as u16, 0, 0] {
                let v = if odd { fill.next() as u16 } else { v };
                dh.extend_from_slice(&v.to_le_bytes());
            }
            if odd {
                put(&mut image, base + 20, &(fill.next() as u32).to_le_bytes());
                image[base + 27] = fill.next() as u8 & !0x40;
            }
            put(&mut image, base + 0x20, &dh);
            for s in &slots {
                put(&mut image, base + HEAP + s.off as usize, &s.row.bytes);
            }
            for g in 0..groups {
                let gstart = end - 36 * (g + 1);
                let mut flags = 0u16;
                for i in 0..16 {
                    let si = g * 16 + i;
                    if si < n {
                        put(
                            &mut image,
                            gstart + 2 * (15 - i),
                            &slots[si].off.to_le_bytes(),
                        );
                        if slots[si].present {
                            flags |= 1 << i;
                        }
                    }
                }
                put(&mut image, gstart + 32, &flags.to_le_bytes());
                let unk = if odd {
                    fill.next() as u16
                } else if fill.below(3) == 0 {
                    flags & 0x8421
                } else {
                    0
                };
                put(&mut image, gstart + 34, &unk.to_le_bytes());
            }
            pages[pno as usize - 1] = PageM::Data {
                slots,
                used: used as u16,
                free: free as u16,
            };
        }
        tables.push(TableM {
            kind: p.kind,
            first: *chain.first().unwrap(),
            last: *chain.last().unwrap(),
            chain,
        });
    }
    // Header page.
    let mut h: Vec<u8> = vec![];
    h.extend_from_slice(&0u32.to_le_bytes());
    h.extend_from_slice(&(page_size as u32).to_le_bytes());
    h.extend_from_slice(&(tables.len() as u32).to_le_bytes());
    h.extend_from_slice(&next_unused.to_le_bytes());
    let unknown = [5, 0, 1, fill.next() as u32][if odd { fill.below(4) as usize } else { 0 }];
    h.extend_from_slice(&unknown.to_le_bytes());
    h.extend_from_slice(&(t.draw(5000) as u32).to_le_bytes());
    h.extend_from_slice(&0u32.to_le_bytes());
    for tb in &tables {
        h.extend_from_slice(&tb.kind.code().to_le_bytes());
        let candidate = if odd { fill.next() as u32 } else { next_unused + 1 };
        h.extend_from_slice(&candidate.to_le_bytes());
        h.extend_from_slice(&tb.first.to_le_bytes());
        h.extend_from_slice(&tb.last.to_le_bytes());
    }
    assert!(h.len() <= page_size);
    put(&mut image, 0, &h);
    if garbage {
        // Blank pages hold stale bytes.
        for (i, p) in pages.iter().enumerate() {
            if matches!(p, PageM::Blank) {
                let base = (i + 1) * page_size;
                for b in &mut image[base..base + page_size] {
                    *b = fill.next() as u8;
                }
            }
        }
        if fill.below(2) == 0 {
            for b in &mut image[h.len()..page_size] {
                *b = fill.next() as u8;
            }
        }
    }
    Db {
        ext,
        page_size,
        next_unused,
        tables,
        pages,
        image,
    }
}

pub fn gen_db(t: &mut Tape, o: &Opts) -> Db {
    let ext = match o.ext {
        Some(e) => e,
        None => t.chance(1, 4),
    };
    let page_size = *t.pick(o.page_sizes);
    let max_tables = o.max_tables.min(((page_size - 28) / 16) as u64);
    let mut kinds: Vec<Kind> = if ext {
        vec![Kind::Tag, Kind::TrackTag]
    } else if o.kinds.is_empty() {
        PLAIN_KINDS.to_vec()
    } else {
        o.kinds.to_vec()
    };
    let n = if max_tables == 0 { 0 } else { 1 + t.draw(max_tables) as usize };
    let mut plan = vec![];
    for _ in 0..n {
        let kind = if (o.unknown_tables && t.chance(1, 10)) || kinds.is_empty() {
            if !o.unknown_tables {
                break;
            }
            Kind::Unknown(*t.pick(&[9u32, 10, 14, 15, 18, 20, 25, 99, 0xdead_beef]))
        } else {
            let i = t.usize(kinds.len());
            kinds.remove(i)
        };
        let npages = match t.draw(8) {
            _ if o.min_pages > 0 && plan.is_empty() => {
                o.min_pages + t.draw(o.max_pages.saturating_sub(o.min_pages) + 1)
            }
            0 => 0,
            1..=5 => 1.min(o.max_pages),
            _ => t.draw(o.max_pages + 1),
        };
        let index_first = npages == 0 || !t.chance(1, 10);
        let mut pages = vec![];
        for _ in 0..npages {
            let nrows = match t.draw(6) {
                0 => 0,
                1..=3 => t.draw(o.max_rows.min(5) + 1),
                _ => t.draw(o.max_rows + 1),
            };
            let del = t.chance(1, 3);
            let mut rows = vec![];
            for _ in 0..nrows {
                let present = !(del && t.chance(1, 3));
                rows.push((gen_row(t, kind), present));
            }
            pages.push(PlannedPage { rows, lossy: true });
        }
        plan.push(PlannedTable {
            kind,
            pages,
            index_first,
        });
    }
    layout(t, ext, page_size, plan, o.blank)
}

impl Db {
    pub fn describe(&self) -> String {
        let mut s = format!(
            "{} db, page_size={}, pages={}, tables=[",
            if self.ext { "ext" } else { "plain" },
            self.page_size,
            self.next_unused - 1
        );
        for tb in &self.tables {
            s.push_str(&format!("{:?}:{:?} ", tb.kind, tb.chain));
        }
        s.push(']');
        s
    }
    pub fn page_base(&self, pno: u32) -> usize {
        pno as usize * self.page_size
    }
    pub fn slots(&self, pno: u32) -> &[Slot] {
        match &self.pages[pno as usize - 1] {
            PageM::Data { slots, .. } => slots,
            _ => &[],
        }
    }
    /// Offsets of the present rows of a page in ascending order.
    pub fn present_offsets(&self, pno: u32) -> Vec<u16> {
        let mut v: Vec<u16> = self
            .slots(pno)
            .iter()
            .filter(|s| s.present)
            .map(|s| s.off)
            .collect();
        v.sort_unstable();
        v
    }
}
