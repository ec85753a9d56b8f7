//! Generators of input files of the other formats (analysis files, settings, XML libraries), the
//! real sample files, and damage to any of them.

use crate::gen_pdb::{ascii_text, gen_db, grow, layout, node_row, short_ascii, uni_text, Kind, Opts, ANY};
use crate::tape::{Rng, Tape};
use rekordcrate::setting::SettingType;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fmt {
    Pdb { ext: bool },
    Anlz,
    Setting(SettingType),
    Xml,
}

#[derive(Clone)]
pub struct Media {
    pub fmt: Fmt,
    pub bytes: Vec<u8>,
    pub what: String,
}

pub const SETTING_TYPES: [SettingType; 4] = [
    SettingType::MySetting,
    SettingType::DevSetting,
    SettingType::DJMMySetting,
    SettingType::MySetting2,
];

// ---------------------------------------------------------------- analysis files

#[derive(Clone, Debug)]
pub struct Pssi {
    pub mood: u16,
    pub unknown1: u32,
    pub unknown2: u16,
    pub end_beat: u16,
    pub unknown3: u16,
    pub bank: u8,
    pub unknown4: u8,
    pub phrases: Vec<u8>,
    pub n: u16,
}

#[derive(Clone, Debug)]
pub enum Sect {
    /// Complete section bytes.
    Raw(Vec<u8>),
    Pssi(Pssi),
}

#[derive(Clone, Debug)]
pub struct AnlzM {
    pub header_rest: Vec<u8>,
    pub sections: Vec<Sect>,
}

const KEY: [u8; 19] = [
    0xCB, 0xE1, 0xEE, 0xFA, 0xE5, 0xEE, 0xAD, 0xEE, 0xE9, 0xD2, 0xE9, 0xEB, 0xE1, 0xE9, 0xF3, 0xE8,
    0xE9, 0xF4, 0xE1,
];

fn sect(kind: &[u8; 4], head: &[u8], content: &[u8]) -> Vec<u8> {
    let mut b = kind.to_vec();
    b.extend((12 + head.len() as u32).to_be_bytes());
    b.extend((12 + head.len() as u32 + content.len() as u32).to_be_bytes());
    b.extend_from_slice(head);
    b.extend_from_slice(content);
    b
}

impl Pssi {
    pub fn plain(&self) -> Vec<u8> {
        let mut d = vec![];
        d.extend(self.mood.to_be_bytes());
        d.extend(self.unknown1.to_be_bytes());
        d.extend(self.unknown2.to_be_bytes());
        d.extend(self.end_beat.to_be_bytes());
        d.extend(self.unknown3.to_be_bytes());
        d.push(self.bank);
        d.push(self.unknown4);
        d.extend_from_slice(&self.phrases);
        d
    }
    pub fn section(&self, encrypted: bool) -> Vec<u8> {
        let mut d = self.plain();
        if encrypted {
            for (i, b) in d.iter_mut().enumerate() {
                *b ^= KEY[i % 19].wrapping_add(self.n as u8);
            }
        }
        let mut b = b"PSSI".to_vec();
        b.extend(32u32.to_be_bytes());
        b.extend((32 + 24 * u32::from(self.n)).to_be_bytes());
        b.extend(24u32.to_be_bytes());
        b.extend(self.n.to_be_bytes());
        b.extend(d);
        b
    }
}

impl AnlzM {
    /// The file with its song structures stored plain or encrypted.
    pub fn bytes(&self, encrypted: &dyn Fn(usize) -> bool) -> Vec<u8> {
        let mut body = vec![];
        for (i, s) in self.sections.iter().enumerate() {
            match s {
                Sect::Raw(b) => body.extend_from_slice(b),
                Sect::Pssi(p) => body.extend(p.section(encrypted(i))),
            }
        }
        let mut b = b"PMAI".to_vec();
        b.extend((12 + self.header_rest.len() as u32).to_be_bytes());
        b.extend((12 + self.header_rest.len() as u32 + body.len() as u32).to_be_bytes());
        b.extend_from_slice(&self.header_rest);
        b.extend(body);
        b
    }
}

fn blob(r: &mut Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| r.next() as u8).collect()
}

fn some_len(t: &mut Tape) -> usize {
    match t.draw(16) {
        0..=7 => t.usize(12),
        8..=13 => t.usize(150),
        14 => t.usize(1200),
        _ if t.chance(1, 30) => t.usize(200_000),
        _ => t.usize(20_000),
    }
}

pub fn text(t: &mut Tape, max: usize) -> String {
    let n = t.usize(max + 1);
    let uni = t.chance(1, 2);
    let mut r = t.seed();
    if uni {
        uni_text(&mut r, n)
    } else {
        ascii_text(&mut r, n)
    }
}

pub fn gen_pssi(t: &mut Tape) -> Pssi {
    let n = match t.draw(8) {
        0..=4 => t.draw(6),
        5..=6 => t.draw(40),
        _ if t.chance(1, 12) => {
            let max = if t.chance(1, 8) { 65536 } else { 4000 };
            t.draw(max)
        }
        _ => t.draw(700),
    } as u16;
    let mut r = t.seed();
    Pssi {
        mood: 1 + t.draw(3) as u16,
        unknown1: t.u32(),
        unknown2: t.u16(),
        end_beat: t.u16(),
        unknown3: t.u16(),
        bank: t.draw(9) as u8,
        unknown4: t.u8(),
        phrases: blob(&mut r, 24 * usize::from(n)),
        n,
    }
}

fn utf16(s: &str) -> Vec<u8> {
    s.encode_utf16().flat_map(u16::to_be_bytes).collect()
}

fn gen_section(t: &mut Tape) -> Sect {
    let mut r = t.seed();
    let be = |xs: &[u32]| -> Vec<u8> { xs.iter().flat_map(|x| x.to_be_bytes()).collect() };
    Sect::Raw(match t.draw(15) {
        0 => {
            let n = some_len(t) / 8;
            let mut h = be(&[0, 0x0080_0000, n as u32]);
            h[0] = r.next() as u8;
            sect(b"PQTZ", &h, &blob(&mut r, n * 8))
        }
        1 => {
            let n = if t.chance(1, 20) { t.usize(400) } else { t.usize(5) };
            let mut c = vec![];
            for _ in 0..n {
                let mut cue = be(&[t.draw(9) as u32, t.draw(6) as u32, 0x0001_0000]);
                cue.extend(blob(&mut r, 4));
                cue.push(1 + t.draw(2) as u8);
                cue.push(0);
                cue.extend(1000u16.to_be_bytes());
                cue.extend(blob(&mut r, 4 * 6));
                let mut b = b"PCPT".to_vec();
                b.extend(be(&[28, 12 + cue.len() as u32]));
                b.extend(cue);
                c.extend(b);
            }
            let mut h = be(&[t.draw(2) as u32]);
            h.extend(blob(&mut r, 2));
            h.extend((n as u16).to_be_bytes());
            h.extend(blob(&mut r, 4));
            sect(b"PCOB", &h, &c)
        }
        2 => {
            let n = if t.chance(1, 20) { t.usize(400) } else { t.usize(5) };
            let mut c = vec![];
            for _ in 0..n {
                let mut cue = be(&[t.draw(9) as u32]);
                cue.push(1 + t.draw(2) as u8);
                cue.push(0);
                cue.extend(1000u16.to_be_bytes());
                cue.extend(blob(&mut r, 8));
                cue.push(t.draw(9) as u8);
                cue.extend(blob(&mut r, 1 + 2 + 4 + 4));
                let max = if t.chance(1, 40) { 2000 } else { 20 };
                let s = text(t, max);
                // No text, with or without a terminator; a text with one, several or none.
                let nuls = match t.draw(12) {
                    0 => usize::from(s.is_empty()),
                    1 => t.usize(5),
                    _ => usize::from(!s.is_empty()),
                };
                let mut u = utf16(&s);
                u.extend(vec![0; 2 * nuls]);
                cue.extend(be(&[u.len() as u32]));
                cue.extend(u);
                cue.extend(blob(&mut r, 4 + 20));
                let extra = t.usize(9);
                cue.extend(blob(&mut r, extra));
                let mut b = b"PCP2".to_vec();
                b.extend(be(&[16, 12 + cue.len() as u32]));
                b.extend(cue);
                c.extend(b);
            }
            let mut h = be(&[t.draw(2) as u32]);
            h.extend((n as u16).to_be_bytes());
            h.extend([0, 0]);
            sect(b"PCO2", &h, &c)
        }
        3 => {
            let max = if t.chance(1, 40) { 40_000 } else { 60 };
            let s = text(t, max);
            let mut u = utf16(&s);
            u.extend([0, 0]);
            sect(b"PPTH", &be(&[u.len() as u32]), &u)
        }
        4 => {
            let n = some_len(t);
            sect(b"PVBR", &be(&[r.next() as u32]), &blob(&mut r, n))
        }
        5 | 6 => {
            let n = some_len(t);
            let k = if t.chance(1, 2) { b"PWV2" } else { b"PWAV" };
            sect(k, &be(&[n as u32, 0x0010_0000]), &blob(&mut r, n))
        }
        7 => {
            let n = some_len(t);
            sect(b"PWV3", &be(&[1, n as u32, 0x0096_0000]), &blob(&mut r, n))
        }
        8 => {
            let n = some_len(t) / 6;
            let u = r.next() as u32;
            sect(b"PWV4", &be(&[6, n as u32, u]), &blob(&mut r, n * 6))
        }
        9 => {
            let n = some_len(t) / 2;
            let u = r.next() as u32;
            sect(b"PWV5", &be(&[2, n as u32, u]), &blob(&mut r, n * 2))
        }
        10 => {
            let n = some_len(t) / 3;
            sect(b"PWV6", &be(&[3, n as u32]), &blob(&mut r, n * 3))
        }
        11 => {
            let n = some_len(t) / 3;
            sect(
                b"PWV7",
                &be(&[3, n as u32, 0x0096_0000]),
                &blob(&mut r, n * 3),
            )
        }
        12 => return Sect::Pssi(gen_pssi(t)),
        _ => {
            let k = *t.pick(&[b"PWVC", b"ABCD", b"\0\0\0\0", b"PQT2", b"\xff\xfe\xfd\xfc"]);
            let h = some_len(t).min(300);
            let n = some_len(t);
            let h = blob(&mut r, h);
            sect(k, &h, &blob(&mut r, n))
        }
    })
}

pub fn gen_anlz(t: &mut Tape, max_sections: u64) -> AnlzM {
    let h = *t.pick(&[16usize, 16, 0, 3, 40, 16, 300]);
    let mut r = t.seed();
    let n = if t.chance(1, 60) { t.draw(60) } else { t.draw(max_sections + 1) };
    AnlzM {
        header_rest: blob(&mut r, h),
        sections: (0..n).map(|_| gen_section(t)).collect(),
    }
}

// ---------------------------------------------------------------- settings

fn crc16(data: &[u8]) -> u16 {
    let mut c = 0u16;
    for b in data {
        c ^= u16::from(*b) << 8;
        for _ in 0..8 {
            c = if c & 0x8000 != 0 {
                (c << 1) ^ 0x1021
            } else {
                c << 1
            };
        }
    }
    c
}

/// Values that a settings field can hold: first value and their number.
const fn span(lo: u8, n: u8) -> (u8, u8) {
    (lo, n)
}

pub fn setting_file_name(ty: SettingType) -> &'static str {
    match ty {
        SettingType::DevSetting => "DEVSETTING.DAT",
        SettingType::DJMMySetting => "DJMMYSETTING.DAT",
        SettingType::MySetting => "MYSETTING.DAT",
        SettingType::MySetting2 => "MYSETTING2.DAT",
    }
}

pub fn gen_setting(t: &mut Tape, ty: SettingType) -> Vec<u8> {
    let v = |t: &mut Tape, s: (u8, u8)| s.0 + t.draw(u64::from(s.1)) as u8;
    let mut d: Vec<u8> = vec![];
    let brand;
    match ty {
        SettingType::DevSetting => {
            brand = "PIONEER DJ";
            d.extend([0x78, 0x56, 0x34, 0x12, 1, 0, 0, 0, 1]);
            d.push(v(t, span(1, 2)));
            d.push(*t.pick(&[1, 3, 4]));
            d.push(1);
            d.push(v(t, span(1, 2)));
            d.push(v(t, span(1, 2)));
            d.extend([0; 18]);
        }
        SettingType::DJMMySetting => {
            brand = "PioneerDJ";
            d.extend([0x78, 0x56, 0x34, 0x12, 1, 0, 0, 0, 0x20, 0, 0, 0]);
            for n in [3u8, 3, 2, 2, 2, 2, 2, 4, 16, 2, 6, 3, 3] {
                d.push(v(t, span(0x80, n)));
            }
            d.extend([0; 27]);
        }
        SettingType::MySetting => {
            brand = "PIONEER";
            d.extend([0x78, 0x56, 0x34, 0x12, 2, 0, 0, 0]);
            d.push(v(t, span(0x80, 2)));
            d.push(v(t, span(0x81, 5)));
            d.push(v(t, span(0x80, 2)));
            d.push(v(t, span(0x80, 9)));
            d.push(v(t, span(0x81, 18)));
            d.push(t.u8());
            d.push(v(t, span(0x80, 3)));
            d.push(v(t, span(0x80, 2)));
            d.push(v(t, span(0x80, 2)));
            d.extend([1, 1, 1]);
            d.push(v(t, span(0x80, 3)));
            for n in [2u8, 2, 2, 4, 3, 2] {
                d.push(v(t, span(0x80, n)));
            }
            d.extend([0, 0]);
            d.push(v(t, span(0x80, 2)));
            d.extend([0, 0]);
            for n in [2u8, 2, 2, 2, 4, 2] {
                d.push(v(t, span(0x80, n)));
            }
            d.extend([0, 0]);
        }
        SettingType::MySetting2 => {
            brand = "PIONEER";
            d.push(v(t, span(0x80, 3)));
            d.push(v(t, span(0x80, 4)));
            d.push(v(t, span(0x81, 4)));
            d.push(v(t, span(0x81, 5)));
            d.push(v(t, span(0x80, 2)));
            d.extend([0; 5]);
            d.push(v(t, span(0x80, 2)));
            d.push(t.u8());
            d.push(v(t, span(0x80, 8)));
            d.extend([0; 27]);
        }
    }
    let mut b = 0x60u32.to_le_bytes().to_vec();
    let long = t.chance(1, 8);
    for s in [brand, "rekordbox", "6.6.1"] {
        let mut f = if long {
            vec![b'x'; 31]
        } else {
            s.as_bytes().to_vec()
        };
        f.resize(0x20, 0);
        b.extend(f);
    }
    b.extend((d.len() as u32).to_le_bytes());
    b.extend(d);
    b.extend([0; 4]);
    sign_setting(ty, &mut b);
    b
}

/// Fill in the checksum of a settings file.
pub fn sign_setting(ty: SettingType, b: &mut [u8]) {
    let n = b.len() - 4;
    let start = if ty == SettingType::DJMMySetting { 0 } else { 104 };
    let c = crc16(&b[start..n]);
    b[n..n + 2].copy_from_slice(&c.to_le_bytes());
}

// ---------------------------------------------------------------- XML libraries

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '&' => o.push_str("&amp;"),
            '"' => o.push_str("&quot;"),
            '\'' => o.push_str("&#39;"),
            c => o.push(c),
        }
    }
    o
}

fn xml_node(t: &mut Tape, o: &mut String, depth: u64, left: &mut i32) {
    *left -= 1;
    let name = esc(&text(t, 12));
    if depth > 0 && t.chance(1, 3) {
        let n = if t.chance(1, 8) { 0 } else { 1 + t.draw(3) };
        o.push_str(&format!(
            "<NODE Type=\"0\" Name=\"{name}\" Count=\"{n}\">\n"
        ));
        for i in 0..n {
            xml_node(t, o, if i == 0 || *left > 0 { depth - 1 } else { 0 }, left);
        }
        o.push_str("</NODE>");
    } else {
        let n = if t.chance(1, 8) { 0 } else { 1 + t.draw(4) };
        let attrs = if t.chance(1, 2) {
            format!("Name=\"{name}\" Type=\"1\" KeyType=\"0\" Entries=\"{n}\"")
        } else {
            format!("Type=\"1\" Name=\"{name}\" Entries=\"{n}\" KeyType=\"1\"")
        };
        o.push_str(&format!("<NODE {attrs}>"));
        for _ in 0..n {
            o.push_str(&format!("<TRACK Key=\"{}\"/>", t.draw(1000)));
        }
        o.push_str("</NODE>\n");
    }
}

pub fn gen_xml(t: &mut Tape) -> Vec<u8> {
    let mut o = String::from("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
    o.push_str("<DJ_PLAYLISTS Version=\"1.0.0\">\n <PRODUCT Name=\"rekordbox\" Version=\"5.8.6\" Company=\"Pioneer DJ\"/>\n");
    let n = match t.draw(6) {
        0..=3 => t.draw(5),
        4 => t.draw(12),
        _ => t.draw(60),
    };
    o.push_str(&format!(" <COLLECTION Entries=\"{n}\">\n"));
    for i in 0..n {
        o.push_str(&format!("  <TRACK TrackID=\"{}\"", i + 1));
        for a in [
            "Name",
            "Artist",
            "Composer",
            "Album",
            "Grouping",
            "Genre",
            "Kind",
            "Comments",
            "Remixer",
            "Tonality",
            "Label",
            "Mix",
            "DateAdded",
            "Colour",
        ] {
            if t.chance(2, 3) {
                o.push_str(&format!(" {a}=\"{}\"", esc(&text(t, 10))));
            }
        }
        for a in [
            "Size",
            "DiscNumber",
            "TrackNumber",
            "Year",
            "BitRate",
            "PlayCount",
            "Rating",
        ] {
            if t.chance(2, 3) {
                o.push_str(&format!(" {a}=\"{}\"", t.draw(1 << 20)));
            }
        }
        for a in ["TotalTime", "AverageBpm", "SampleRate"] {
            if t.chance(2, 3) {
                o.push_str(&format!(" {a}=\"{}.{:02}\"", t.draw(400), t.draw(100)));
            }
        }
        o.push_str(&format!(
            " Location=\"file://localhost/{}\"",
            esc(&text(t, 30))
        ));
        let (a, b) = (t.draw(3), t.draw(3));
        if a + b == 0 {
            o.push_str("/>\n");
        } else {
            o.push_str(">\n");
            for _ in 0..a {
                o.push_str(&format!(
                    "   <TEMPO Inizio=\"{}.5\" Bpm=\"{}.25\" Metro=\"4/4\" Battito=\"{}\"/>\n",
                    t.draw(100),
                    t.draw(200),
                    1 + t.draw(4)
                ));
            }
            for _ in 0..b {
                o.push_str(&format!(
                    "   <POSITION_MARK Name=\"{}\" Type=\"{}\" Start=\"{}.125\" Num=\"-1\"/>\n",
                    esc(&text(t, 6)),
                    t.draw(5),
                    t.draw(300)
                ));
            }
            o.push_str("  </TRACK>\n");
        }
    }
    o.push_str(" </COLLECTION>\n <PLAYLISTS>\n");
    let k = t.draw(4);
    o.push_str(&format!(
        "  <NODE Type=\"0\" Name=\"ROOT\" Count=\"{k}\">\n"
    ));
    let mut left = 12;
    for _ in 0..k {
        xml_node(t, &mut o, 4, &mut left);
    }
    o.push_str("  </NODE>\n </PLAYLISTS>\n</DJ_PLAYLISTS>\n");
    o.into_bytes()
}

// ---------------------------------------------------------------- samples and damage

/// Real files.
pub const SAMPLES: [(Fmt, &str, &[u8]); 12] = [
    (Fmt::Anlz, "a.dat", include_bytes!("../samples/a.dat")),
    (Fmt::Anlz, "b.dat", include_bytes!("../samples/b.dat")),
    (
        Fmt::Setting(SettingType::MySetting),
        "MYSETTING.DAT",
        include_bytes!("../samples/MYSETTING.DAT"),
    ),
    (
        Fmt::Setting(SettingType::MySetting2),
        "MYSETTING2.DAT",
        include_bytes!("../samples/MYSETTING2.DAT"),
    ),
    (
        Fmt::Setting(SettingType::DevSetting),
        "DEVSETTING.DAT",
        include_bytes!("../samples/DEVSETTING.DAT"),
    ),
    (
        Fmt::Setting(SettingType::DJMMySetting),
        "DJMMYSETTING.DAT",
        include_bytes!("../samples/DJMMYSETTING.DAT"),
    ),
    (
        Fmt::Xml,
        "database.xml",
        include_bytes!("../samples/database.xml"),
    ),
    // From here on: large.
    (Fmt::Anlz, "a.ext", include_bytes!("../samples/a.ext")),
    (Fmt::Anlz, "a.2ex", include_bytes!("../samples/a.2ex")),
    (
        Fmt::Pdb { ext: true },
        "exportExt.pdb",
        include_bytes!("../samples/exportExt.pdb"),
    ),
    (
        Fmt::Pdb { ext: false },
        "export.pdb",
        include_bytes!("../samples/export.pdb"),
    ),
    (
        Fmt::Pdb { ext: false },
        "export.pdb",
        include_bytes!("../samples/export.pdb"),
    ),
];

pub fn small_db_opts(t: &mut Tape) -> Opts {
    let mut o = Opts {
        page_sizes: &[512, 1024, 256, 512, 4096, 2048],
        max_rows: 14,
        max_pages: 3,
        ..ANY
    };
    grow(t, &mut o);
    o
}

/// Playlist folders inside each other, far beyond what anybody has.
pub fn gen_deep(t: &mut Tape) -> Media {
    let n = match t.draw(4) {
        0 => 100 + t.usize(200),
        1 => 250 + t.usize(12),
        2 => 300 + t.usize(3000),
        _ => 2000 + t.usize(10_000),
    };
    let what = format!("{n} folders inside each other");
    if t.chance(1, 2) {
        let mut o = String::from("<DJ_PLAYLISTS Version=\"1.0.0\"><PRODUCT Name=\"r\" Version=\"5\" Company=\"P\"/><COLLECTION Entries=\"0\"/><PLAYLISTS><NODE Type=\"0\" Name=\"ROOT\" Count=\"1\">");
        let open = *t.pick(&["<NODE Name=\"f\" Type=\"0\" Count=\"1\">", "<X>", "<NODE>"]);
        o.push_str(&open.repeat(n));
        let close = format!("</{}>", &open[1..open.find([' ', '>']).unwrap()]);
        o.push_str(&close.repeat(n));
        o.push_str("</NODE></PLAYLISTS></DJ_PLAYLISTS>");
        return Media { fmt: Fmt::Xml, bytes: o.into_bytes(), what };
    }
    let name = short_ascii("f");
    let rows = (0..n as u32).map(|i| node_row(i, 0, 0, i + 1, 1, &name)).collect();
    let mut plan = vec![crate::walk::spread(t, Kind::Node, rows, 4096, false)];
    for k in [Kind::Track, Kind::Artist, Kind::Entry] {
        plan.push(crate::walk::spread(t, k, vec![], 4096, false));
    }
    Media {
        fmt: Fmt::Pdb { ext: false },
        bytes: layout(t, false, 4096, plan, false).image,
        what,
    }
}

pub fn gen_media(t: &mut Tape, pdb_weight: u64) -> Media {
    match t.draw(8 + pdb_weight) {
        0..=2 => {
            let m = gen_anlz(t, 5);
            let enc = t.draw(4);
            let bytes = m.bytes(&|i| (enc >> (i & 1)) & 1 == 1);
            Media {
                fmt: Fmt::Anlz,
                what: format!("analysis file, {} sections", m.sections.len()),
                bytes,
            }
        }
        3 | 4 => {
            let ty = *t.pick(&SETTING_TYPES);
            Media {
                fmt: Fmt::Setting(ty),
                bytes: gen_setting(t, ty),
                what: format!("{ty:?}"),
            }
        }
        5 => Media {
            fmt: Fmt::Xml,
            bytes: gen_xml(t),
            what: "XML library".into(),
        },
        6 => {
            let n = if t.chance(1, 12) { SAMPLES.len() } else { 7 };
            let (fmt, name, bytes) = SAMPLES[t.usize(n)];
            Media {
                fmt,
                bytes: bytes.to_vec(),
                what: format!("real {name}"),
            }
        }
        _ => {
            let o = small_db_opts(t);
            let db = gen_db(t, &o);
            Media {
                fmt: Fmt::Pdb { ext: db.ext },
                what: db.describe(),
                bytes: db.image,
            }
        }
    }
}

/// Damage a file. Returns what was done.
/// A section of an analysis file becomes longer or shorter, with sizes that agree.
fn stretch(t: &mut Tape, b: &mut Vec<u8>) -> Option<String> {
    let num = |b: &[u8], o: usize| Some(u32::from_be_bytes(b.get(o..o + 4)?.try_into().unwrap()) as usize);
    let mut at = num(b, 4)?;
    let mut sections = vec![];
    while at + 12 <= b.len() && sections.len() < 40 {
        let (head, all) = (num(b, at + 4)?, num(b, at + 8)?);
        if head < 12 || all < head || at + all > b.len() {
            break;
        }
        sections.push((at, head, all));
        at += all;
    }
    if sections.is_empty() {
        return None;
    }
    let (at, head, all) = *t.pick(&sections);
    let k = 1 + t.usize(4) + 4 * t.usize(2);
    let fill = *t.pick(&[0u8, 0, 0xff, 0x20]);
    let put = |b: &mut Vec<u8>, o: usize, v: usize| b[o..o + 4].copy_from_slice(&(v as u32).to_be_bytes());
    let file = num(b, 8)?;
    let what = match t.draw(4) {
        // More at the end of the section, perhaps counted by its first number, too.
        0 | 1 => {
            let counted = num(b, at + 12).filter(|_| t.chance(1, 2) && all >= 16);
            if let Some(c) = counted.filter(|c| *c < 0x8000_0000) {
                put(b, at + 12, c + k);
            }
            b.splice(at + all..at + all, vec![fill; k]);
            put(b, at + 8, all + k);
            put(b, 8, file.wrapping_add(k));
            format!("{k} more bytes at the end of the section at {at} (counted: {})", counted.is_some())
        }
        // A longer header of the section.
        2 => {
            b.splice(at + head..at + head, vec![fill; k]);
            put(b, at + 4, head + k);
            put(b, at + 8, all + k);
            put(b, 8, file.wrapping_add(k));
            format!("{k} more bytes in the header of the section at {at}")
        }
        _ => {
            let k = k.min(all - 12);
            b.drain(at + all - k..at + all);
            put(b, at + 8, all - k);
            put(b, 8, file.wrapping_sub(k));
            if head > all - k {
                put(b, at + 4, all - k);
            }
            format!("{k} bytes less at the end of the section at {at}")
        }
    };
    Some(what)
}

pub fn damage(t: &mut Tape, b: &mut Vec<u8>) -> Vec<String> {
    let mut done = vec![];
    let n = 1 + match t.draw(4) {
        0 | 1 => 0,
        2 => t.draw(3),
        _ => t.draw(12),
    };
    for _ in 0..n {
        if b.is_empty() {
            break;
        }
        if b.starts_with(b"PMAI") && t.chance(1, 4) {
            if let Some(d) = stretch(t, b) {
                done.push(d);
                continue;
            }
        }
        let len = b.len();
        // Structure tends to sit at the start of the file, of a page, or anywhere.
        let at = match t.draw(6) {
            0 => t.usize(len.min(64)),
            1 => t.usize(len.min(512)),
            2 => {
                let unit = *t.pick(&[256usize, 512, 1024, 4096]);
                let k = t.usize(len / unit + 1) * unit;
                let o = if t.chance(1, 2) {
                    t.usize(0x30)
                } else {
                    unit - 1 - t.usize(0x30)
                };
                (k + o).min(len - 1)
            }
            _ => t.usize(len),
        };
        match t.draw(14) {
            0 | 1 => {
                let bit = t.draw(8);
                b[at] ^= 1 << bit;
                done.push(format!("bit {bit} at {at} flipped"));
            }
            2 | 3 => {
                b[at] = *t.pick(&[0, 0xff, 0x80, 0x7f, 1, 0x40, 3, 0x90]);
                done.push(format!("byte at {at} = {:#x}", b[at]));
            }
            4 => {
                b[at] = t.u8();
                done.push(format!("byte at {at} = {:#x}", b[at]));
            }
            5..=7 => {
                let v: u32 = match t.draw(8) {
                    0 => 0,
                    1 => u32::MAX,
                    2 => 0x7fff_ffff,
                    3 => 0x8000_0000,
                    4 => len as u32,
                    5 => (len as u32)
                        .wrapping_sub(at as u32)
                        .wrapping_add(t.draw(9) as u32)
                        .wrapping_sub(4),
                    6 => t.draw(64) as u32,
                    _ => t.u32(),
                };
                let w = *t.pick(&[4usize, 2, 4]);
                let x = if t.chance(1, 2) {
                    v.to_le_bytes()
                } else {
                    let mut y = v.to_be_bytes();
                    if w == 2 {
                        y.rotate_left(2);
                    }
                    y
                };
                for (i, byte) in x.iter().take(w).enumerate() {
                    if at + i < len {
                        b[at + i] = *byte;
                    }
                }
                done.push(format!("{w} bytes at {at} = {:x?}", &x[..w]));
            }
            8 => {
                let n = (1 + t.usize(64)).min(len - at);
                let v = *t.pick(&[0u8, 0xff]);
                b[at..at + n].fill(v);
                done.push(format!("{n} bytes at {at} filled with {v:#x}"));
            }
            9 => {
                let n = (1 + t.usize(4096)).min(len - at);
                let v = *t.pick(&[0u8, 0xff]);
                b[at..at + n].fill(v);
                done.push(format!("{n} bytes at {at} filled with {v:#x}"));
            }
            10 => {
                b.truncate(at);
                done.push(format!("truncated to {at}"));
            }
            11 => {
                let n = (1 + t.usize(300)).min(len - at);
                let to = t.usize(len - n + 1);
                b.copy_within(at..at + n, to);
                done.push(format!("{n} bytes copied from {at} to {to}"));
            }
            12 => {
                let unit = *t.pick(&[256usize, 512, 4096]);
                let k = len / unit;
                if k >= 2 {
                    let (x, y) = (t.usize(k), t.usize(k));
                    let keep = b.clone();
                    b[x * unit..(x + 1) * unit].copy_from_slice(&keep[y * unit..(y + 1) * unit]);
                    done.push(format!("block {y} copied over block {x} (of {unit})"));
                }
            }
            _ => {
                let n = 1 + t.usize(40);
                if t.chance(1, 2) {
                    let end = (at + n).min(len);
                    b.drain(at..end);
                    done.push(format!("{} bytes at {at} removed", end - at));
                } else {
                    let mut r = t.seed();
                    let x = blob(&mut r, n);
                    b.splice(at..at, x);
                    done.push(format!("{n} bytes inserted at {at}"));
                }
            }
        }
    }
    done
}
