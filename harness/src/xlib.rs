//! C22: XML libraries are read and written back faithfully, in any pieces, after edits and after
//! attempts that failed.

use crate::ctx::{lib, viol, Ctx, Panicked, Violation, R};
use crate::hist::delivery;
use crate::simio::{Fault, Sim, ERR_KINDS};
use crate::tape::{Rng, Tape};
use rekordcrate::xml::{
    Collection, Document, PlaylistFolderNode, PlaylistGenericNode, PlaylistPlaylistNode,
    PlaylistTrack, Playlists, PositionMark, Product, Tempo, Track,
};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::{BufReader, Seek, SeekFrom};

// ---------------------------------------------------------------- values

/// Texts without tabs and line breaks, which quick-xml does not escape in attributes.
fn word(t: &mut Tape) -> String {
    const PIECES: [&str; 24] = [
        "a", "B", "0", " ", "  ", "&", "<", ">", "\"", "'", "&amp;", "&lt;", "]]>", "<!--", "é", "ß", "Ω", "日本",
        "🎧", "\u{a0}", "=", "/>", "</TRACK>", ";",
    ];
    match t.draw(10) {
        0 => String::new(),
        1..=4 => {
            let n = 1 + t.usize(12);
            let mut r = t.seed();
            (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
        }
        5 if t.chance(1, 20) => {
            let n = 100 + t.usize(600);
            let mut r = t.seed();
            (0..n).map(|_| PIECES[r.below(24) as usize]).collect()
        }
        _ => {
            let n = 1 + t.usize(8);
            let mut r = t.seed();
            (0..n).map(|_| PIECES[r.below(24) as usize]).collect()
        }
    }
}

fn int(t: &mut Tape) -> i32 {
    match t.draw(6) {
        0 => 0,
        1 => *t.pick(&[i32::MIN, i32::MAX, -1, 255, 65536]),
        2 => t.u32() as i32,
        _ => t.draw(1000) as i32,
    }
}

fn real(t: &mut Tape) -> f64 {
    match t.draw(6) {
        0 => 0.0,
        1 => *t.pick(&[0.1, -0.5, 1e-7, 1e15, 123456.789012, 0.30000000000000004]),
        2 => t.draw(400) as f64,
        _ => t.draw(400_000) as f64 / 1000.0,
    }
}

fn maybe<T>(t: &mut Tape, rate: u64, f: impl FnOnce(&mut Tape) -> T) -> Option<T> {
    if t.chance(rate, 4) {
        Some(f(t))
    } else {
        None
    }
}

fn tempo(t: &mut Tape) -> Tempo {
    Tempo {
        inizio: real(t),
        bpm: real(t),
        metro: if t.chance(3, 4) { "4/4".into() } else { word(t) },
        battito: int(t),
    }
}

fn mark(t: &mut Tape) -> PositionMark {
    PositionMark {
        name: word(t),
        mark_type: int(t),
        start: real(t),
        end: maybe(t, 2, real),
        num: int(t),
    }
}

fn track(t: &mut Tape) -> Track {
    // How many of the optional attributes are there.
    let p = *t.pick(&[0, 2, 3, 4, 4]);
    let (a, b) = if t.chance(1, 2) { (0, 0) } else { (t.usize(4), t.usize(4)) };
    Track {
        trackid: int(t),
        name: maybe(t, p, word),
        artist: maybe(t, p, word),
        composer: maybe(t, p, word),
        album: maybe(t, p, word),
        grouping: maybe(t, p, word),
        genre: maybe(t, p, word),
        kind: maybe(t, p, word),
        size: maybe(t, p, |t| if t.chance(1, 4) { i64::MAX - t.draw(1000) as i64 } else { int(t) as i64 }),
        totaltime: maybe(t, p, real),
        discnumber: maybe(t, p, int),
        tracknumber: maybe(t, p, int),
        year: maybe(t, p, int),
        averagebpm: maybe(t, p, real),
        datemodified: maybe(t, p, word),
        dateadded: maybe(t, p, word),
        bitrate: maybe(t, p, int),
        samplerate: maybe(t, p, real),
        comments: maybe(t, p, word),
        playcount: maybe(t, p, int),
        lastplayed: maybe(t, p, word),
        rating: maybe(t, p, int),
        location: word(t),
        remixer: maybe(t, p, word),
        tonality: maybe(t, p, word),
        label: maybe(t, p, word),
        mix: maybe(t, p, word),
        colour: maybe(t, p, word),
        tempos: (0..a).map(|_| tempo(t)).collect(),
        position_marks: (0..b).map(|_| mark(t)).collect(),
    }
}

fn node(t: &mut Tape, depth: usize, left: &mut i32) -> PlaylistGenericNode {
    *left -= 1;
    if depth > 0 && t.chance(2, 5) {
        let n = if *left <= 0 { 0 } else { t.usize(4) };
        PlaylistGenericNode::Folder(PlaylistFolderNode {
            name: word(t),
            nodes: (0..n).map(|_| node(t, depth - 1, left)).collect(),
        })
    } else {
        let n = if t.chance(1, 150) { 250 + t.usize(500) } else { t.usize(5) };
        PlaylistGenericNode::Playlist(PlaylistPlaylistNode {
            name: word(t),
            keytype: if t.chance(3, 4) { "0".into() } else { word(t) },
            tracks: (0..n).map(|_| PlaylistTrack { key: int(t) }).collect(),
        })
    }
}

/// Folders in folders.
fn tower(n: usize, top: Vec<PlaylistGenericNode>) -> Vec<PlaylistGenericNode> {
    let mut nodes = top;
    for i in 0..n {
        nodes = vec![PlaylistGenericNode::Folder(PlaylistFolderNode { name: format!("level {i}"), nodes })];
    }
    nodes
}

fn document(t: &mut Tape) -> Document {
    let n = match t.draw(8) {
        0 => 0,
        1..=5 => 1 + t.usize(4),
        _ => t.usize(20),
    };
    let k = t.usize(4);
    let mut left = 12;
    let mut nodes: Vec<_> = (0..k).map(|_| node(t, 4, &mut left)).collect();
    if t.chance(1, 12) {
        nodes = tower(20 + t.usize(80), nodes);
    }
    Document {
        version: if t.chance(1, 2) { "1.0.0".into() } else { word(t) },
        product: Product { name: word(t), version: word(t), company: word(t) },
        collection: Collection {
            entries: if t.chance(3, 4) { n as i32 } else { int(t) },
            track: (0..n).map(|_| track(t)).collect(),
        },
        playlists: Playlists { node: PlaylistFolderNode { name: if t.chance(1, 2) { "ROOT".into() } else { word(t) }, nodes } },
    }
}

fn edit(t: &mut Tape, d: &mut Document) -> &'static str {
    let n = d.collection.track.len();
    match t.draw(12) {
        0 => {
            let at = t.usize(n + 1);
            d.collection.track.insert(at, track(t));
            d.collection.entries = d.collection.entries.wrapping_add(1);
            "track added"
        }
        1 if n > 0 => {
            d.collection.track.remove(t.usize(n));
            "track removed"
        }
        2 if n > 1 => {
            let (a, b) = (t.usize(n), t.usize(n));
            d.collection.track.swap(a, b);
            "tracks swapped"
        }
        3 | 4 if n > 0 => {
            let i = t.usize(n);
            let x = &mut d.collection.track[i];
            match t.draw(5) {
                0 => x.year = None,
                1 => x.name = Some(word(t)),
                2 => x.comments = None,
                3 => (x.averagebpm, x.size) = (None, None),
                _ => x.location = word(t),
            }
            "track changed"
        }
        5 if n > 0 => {
            let i = t.usize(n);
            let x = &mut d.collection.track[i];
            match t.draw(4) {
                0 => x.tempos.clear(),
                1 => x.tempos.insert(0, tempo(t)),
                2 => x.position_marks.clear(),
                _ => x.position_marks.push(mark(t)),
            }
            "marks changed"
        }
        6 => {
            d.playlists.node.nodes.clear();
            "playlists removed"
        }
        7 => {
            let old = std::mem::take(&mut d.playlists.node.nodes);
            let k = 1 + t.usize(3);
            d.playlists.node.nodes = if deep(&old) < 60 { tower(k, old) } else { old };
            "playlists moved into a folder"
        }
        8 => {
            d.playlists.node.nodes.reverse();
            d.playlists.node.name = word(t);
            "playlists reversed"
        }
        9 => {
            d.product.company = word(t);
            d.version = word(t);
            "product changed"
        }
        _ => {
            let k = d.playlists.node.nodes.len();
            let at = t.usize(k + 1);
            let mut left = 5;
            d.playlists.node.nodes.insert(at, node(t, 3, &mut left));
            "node added"
        }
    }
}

fn deep(nodes: &[PlaylistGenericNode]) -> usize {
    nodes
        .iter()
        .map(|n| match n {
            PlaylistGenericNode::Folder(f) => 1 + deep(&f.nodes),
            PlaylistGenericNode::Playlist(_) => 1,
        })
        .max()
        .unwrap_or(0)
}

// ---------------------------------------------------------------- what a library says, as elements

#[derive(Clone, Debug, PartialEq)]
enum Val {
    Text(String),
    Int(i64),
    Real(f64),
}

#[derive(Clone, Debug)]
struct Elem {
    name: &'static str,
    attrs: Vec<(&'static str, Val)>,
    children: Vec<Elem>,
}

fn text(s: &str) -> Val {
    Val::Text(s.to_string())
}

fn elem_track(x: &Track) -> Elem {
    let mut attrs = vec![("TrackID", Val::Int(x.trackid as i64)), ("Location", text(&x.location))];
    let texts = [
        ("Name", &x.name),
        ("Artist", &x.artist),
        ("Composer", &x.composer),
        ("Album", &x.album),
        ("Grouping", &x.grouping),
        ("Genre", &x.genre),
        ("Kind", &x.kind),
        ("DateModified", &x.datemodified),
        ("DateAdded", &x.dateadded),
        ("Comments", &x.comments),
        ("LastPlayed", &x.lastplayed),
        ("Remixer", &x.remixer),
        ("Tonality", &x.tonality),
        ("Label", &x.label),
        ("Mix", &x.mix),
        ("Colour", &x.colour),
    ];
    for (k, v) in texts {
        attrs.extend(v.as_ref().map(|v| (k, text(v))));
    }
    let ints = [
        ("DiscNumber", x.discnumber),
        ("TrackNumber", x.tracknumber),
        ("Year", x.year),
        ("BitRate", x.bitrate),
        ("PlayCount", x.playcount),
        ("Rating", x.rating),
    ];
    for (k, v) in ints {
        attrs.extend(v.map(|v| (k, Val::Int(v as i64))));
    }
    attrs.extend(x.size.map(|v| ("Size", Val::Int(v))));
    for (k, v) in [("TotalTime", x.totaltime), ("AverageBpm", x.averagebpm), ("SampleRate", x.samplerate)] {
        attrs.extend(v.map(|v| (k, Val::Real(v))));
    }
    let mut children = vec![];
    for y in &x.tempos {
        children.push(Elem {
            name: "TEMPO",
            attrs: vec![
                ("Inizio", Val::Real(y.inizio)),
                ("Bpm", Val::Real(y.bpm)),
                ("Metro", text(&y.metro)),
                ("Battito", Val::Int(y.battito as i64)),
            ],
            children: vec![],
        });
    }
    for y in &x.position_marks {
        let mut attrs = vec![
            ("Name", text(&y.name)),
            ("Type", Val::Int(y.mark_type as i64)),
            ("Start", Val::Real(y.start)),
            ("Num", Val::Int(y.num as i64)),
        ];
        attrs.extend(y.end.map(|v| ("End", Val::Real(v))));
        children.push(Elem { name: "POSITION_MARK", attrs, children: vec![] });
    }
    Elem { name: "TRACK", attrs, children }
}

fn elem_folder(f: &PlaylistFolderNode) -> Elem {
    Elem {
        name: "NODE",
        attrs: vec![
            ("Type", text("0")),
            ("Name", text(&f.name)),
            ("Count", Val::Int(f.nodes.len() as i64)),
        ],
        children: f
            .nodes
            .iter()
            .map(|n| match n {
                PlaylistGenericNode::Folder(f) => elem_folder(f),
                PlaylistGenericNode::Playlist(p) => Elem {
                    name: "NODE",
                    attrs: vec![
                        ("Type", text("1")),
                        ("Name", text(&p.name)),
                        ("Entries", Val::Int(p.tracks.len() as i64)),
                        ("KeyType", text(&p.keytype)),
                    ],
                    children: p
                        .tracks
                        .iter()
                        .map(|k| Elem { name: "TRACK", attrs: vec![("Key", Val::Int(k.key as i64))], children: vec![] })
                        .collect(),
                },
            })
            .collect(),
    }
}

fn elem(d: &Document) -> Elem {
    Elem {
        name: "DJ_PLAYLISTS",
        attrs: vec![("Version", text(&d.version))],
        children: vec![
            Elem {
                name: "PRODUCT",
                attrs: vec![
                    ("Name", text(&d.product.name)),
                    ("Version", text(&d.product.version)),
                    ("Company", text(&d.product.company)),
                ],
                children: vec![],
            },
            Elem {
                name: "COLLECTION",
                attrs: vec![("Entries", Val::Int(d.collection.entries as i64))],
                children: d.collection.track.iter().map(elem_track).collect(),
            },
            Elem { name: "PLAYLISTS", attrs: vec![], children: vec![elem_folder(&d.playlists.node)] },
        ],
    }
}

// ---------------------------------------------------------------- XML, both ways

fn escape(s: &str, quote: char, r: &mut Rng, o: &mut String) {
    for c in s.chars() {
        let must = matches!(c, '<' | '&') || c == quote;
        if must || (matches!(c, '>' | '"' | '\'') && r.below(2) == 0) {
            match (c, r.below(4)) {
                ('<', 0..=2) => o.push_str("&lt;"),
                ('>', 0..=2) => o.push_str("&gt;"),
                ('&', 0..=2) => o.push_str("&amp;"),
                ('"', 0..=2) => o.push_str("&quot;"),
                ('\'', 0..=2) => o.push_str("&apos;"),
                (c, _) => write!(o, "&#x{:X};", c as u32).unwrap(),
            }
        } else if r.below(40) == 0 {
            write!(o, "&#{};", c as u32).unwrap();
        } else {
            o.push(c);
        }
    }
}

fn space(r: &mut Rng, o: &mut String) {
    for _ in 0..r.below(3) {
        o.push_str(["\n", " ", "\t", "\r\n", "  ", "<!-- a <NODE> & more -->"][r.below(6) as usize]);
    }
}

fn render(e: &Elem, r: &mut Rng, o: &mut String, plain: bool) {
    o.push('<');
    o.push_str(e.name);
    let mut attrs: Vec<_> = e.attrs.iter().collect();
    if !plain {
        for i in (1..attrs.len()).rev() {
            attrs.swap(i, r.below(i as u64 + 1) as usize);
        }
    }
    for (k, v) in attrs {
        o.push_str(if plain { " " } else { [" ", "\n  ", "\t"][r.below(3) as usize] });
        let q = if !plain && r.below(5) == 0 { '\'' } else { '"' };
        write!(o, "{k}={q}").unwrap();
        match v {
            Val::Text(s) => escape(s, q, r, o),
            Val::Int(i) => write!(o, "{i}").unwrap(),
            Val::Real(x) if !plain && r.below(4) == 0 => write!(o, "{x:e}").unwrap(),
            Val::Real(x) => write!(o, "{x}").unwrap(),
        }
        o.push(q);
    }
    if e.children.is_empty() && r.below(2) == 0 {
        o.push_str(if r.below(2) == 0 { "/>" } else { " />" });
        return;
    }
    o.push('>');
    for c in &e.children {
        space(r, o);
        render(c, r, o, plain);
    }
    space(r, o);
    write!(o, "</{}>", e.name).unwrap();
}

fn to_text(d: &Document, r: &mut Rng) -> String {
    let mut o = String::new();
    if r.below(4) > 0 {
        o.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>");
    }
    space(r, &mut o);
    let plain = r.below(3) == 0;
    render(&elem(d), r, &mut o, plain);
    if r.below(2) == 0 {
        o.push('\n');
    }
    o
}

/// An element as it was written.
struct Raw {
    name: String,
    attrs: BTreeMap<String, String>,
    children: Vec<Raw>,
}

/// A small reader of its own for what the library writes: elements and attributes, no text.
struct Parser<'a>(&'a str);

impl Parser<'_> {
    fn blank(&mut self) {
        self.0 = self.0.trim_start_matches([' ', '\t', '\r', '\n']);
    }
    fn eat(&mut self, s: &str) -> bool {
        match self.0.strip_prefix(s) {
            Some(x) => {
                self.0 = x;
                true
            }
            None => false,
        }
    }
    fn name(&mut self) -> Result<String, String> {
        let n = self
            .0
            .find(|c: char| !(c.is_ascii_alphanumeric() || c == '_'))
            .unwrap_or(self.0.len());
        if n == 0 {
            return Err(format!("a name is expected before {:?}", self.0.chars().take(20).collect::<String>()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a.to_string())
    }
    fn value(&mut self) -> Result<String, String> {
        let q = match self.0.chars().next() {
            Some(q @ ('"' | '\'')) => q,
            _ => return Err("an attribute without a value".into()),
        };
        let rest = &self.0[1..];
        let end = rest.find(q).ok_or("an attribute without an end")?;
        let (raw, after) = rest.split_at(end);
        self.0 = &after[1..];
        if raw.contains('<') {
            return Err(format!("{raw:?} contains <"));
        }
        let mut o = String::new();
        let mut parts = raw.split('&');
        o.push_str(parts.next().unwrap_or(""));
        for p in parts {
            let (e, after) = p.split_once(';').ok_or_else(|| format!("{raw:?} contains &"))?;
            o.push(match e {
                "lt" => '<',
                "gt" => '>',
                "amp" => '&',
                "quot" => '"',
                "apos" => '\'',
                e => {
                    let n = match e.strip_prefix("#x") {
                        Some(h) => u32::from_str_radix(h, 16).ok(),
                        None => e.strip_prefix('#').and_then(|d| d.parse().ok()),
                    };
                    n.and_then(char::from_u32).ok_or_else(|| format!("unknown entity {e:?}"))?
                }
            });
            o.push_str(after);
        }
        Ok(o)
    }
    fn element(&mut self) -> Result<Raw, String> {
        if !self.eat("<") {
            return Err(format!("an element is expected before {:?}", self.0.chars().take(20).collect::<String>()));
        }
        let name = self.name()?;
        let mut attrs = BTreeMap::new();
        loop {
            self.blank();
            if self.eat("/>") {
                return Ok(Raw { name, attrs, children: vec![] });
            }
            if self.eat(">") {
                break;
            }
            let k = self.name()?;
            self.blank();
            if !self.eat("=") {
                return Err(format!("attribute {k} without a value"));
            }
            self.blank();
            let v = self.value()?;
            if attrs.insert(k.clone(), v).is_some() {
                return Err(format!("{name} has the attribute {k} twice"));
            }
        }
        let mut children = vec![];
        loop {
            self.blank();
            if self.eat("</") {
                let n = self.name()?;
                self.blank();
                if n != name || !self.eat(">") {
                    return Err(format!("{name} ends with {n}"));
                }
                return Ok(Raw { name, attrs, children });
            }
            children.push(self.element()?);
        }
    }
}

fn parse(s: &str) -> Result<Raw, String> {
    let mut p = Parser(s);
    p.blank();
    if p.0.starts_with("<?xml") {
        let n = p.0.find("?>").ok_or("a declaration without an end")?;
        p.0 = &p.0[n + 2..];
        p.blank();
    }
    let e = p.element()?;
    p.blank();
    if p.0.is_empty() {
        Ok(e)
    } else {
        Err("something follows the document".into())
    }
}

/// Does the element that was written say what it should?
fn says(x: &Raw, e: &Elem) -> Result<(), String> {
    if x.name != e.name {
        return Err(format!("{} instead of {}", x.name, e.name));
    }
    for (k, v) in &e.attrs {
        let Some(w) = x.attrs.get(*k) else {
            return Err(format!("{} without {k}", e.name));
        };
        let same = match v {
            Val::Text(s) => w == s,
            Val::Int(i) => w.parse() == Ok(*i),
            Val::Real(f) => w.parse() == Ok(*f),
        };
        if !same {
            return Err(format!("{} with {k}={w:?} instead of {v:?}", e.name));
        }
    }
    if let Some(k) = x.attrs.keys().find(|k| !e.attrs.iter().any(|a| a.0 == *k)) {
        return Err(format!("{} with an attribute {k} that it does not have", e.name));
    }
    // The parts of a track and of the document may come in any order, but not those of a kind.
    if x.children.len() != e.children.len() {
        return Err(format!("{} children in {} instead of {}", x.children.len(), e.name, e.children.len()));
    }
    let names: Vec<&str> = {
        let mut v: Vec<&str> = e.children.iter().map(|c| c.name).collect();
        v.dedup();
        v
    };
    for n in names {
        let a: Vec<&Raw> = x.children.iter().filter(|c| c.name == n).collect();
        let b: Vec<&Elem> = e.children.iter().filter(|c| c.name == n).collect();
        if a.len() != b.len() {
            return Err(format!("{} {n} in {} instead of {}", a.len(), e.name, b.len()));
        }
        for (a, b) in a.iter().zip(b) {
            says(a, b)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- streams

fn panicked(p: &Panicked, what: &str) -> Violation {
    Violation { class: p.class(), detail: format!("{what}: {}", p.0) }
}

fn read(t: &mut Tape, sim: &Sim) -> Result<Result<Document, String>, Panicked> {
    let cap = *t.pick(&[1usize, 7, 64, 512, 8192]);
    sim.with(|d| d.budget = d.ops + 5_000_000);
    let mut s = sim.clone();
    let _ = s.seek(SeekFrom::Start(0));
    lib(|| quick_xml::de::from_reader::<_, Document>(BufReader::with_capacity(cap, s)).map_err(|e| e.to_string()))
}

/// A text sink that fails after a number of bytes.
struct Sink {
    text: String,
    left: usize,
    failed: bool,
}

impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.left {
            self.left = 0;
            self.failed = true;
            return Err(std::fmt::Error);
        }
        self.left -= s.len();
        self.text.push_str(s);
        Ok(())
    }
}

fn plan(t: &mut Tape, sim: &Sim, ops: u64) -> Fault {
    let kind = *t.pick(&ERR_KINDS);
    let f = *t.pick(&[Fault::Err(kind), Fault::ErrSticky(kind), Fault::Zero]);
    let k = match t.draw(3) {
        0 => ops.saturating_sub(1 + t.draw(4)),
        1 => t.draw(8),
        _ => t.draw(ops + 1),
    };
    sim.with(|d| {
        let now = d.ops;
        d.plan.insert(now + k, f);
    });
    f
}

/// Something that cannot be read, often in the middle of nested folders.
fn broken(t: &mut Tape, d: &Document) -> Vec<u8> {
    let mut d = d.clone();
    if t.chance(1, 2) {
        d.playlists.node.nodes = tower(30 + t.usize(90), std::mem::take(&mut d.playlists.node.nodes));
    }
    let mut r = t.seed();
    let mut b = to_text(&d, &mut r).into_bytes();
    match t.draw(3) {
        0 => {
            let n = t.usize(b.len());
            b.truncate(n);
        }
        1 => {
            let n = b.len() - t.usize(b.len().min(3000));
            b.truncate(n);
        }
        _ => {
            let s = String::from_utf8(b).unwrap_or_default();
            let (x, y) = *t.pick(&[("Type=", "Typ="), ("Count=", "Coun="), ("KeyType=", "KeyTyp="), ("</NODE>", "</NODES>"), ("Key=", "Keys="), ("\"1\"", "\"7\"")]);
            let hits: Vec<usize> = s.match_indices(x).map(|m| m.0).collect();
            b = s.clone().into_bytes();
            if !hits.is_empty() {
                let h = hits[t.usize(hits.len())];
                b.splice(h..h + x.len(), y.bytes());
            }
        }
    }
    b
}

pub fn c22(t: &mut Tape, ctx: &mut Ctx) -> R {
    let mut d = document(t);
    let steps = 1 + t.usize(4);
    for step in 0..steps {
        if step > 0 {
            for _ in 0..t.draw(4) {
                let what = edit(t, &mut d);
                ctx.say(|| format!("edit: {what}"));
                ctx.probe("edited");
            }
        }
        if t.chance(1, 4) {
            // Other libraries that cannot be read.
            for _ in 0..1 + t.draw(6) {
                let sim = Sim::new(broken(t, &d));
                let r = read(t, &sim).map_err(|p| panicked(&p, "reading a broken library"))?;
                ctx.say(|| format!("broken library: {:?}", r.as_ref().map(|_| "read")));
                ctx.probe(if r.is_ok() { "broken_read" } else { "broken_refused" });
                ctx.absorb(&sim);
            }
        }
        if step == 0 || t.chance(1, 3) {
            let mut r = t.seed();
            let bytes = to_text(&d, &mut r).into_bytes();
            d = from_medium(t, ctx, bytes, &d)?;
        }
        d = round(t, ctx, &d)?;
    }
    ctx.nontrivial = true;
    Ok(())
}

/// Read a library that says `want`, after attempts that fail.
fn from_medium(t: &mut Tape, ctx: &mut Ctx, bytes: Vec<u8>, want: &Document) -> Result<Document, Violation> {
    let sim = Sim::new(bytes);
    ctx.watch(&sim);
    let r = from_sim(t, ctx, &sim, want);
    ctx.absorb(&sim);
    r
}

fn from_sim(t: &mut Tape, ctx: &mut Ctx, sim: &Sim, want: &Document) -> Result<Document, Violation> {
    let len = sim.with(|d| d.cache.len());
    ctx.say(|| format!("read a library of {len} bytes: {}", String::from_utf8_lossy(&sim.content())));
    let tries = t.usize(3);
    for k in 0..=tries {
        let f = if k < tries {
            delivery(t, sim);
            Some(plan(t, sim, 12))
        } else {
            delivery(t, sim);
            None
        };
        let before = sim.with(|d| (d.errors, d.fired.get("eof_early").copied().unwrap_or(0)));
        let r = read(t, sim).map_err(|p| panicked(&p, "reading"))?;
        let after = sim.with(|d| (d.errors, d.fired.get("eof_early").copied().unwrap_or(0)));
        sim.heal();
        ctx.say(|| format!("  with {f:?}: {:?}", r.as_ref().map(|_| "read")));
        match r {
            Ok(x) => {
                if x != *want {
                    return differs("read-differently", &x, want);
                }
                ctx.probe("read");
                if k == tries {
                    if t.chance(1, 4) {
                        // From text that is in memory.
                        let s = String::from_utf8(sim.content()).unwrap_or_default();
                        let y = lib(|| quick_xml::de::from_str::<Document>(&s).map_err(|e| e.to_string()))
                            .map_err(|p| panicked(&p, "reading text"))?;
                        return match y {
                            Err(e) => viol("refused", format!("a library that is in order is not read from text: {e}")),
                            Ok(y) if y != *want => differs("read-differently", &y, want),
                            Ok(y) => Ok(y),
                        };
                    }
                    return Ok(x);
                }
            }
            Err(e) if after == before => {
                return viol("refused", format!("a library that is in order is not read: {e}"));
            }
            Err(_) => ctx.probe("read_failure_reported"),
        }
    }
    unreachable!()
}

fn differs<T>(class: &str, x: &Document, want: &Document) -> Result<T, Violation> {
    let (a, b) = (format!("{x:?}"), format!("{want:?}"));
    let at = a.bytes().zip(b.bytes()).take_while(|(a, b)| a == b).count();
    let cut = |s: &str| -> String {
        let b = &s.as_bytes()[at.saturating_sub(60).min(s.len())..(at + 60).min(s.len())];
        String::from_utf8_lossy(b).into_owned()
    };
    viol(class, format!("...{}... instead of ...{}...", cut(&a), cut(&b)))
}

/// Write the library, judge the text, and read it back.
fn round(t: &mut Tape, ctx: &mut Ctx, d: &Document) -> Result<Document, Violation> {
    let tries = t.usize(3);
    for k in 0..=tries {
        let faulty = k < tries;
        let bytes = if t.chance(1, 2) {
            // To text.
            let size = if faulty { t.usize(6000) } else { usize::MAX };
            let mut s = Sink { text: String::new(), left: size, failed: false };
            let indent = t.draw(4);
            let r = lib(|| {
                use quick_xml::se::{to_writer, Serializer};
                use serde::Serialize;
                if indent == 0 {
                    let mut x = Serializer::new(&mut s);
                    x.indent(' ', 2);
                    d.serialize(x).map_err(|e| e.to_string())
                } else {
                    to_writer(&mut s, d).map_err(|e| e.to_string())
                }
            })
            .map_err(|p| panicked(&p, "writing"))?;
            ctx.say(|| format!("written to text (room {size}): {r:?}"));
            match r {
                Ok(_) if s.failed => return viol("failure-acknowledged", "the sink failed, and the library was written"),
                Err(e) if !s.failed => return viol("not-written", format!("the library is not written: {e}")),
                Err(_) => {
                    ctx.fault("sink_full", 1);
                    ctx.probe("write_failure_reported");
                    continue;
                }
                Ok(_) => s.text.into_bytes(),
            }
        } else {
            // To a stream.
            let sim = Sim::new(vec![]);
            ctx.watch(&sim);
            delivery(t, &sim);
            let f = if faulty { Some(plan(t, &sim, 400)) } else { None };
            sim.with(|x| x.budget = x.ops + 5_000_000);
            let r = lib(|| quick_xml::se::to_utf8_io_writer(sim.clone(), d).map_err(|e| e.to_string()))
                .map_err(|p| panicked(&p, "writing"))?;
            let failed = sim.with(|x| x.errors > 0 || x.fired.get("write_zero").is_some());
            ctx.say(|| format!("written to a stream with {f:?}: {r:?}"));
            let b = sim.content();
            let zero = sim.with(|x| x.fired.keys().any(|k| k.contains("zero") || k.contains("eof")));
            ctx.absorb(&sim);
            match r {
                Ok(_) if failed => return viol("failure-acknowledged", "the stream failed, and the library was written"),
                Err(e) if !failed && !zero => return viol("not-written", format!("the library is not written: {e}")),
                Err(_) => {
                    ctx.probe("write_failure_reported");
                    continue;
                }
                Ok(_) => b,
            }
        };
        let Ok(s) = String::from_utf8(bytes) else {
            return viol("malformed", "what was written is not text");
        };
        ctx.say(|| format!("  {s}"));
        let raw = match parse(&s) {
            Ok(r) => r,
            Err(e) => return viol("malformed", format!("what was written is no XML: {e}")),
        };
        if let Err(e) = says(&raw, &elem(d)) {
            return viol("written-differently", e);
        }
        ctx.probe("written");
        if k == tries || t.chance(1, 2) {
            let back = from_medium(t, ctx, s.into_bytes(), d)?;
            if back != *d {
                return differs("round-trip", &back, d);
            }
        }
    }
    Ok(d.clone())
}
