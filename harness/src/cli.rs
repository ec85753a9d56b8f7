//! C12, C14, C15, C17, C19, C25, C26: the command-line tool as a whole, under the system-call shim.

use crate::ctx::{lib, viol, Ctx, R};
use crate::gen_pdb::*;
use crate::media::*;
use crate::proc::*;
use crate::tape::{Rng, Tape};
use crate::walk::{gen_nodes, model_tree, nodes_in_order, spread, NodeM, Tree};
use binrw::BinRead;
use rekordcrate::anlz::ANLZ;
use rekordcrate::setting::{Setting, SettingType};
use rekordcrate::xml::Document;
use std::collections::{BTreeMap, BTreeSet};

fn no_crash(r: &Ran, what: &str) -> R {
    if r.endless() {
        return viol("endless", format!("{what} does not come to an end ({})", r.status()));
    }
    let nomem = r.events.iter().any(|e| e.fault == "nomem");
    if !nomem && (r.signal.is_some() || r.err.contains("panicked at")) {
        return viol("crash", format!("{what}: {} {}", r.status(), r.err));
    }
    Ok(())
}

/// Nothing may have been changed, or tried to be, except by writing below `allowed`.
fn untouched(r: &Ran, allowed: Option<&str>, what: &str) -> R {
    if let Some(d) = r.denied.first() {
        return viol("escape", format!("{what} tried to change something outside: {d}"));
    }
    for (op, p) in &r.muts {
        let inside = allowed.is_some_and(|a| {
            p == a
                || p.starts_with(&format!("{a}/"))
                || (op == "mkdir" && (p == "." || a.starts_with(&format!("{p}/"))))
        });
        if !inside && p != "/dev/null" {
            return viol("escape", format!("{what} changes {p:?} ({op})"));
        }
    }
    Ok(())
}

/// A way of writing the path of something in the scratch directory.
fn spell(t: &mut Tape, w: &World, rel: &str) -> String {
    match t.draw(8) {
        6 => format!("{}//{rel}", w.root.to_str().unwrap()),
        // Through a link to the device.
        7 if rel.starts_with("dev") => {
            w.link("lnk", "dev");
            rel.replacen("dev", "lnk", 1)
        }
        0 | 1 => rel.to_string(),
        2 => format!("./{rel}"),
        3 => format!("dev/../{rel}"),
        _ => w.root.join(rel).to_str().unwrap().to_string(),
    }
}

// ---------------------------------------------------------------- C12

/// What list-settings has to show for the values of one settings file.
fn setting_lines(ty: SettingType, s: Option<&Setting>) -> Vec<(&'static str, Option<String>)> {
    macro_rules! lines {
        ($get:ident, $($label:literal = $field:ident),* $(,)?) => {
            vec![$(($label, s.map(|s| s.data.$get().expect("setting type").$field.to_string()))),*]
        };
    }
    match ty {
        SettingType::MySetting => lines!(as_my_setting,
            "On Air Display" = on_air_display, "LCD Brightness" = lcd_brightness,
            "Quantize" = quantize, "Auto Cue Level" = auto_cue_level, "Language" = language,
            "Jog Ring Brightness" = jog_ring_brightness, "Jog Ring Indicator" = jog_ring_indicator,
            "Slip Flashing" = slip_flashing, "Disc Slot Illumination" = disc_slot_illumination,
            "Eject Lock" = eject_lock, "Sync" = sync, "Play Mode" = play_mode,
            "Quantize Beat Value" = quantize_beat_value, "Hotcue Autoload" = hotcue_autoload,
            "Hotcue Color" = hotcue_color, "Needle Lock" = needle_lock, "Time Mode" = time_mode,
            "Jog Mode" = jog_mode, "Auto Cue" = auto_cue, "Master Tempo" = master_tempo,
            "Tempo Range" = tempo_range, "Phase Meter" = phase_meter),
        SettingType::MySetting2 => lines!(as_my_setting2,
            "Vinyl Speed Adjust" = vinyl_speed_adjust, "Jog Display Mode" = jog_display_mode,
            "Pad Button Brightness" = pad_button_brightness,
            "Jog LCD Brightness" = jog_lcd_brightness, "Waveform Divisions" = waveform_divisions,
            "Waveform" = waveform, "Beat Jump Beat Value" = beat_jump_beat_value),
        SettingType::DJMMySetting => lines!(as_djm_my_setting,
            "Channel Fader Curve" = channel_fader_curve, "Crossfader Curve" = crossfader_curve,
            "Headphones Pre Eq" = headphones_pre_eq, "Headphones Mono Split" = headphones_mono_split,
            "Beat FX Quantize" = beat_fx_quantize, "Mic Low Cut" = mic_low_cut,
            "Talk Over Mode" = talk_over_mode, "Talk Over Level" = talk_over_level,
            "MIDI Channel" = midi_channel, "MIDI Button Type" = midi_button_type,
            "Display Brightness" = display_brightness, "Indicator Brightness" = indicator_brightness,
            "Channel Fader Curve Long Fader" = channel_fader_curve_long_fader),
        SettingType::DevSetting => lines!(as_dev_setting,
            "Overview Waveform Type" = overview_waveform_type, "Waveform Color" = waveform_color,
            "Key Display Format" = key_display_format,
            "Waveform Current Position" = waveform_current_position),
    }
}

fn gen_settings_export(t: &mut Tape, ctx: &mut Ctx, w: &World) -> Vec<(SettingType, Option<Vec<u8>>)> {
    let mut out = vec![];
    let layout = t.draw(12);
    for ty in SETTING_TYPES {
        let name = setting_file_name(ty);
        let rel = format!("dev/PIONEER/{name}");
        let good = if t.chance(1, 6) {
            SAMPLES
                .iter()
                .find(|s| s.0 == Fmt::Setting(ty))
                .map(|s| s.2.to_vec())
                .unwrap()
        } else {
            gen_setting(t, ty)
        };
        let state = t.draw(12);
        let bytes = match state {
            0..=5 => Some(good),
            6 => None,
            7 => {
                let n = t.usize(good.len() + 1);
                Some(good[..n].to_vec())
            }
            8 => {
                let mut b = good;
                damage(t, &mut b);
                Some(b)
            }
            9 => Some(vec![]),
            10 => {
                w.mkdir(&rel);
                None
            }
            _ => {
                let other = *t.pick(&SETTING_TYPES);
                Some(gen_setting(t, other))
            }
        };
        let bytes = if layout == 11 { None } else { bytes };
        ctx.say(|| format!("{name}: state {state}, {:?} bytes", bytes.as_ref().map(Vec::len)));
        if state >= 6 {
            ctx.fault("file_missing_or_damaged", 1);
        }
        if let Some(b) = &bytes {
            w.put(&rel, b);
        }
        out.push((ty, bytes));
    }
    out
}

pub fn c12(t: &mut Tape, ctx: &mut Ctx) -> R {
    let w = World::new(ctx);
    let files = gen_settings_export(t, ctx, &w);
    let want: Vec<(SettingType, Option<Setting>)> = files
        .iter()
        .map(|(ty, b)| {
            let s = b
                .as_ref()
                .and_then(|b| Setting::read_args(&mut std::io::Cursor::new(b), (*ty,)).ok());
            (*ty, s)
        })
        .collect();
    let args = vec!["list-settings".to_string(), spell(t, &w, "dev")];
    let del = gen_delivery(t);
    let a = w.run(ctx, &args, &del);
    c12_judge(ctx, &a, &want)?;
    for _ in 0..1 + t.draw(2) {
        let mut plan = del.clone();
        for _ in 0..1 + t.draw(3) {
            if t.chance(1, 2) {
                let f = setting_file_name(*t.pick(&SETTING_TYPES));
                let op = *t.pick(&["read", "open", "lseek"]);
                let e = *t.pick(&[5, libc::EACCES, libc::ENOENT, libc::EMFILE]);
                plan += &format!(";file={f}:{op}:{}", if op == "open" { e } else { 5 });
            } else if let Some(f) = gen_fault(
                t,
                &a,
                Menu { input: true, output: false, stdout: false, crash: false, alloc: false },
            ) {
                plan += &f;
            }
        }
        let r = w.run(ctx, &args, &plan);
        c12_judge(ctx, &r, &want)?;
    }
    Ok(())
}

fn c12_judge(ctx: &mut Ctx, r: &Ran, want: &[(SettingType, Option<Setting>)]) -> R {
    no_crash(r, "list-settings")?;
    if !r.ok() {
        return viol("fails", format!("list-settings: {} {}", r.status(), r.err));
    }
    let out = String::from_utf8_lossy(&r.out);
    let got: BTreeMap<&str, &str> = out
        .lines()
        .filter_map(|l| l.split_once(':'))
        .map(|(a, b)| (a.trim(), b.trim()))
        .collect();
    for (ty, s) in want {
        let name = setting_file_name(*ty);
        let warned = r
            .err
            .match_indices(&format!("/{name}"))
            .count();
        let faulted = r.faults_on(name).count() > 0;
        let full = setting_lines(*ty, s.as_ref());
        let shown: Vec<(&str, Option<&str>)> = full
            .iter()
            .map(|(l, _)| (*l, got.get(l).copied()))
            .collect();
        let empty = shown.iter().all(|(_, v)| *v == Some("<missing>"));
        if empty {
            if warned != 1 {
                return viol(
                    "no-warning",
                    format!("{name} could not be loaded, {warned} warnings: {}", r.err),
                );
            }
            if s.is_some() && !faulted {
                return viol("not-loaded", format!("{name} is fine but not shown: {}", r.err));
            }
            ctx.probe(if s.is_some() { "fault_reported" } else { "bad_file_reported" });
            continue;
        }
        if s.is_none() {
            return viol("made-up", format!("{name} is unusable, but values are shown: {shown:?}"));
        }
        for ((l, v), (_, g)) in full.iter().zip(&shown) {
            if v.as_deref() != *g {
                return viol(
                    "wrong-value",
                    format!("{name}: {l} is {v:?}, shown as {g:?} (faulted: {faulted})"),
                );
            }
        }
        if warned != 0 {
            return viol("false-warning", format!("{name} is loaded, but warned about: {}", r.err));
        }
        ctx.probe("loaded");
    }
    Ok(())
}

// ---------------------------------------------------------------- databases with playlists

struct PlDb {
    m: Db,
    /// None: cyclic.
    tree: Option<Vec<Tree>>,
    nodes: Vec<NodeM>,
    entries: BTreeMap<u32, BTreeMap<u32, u32>>,
    tracks: BTreeMap<u32, (u32, String, String)>,
    artists: BTreeMap<u32, String>,
}

fn sems(m: &Db, kind: Kind) -> Vec<Sem> {
    let mut out = vec![];
    for tb in m.tables.iter().filter(|t| t.kind == kind).take(1) {
        for p in &tb.chain {
            let mut v: Vec<_> = m.slots(*p).iter().filter(|s| s.present).collect();
            v.sort_by_key(|s| s.off);
            out.extend(v.iter().map(|s| s.row.sem.clone()));
        }
    }
    out
}

fn shuffle<T>(r: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i as u64 + 1) as usize);
    }
}

fn plain_name(t: &mut Tape) -> StrM {
    let mut r = t.seed();
    let s = match t.draw(6) {
        0..=2 => format!("list {}", t.draw(30)),
        3 => format!("{}{}", uni_text(&mut r, 1 + t.usize(8)), t.draw(10)),
        4 => ascii_text(&mut r, 1 + t.usize(20)),
        _ if t.chance(1, 2) => ["A", "A", "B", "A (2)", "B.m3u", "x.y"][t.usize(6)].to_string(),
        // Names that come close to each other.
        _ => [
            "a/b", "a_b", "a\\b", "a:b", "", "_", ".", "..", "a", "a ", " a", "a.", "A (3)", "A (2) (2)", "B.m3u.m3u",
            "_ (2)", "\u{e9}", "e\u{301}", "a\nb", "a\tb", "\u{ff21}", "a\u{200b}", "CON", "a?",
        ][t.usize(24)]
        .to_string(),
    };
    any_str(&s)
}

/// Distinct ids of `n` rows, and one more that no row has.
fn gen_ids(t: &mut Tape, n: u32) -> Vec<u32> {
    let mut ids: Vec<u32> = (1..=n + 1).collect();
    let mut r = t.seed();
    match t.draw(8) {
        // The usual mark of "none".
        0 | 1 => ids[n as usize] = 0,
        2 => {
            let k = t.usize(n as usize + 1);
            ids[k] = 0;
        }
        3 => {
            for x in &mut ids {
                *x = x.wrapping_mul(0x9e37_79b1);
            }
        }
        4 => {
            let k = t.usize(n as usize + 1);
            ids[k] = *t.pick(&[u32::MAX, 0x8000_0000, 0x1_0000, 0x1_0001, 0x7fff_ffff]);
            if ids[k] <= n + 1 {
                ids[k] = u32::MAX;
            }
        }
        5 => shuffle(&mut r, &mut ids),
        _ => {}
    }
    ids
}

fn gen_playlist_db(t: &mut Tape, names: &mut dyn FnMut(&mut Tape) -> StrM) -> PlDb {
    let page_size = *t.pick(&[1024usize, 4096, 2048]);
    // Now and then, something is large.
    let large = t.draw(40);
    let (many_nodes, deep_tree) = (large == 36, large == 37);
    let (many_tracks, long_list) = (large == 38, large == 39);
    let node_rows = if t.chance(1, 6) {
        gen_nodes(t, names)
    } else {
        let n = match t.draw(4) {
            _ if many_nodes => 260 + t.usize(200),
            _ if deep_tree => 40 + t.usize(80),
            0 => t.usize(4),
            1 | 2 => 1 + t.usize(10),
            _ => 5 + t.usize(40),
        };
        let mut folders = vec![0u32];
        let mut rows = vec![];
        let deep = t.chance(1, 4) || deep_tree;
        let mut ids: Vec<u32> = (1..=n as u32).collect();
        let mut r = t.seed();
        if t.chance(1, 2) {
            shuffle(&mut r, &mut ids);
        }
        for id in ids {
            let folder = if deep_tree { t.chance(9, 10) } else { t.chance(1, 3) };
            let parent = if deep {
                *folders.last().unwrap()
            } else {
                folders[t.usize(folders.len())]
            };
            let name = names(t);
            rows.push(node_row(parent, 0, t.draw(50) as u32, id, u32::from(folder), &name));
            if folder {
                folders.push(id);
            }
        }
        if t.chance(1, 2) {
            shuffle(&mut r, &mut rows);
        }
        rows
    };
    let lists: Vec<u32> = node_rows
        .iter()
        .filter_map(|r| match r.sem {
            Sem::Node { id, folder: false, .. } => Some(id),
            _ => None,
        })
        .collect();
    let ntracks = match t.draw(4) {
        _ if many_tracks => 260 + t.draw(300),
        0 => t.draw(3),
        1 | 2 => 1 + t.draw(8),
        _ => 4 + t.draw(30),
    } as u32;
    let nartists = 1 + t.draw(if many_tracks { 300 } else { 5 }) as u32;
    let mut artist_rows = vec![];
    let artist_ids = gen_ids(t, nartists);
    let track_ids = gen_ids(t, ntracks);
    for i in 0..nartists {
        let mut r = t.seed();
        let s = if t.chance(1, 4) {
            uni_text(&mut r, 1 + t.usize(10))
        } else {
            ascii_text(&mut r, t.usize(15))
        };
        artist_rows.push(artist_row(t, artist_ids[i as usize], &any_str(&s)));
    }
    let mut track_rows = vec![];
    let bad_paths = t.chance(1, 25);
    for i in 0..ntracks {
        let mut r = t.seed();
        let title = if t.chance(1, 4) {
            any_str(&uni_text(&mut r, 1 + t.usize(20)))
        } else {
            any_str(&ascii_text(&mut r, t.usize(30)))
        };
        let dir = match t.draw(8) {
            0 => "Contents".to_string(),
            1 => "/".to_string(),
            2 => "/Contents/../x".to_string(),
            _ => format!("/Contents/{}", uni_text(&mut r, 1 + t.usize(5))),
        };
        let file = match t.draw(4) {
            0 => format!("{}.mp3", ascii_text(&mut r, 1 + t.usize(80))),
            _ => format!("track {i}.mp3"),
        };
        let sep = if dir.ends_with('/') { "" } else { "/" };
        let path = any_str(&format!("{dir}{sep}{}", file.trim_start_matches('/')));
        let path = if bad_paths && t.chance(1, 3) { bad_str(&mut r) } else { path };
        let strs = vec![short_ascii(""); 21];
        let artist = artist_ids[t.usize(nartists as usize + 1)];
        track_rows.push(track_row(t, track_ids[i as usize], artist, &title, &path, strs));
    }
    let mut entry_rows = vec![];
    for (i, id) in lists.iter().enumerate() {
        let n = match t.draw(6) {
            _ if long_list && i == 0 => 260 + t.draw(1200),
            0 => 0,
            5 => t.draw(40),
            _ => t.draw(8),
        };
        let start = t.draw(2) as u32;
        let step = 1 + t.draw(3) as u32 / 2;
        let big = t.chance(1, 8);
        for i in 0..n as u32 {
            let mut index = start + i * step;
            if big {
                // Orders differently as text, as i32 and as u16.
                index = index.wrapping_mul(0x1001_0003);
            }
            let over = u64::from(t.chance(1, 6));
            let track = track_ids[t.draw(u64::from(ntracks) + over) as usize];
            entry_rows.push(entry_row(index, track, *id));
        }
    }
    for _ in 0..t.draw(3) {
        entry_rows.push(entry_row(t.draw(9) as u32, 1, 900 + t.draw(9) as u32));
    }
    if t.chance(2, 3) {
        let mut r = t.seed();
        shuffle(&mut r, &mut entry_rows);
    }
    let deleted = t.chance(1, 4);
    let mut plan = vec![];
    for (k, rows) in [
        (Kind::Node, node_rows),
        (Kind::Track, track_rows),
        (Kind::Artist, artist_rows),
        (Kind::Entry, entry_rows),
    ] {
        let p = spread(t, k, rows, page_size, deleted);
        plan.push(p);
    }
    if t.chance(1, 3) {
        let rows: Vec<_> = (0..t.usize(4)).map(|_| gen_row(t, Kind::Genre)).collect();
        let rows = rows.into_iter().filter(|r| r.bytes.len() < 900).collect();
        let p = spread(t, Kind::Genre, rows, page_size, false);
        plan.push(p);
    }
    let mut r = t.seed();
    shuffle(&mut r, &mut plan);
    let m = layout(t, false, page_size, plan, true);
    let nodes: Vec<NodeM> = nodes_in_order(&m).into_iter().map(|x| x.2).collect();
    let tree = model_tree(&nodes, &mut BTreeSet::from([0]), 0);
    let mut entries: BTreeMap<u32, BTreeMap<u32, u32>> = BTreeMap::new();
    for s in sems(&m, Kind::Entry) {
        if let Sem::Entry { index, track, playlist } = s {
            entries.entry(playlist).or_default().insert(index, track);
        }
    }
    let mut tracks = BTreeMap::new();
    for s in sems(&m, Kind::Track) {
        if let Sem::Track { id, artist, title, path } = s {
            tracks.insert(id, (artist, title, path));
        }
    }
    let mut artists = BTreeMap::new();
    for s in sems(&m, Kind::Artist) {
        if let Sem::Artist { id, name } = s {
            artists.insert(id, name);
        }
    }
    PlDb { m, tree, nodes, entries, tracks, artists }
}

// ---------------------------------------------------------------- C14

/// A playlist file that has to exist: where, if the names say so without doubt, and its lines.
#[derive(Debug)]
struct Wanted {
    at: Option<String>,
    text: Vec<u8>,
}

fn harmless(name: &str) -> bool {
    !name.is_empty() && name != "." && name != ".." && !name.contains(['/', '\0']) && name.len() < 200
}

fn wanted(d: &PlDb, tree: &[Tree], dir: Option<String>, device: &str, out: &mut Vec<Wanted>) {
    let file = |n: &Tree| match n {
        Tree::Folder(_, n, _) => n.clone(),
        Tree::List(_, n) => format!("{n}.m3u"),
    };
    // Names that clash with each other, or with what a clash is renamed to, say nothing.
    let sure = tree.iter().enumerate().all(|(i, a)| {
        let name = match a {
            Tree::Folder(_, n, _) | Tree::List(_, n) => n,
        };
        harmless(name) && !tree[..i].iter().any(|b| file(b) == file(a))
    });
    for n in tree {
        let at = match (&dir, sure) {
            (Some(p), true) => Some(format!("{p}{}", file(n))),
            _ => None,
        };
        match n {
            Tree::Folder(_, _, c) => wanted(d, c, at.map(|a| a + "/"), device, out),
            Tree::List(id, _) => {
                let mut text = vec![];
                for track in d.entries.get(id).into_iter().flat_map(|e| e.values()) {
                    if let Some((_, _, path)) = d.tracks.get(track) {
                        let p = path.strip_prefix('/').unwrap_or(path);
                        text.extend(format!("{device}/{p}\n").into_bytes());
                    }
                }
                out.push(Wanted { at, text });
            }
        }
    }
}

fn complete(w: &World, out: &str, want: &[Wanted], own: &BTreeSet<String>) -> Result<(), String> {
    let files: BTreeMap<String, Vec<u8>> = w
        .snapshot(out)
        .into_iter()
        .filter_map(|(n, b)| b.map(|b| (n, b)))
        .filter(|(n, _)| !own.contains(n))
        .collect();
    for x in want {
        if let Some(at) = &x.at {
            match files.get(at) {
                None => return Err(format!("{at:?} is missing; there are {:?}", files.keys())),
                Some(b) if *b != x.text => {
                    return Err(format!(
                        "{at:?} has {:?} instead of {:?}",
                        w.neutral(&String::from_utf8_lossy(b)),
                        w.neutral(&String::from_utf8_lossy(&x.text))
                    ))
                }
                _ => {}
            }
        }
    }
    let mut a: Vec<&Vec<u8>> = files.values().collect();
    let mut b: Vec<&Vec<u8>> = want.iter().map(|x| &x.text).collect();
    a.sort();
    b.sort();
    if a != b {
        return Err(format!(
            "{} playlists, {} files: {:?}",
            want.len(),
            files.len(),
            files
                .iter()
                .map(|(n, b)| (n.clone(), w.neutral(&String::from_utf8_lossy(b))))
                .collect::<Vec<_>>()
        ));
    }
    Ok(())
}

pub fn c14(t: &mut Tape, ctx: &mut Ctx) -> R {
    let w = World::new(ctx);
    let bad_names = t.chance(1, 25);
    let mut name = |t: &mut Tape| match bad_names && t.chance(1, 4) {
        true => bad_str(&mut t.seed()),
        false => plain_name(t),
    };
    let d = gen_playlist_db(t, &mut name);
    ctx.say(|| d.m.describe());
    ctx.say(|| format!("{:?}", d.tree));
    // Names and paths that are no text cannot be exported.
    let fine = d.tree.is_some()
        && !d.nodes.iter().any(|n| n.name == BAD)
        && !d.tracks.values().any(|x| x.2 == BAD);
    let mut img = d.m.image.clone();
    let cut = t.chance(1, 10);
    if cut {
        img.truncate(t.usize(img.len()));
        ctx.fault("file_cut_short", 1);
    }
    w.put("dev/PIONEER/rekordbox/export.pdb", &img);
    let out_rel = *t.pick(&["out", "out/m3u", "out/a/b"]);
    let device = w.root.join("dev").to_str().unwrap().to_string();
    let mut want = vec![];
    if let Some(tree) = &d.tree {
        wanted(&d, tree, Some(String::new()), &device, &mut want);
    }
    let mut own = BTreeSet::new();
    match t.draw(4) {
        0 => {}
        1 => w.mkdir(out_rel),
        2 => {
            w.put(&format!("{out_rel}/notes.txt"), b"mine");
            own.insert("notes.txt".to_string());
        }
        _ => {
            // A longer file from an earlier export is in the way.
            w.mkdir(out_rel);
            if let Some(at) = want.iter().find_map(|x| x.at.clone()) {
                w.put(&format!("{out_rel}/{at}"), &vec![b'x'; 5000]);
            }
        }
    }
    let mut args = vec![
        "export-playlists".to_string(),
        spell(t, &w, "dev"),
        spell(t, &w, out_rel),
    ];
    if t.chance(1, 4) {
        args[1].push('/');
    }
    if t.chance(1, 4) {
        args[2].push('/');
    }
    let del = gen_delivery(t);
    let judge = |ctx: &mut Ctx, r: &Ran, what: &str| -> R {
        if r.endless() {
            return viol("endless", format!("{what}: {}", r.status()));
        }
        if !r.ok() {
            return Ok(());
        }
        if d.tree.is_none() {
            return viol("success-despite-cycle", format!("{what}: cyclic folders or undecodable names, but exit 0"));
        }
        match complete(&w, out_rel, &want, &own) {
            Ok(()) => {
                ctx.probe("complete");
                Ok(())
            }
            Err(e) => viol("incomplete", format!("{what}: exit 0, but {e}")),
        }
    };
    // A first attempt that may fail or crash.
    let probe_world = t.chance(1, 3);
    let base = if probe_world || cut {
        None
    } else {
        // Learn the calls of a fault-free execution in a world of its own.
        let r = w.run(ctx, &args, &del);
        if fine && !r.ok() {
            return viol("fails", format!("nothing wrong, but {}: {}", r.status(), r.err));
        }
        judge(ctx, &r, "first run")?;
        if t.chance(1, 2) {
            let _ = std::fs::remove_dir_all(w.root.join("out"));
        }
        Some(r)
    };
    if let Some(b) = &base {
        for _ in 0..1 + t.draw(2) {
            let mut plan = del.clone();
            for _ in 0..1 + t.draw(2) {
                let stdout = t.chance(1, 6);
                if let Some(f) = gen_fault(
                    t,
                    b,
                    Menu {
                        input: true,
                        output: true,
                        stdout,
                        crash: true,
                        alloc: true,
                    },
                ) {
                    plan += &f;
                }
            }
            let r = w.run(ctx, &args, &plan);
            if r.hard_faults() > 0 {
                ctx.probe(if r.crashed() {
                    "crashed"
                } else if r.ok() {
                    "fault_without_effect"
                } else {
                    "fault_reported"
                });
            }
            judge(ctx, &r, "with faults")?;
        }
        // Once the faults are over, running it again gives the complete result.
        let r = w.run(ctx, &args, &gen_delivery(t));
        if fine && !r.ok() {
            return viol("fails", format!("rerun: {}: {}", r.status(), r.err));
        }
        judge(ctx, &r, "rerun")?;
        ctx.probe("rerun_complete");
    } else {
        let r = w.run(ctx, &args, &del);
        if !cut && fine && !r.ok() {
            return viol("fails", format!("nothing wrong, but {}: {}", r.status(), r.err));
        }
        judge(ctx, &r, "only run")?;
        if cut {
            ctx.probe(if r.ok() { "cut_elsewhere" } else { "cut_reported" });
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

fn evil_name(t: &mut Tape, root: &str) -> StrM {
    let mut r = t.seed();
    let s = match t.draw(16) {
        0 => "..".to_string(),
        1 => "../..".to_string(),
        2 => "../else/victim".to_string(),
        3 => "../../else/victim".to_string(),
        4 => format!("{root}/else/victim"),
        5 => format!("{root}/dev/PIONEER/rekordbox/export.pdb"),
        6 => "/".to_string(),
        7 => ["", ".", "...", "~", "-rf", "\0", "a\0b", "C:\\x", "a\nb", "\u{202e}x"][t.usize(10)].to_string(),
        8 => "x".repeat(200 + t.usize(100)),
        9 => format!("{}/../../../else/new", ascii_text(&mut r, 1 + t.usize(3)).replace('/', "_")),
        10 => "../dev/new".to_string(),
        11 => "a/b".to_string(),
        12 => "../out2/x".to_string(),
        13 => format!("{}é", "../".repeat(1 + t.usize(6))),
        _ => format!("list {}", t.draw(9)),
    };
    let s = if t.chance(1, 2) { disguise(t, s) } else { s };
    // Long text does not fit the smallest page.
    let s: String = s.chars().take(300).collect();
    any_str(&s)
}

/// What someone who cleans up a name might remove or replace, so that what remains is a special
/// name again.
fn disguise(t: &mut Tape, mut s: String) -> String {
    const JUNK: [&str; 16] = [
        " ", ".", "\t", "\u{1}", "\u{7f}", "\n", "\r\n", "\0", "\u{a0}", "\u{200b}", "\u{feff}",
        "\u{202e}", "\"", "'", ":", "*",
    ];
    if t.chance(1, 2) {
        s = ["..", "..", "../..", "../../else/victim", ".", "../dev/new"][t.usize(6)].to_string();
    }
    for _ in 0..1 + t.draw(2) {
        let j = *t.pick(&JUNK);
        s = match t.draw(12) {
            0 => format!("{j}{s}"),
            1 => format!("{s}{j}"),
            2 => format!("{j}{s}{j}"),
            3 | 4 => {
                // Somewhere inside.
                let c: Vec<char> = s.chars().collect();
                let k = t.usize(c.len() + 1);
                c[..k].iter().collect::<String>() + j + &c[k..].iter().collect::<String>()
            }
            5 => s.chars().map(|c| format!("{j}{c}")).collect(),
            6 => s.replace('.', ["\u{ff0e}", "\u{2024}", "%2e", "."][t.usize(4)]),
            7 => s.replace("..", ["\u{2025}", "....", "..;", ". ."][t.usize(4)]),
            8 => s.replace('/', ["\u{ff0f}", "\u{2215}", "\u{2044}", "\\", "%2f", "//", "/./", "_"][t.usize(8)]),
            9 => s.replace("../", ["....//", "..././", "..\\", "../\0"][t.usize(4)]),
            // The same place, by a longer way.
            10 => "a/../".repeat(20 + t.usize(38)) + &s,
            _ => "./".repeat(60 + t.usize(70)) + &s,
        };
    }
    s
}

pub fn c15(t: &mut Tape, ctx: &mut Ctx) -> R {
    let w = World::new(ctx);
    w.put("else/victim.m3u", b"precious");
    w.put("else/victim/file", b"precious");
    if t.chance(1, 5) {
        // No other command changes anything at all.
        let args = if t.chance(1, 4) {
            // What is asked for is not there, in part or at all.
            w.mkdir(*t.pick(&["dev", "dev/PIONEER", "dev/PIONEER/rekordbox"]));
            let cmd = *t.pick(&["list-settings", "list-playlists", "dump-anlz", "dump-pdb", "dump-setting", "dump-xml"]);
            let rel = match cmd {
                "list-settings" => *t.pick(&["dev", "dev/none", "none"]),
                "dump-pdb" | "list-playlists" => *t.pick(&["dev/PIONEER/rekordbox/export.pdb", "dev", "none/export.pdb"]),
                "dump-setting" => *t.pick(&["dev/PIONEER/MYSETTING.DAT", "none/MYSETTING.DAT"]),
                _ => *t.pick(&["dev/x", "none/x", "dev"]),
            };
            vec![cmd.to_string(), spell(t, &w, rel)]
        } else {
            gen_command(t, ctx, &w, false)
        };
        let before = w.snapshot("");
        let del = gen_delivery(t);
        let a = w.run(ctx, &args, &del);
        untouched(&a, None, &args[0])?;
        if let Some(f) = gen_fault(t, &a, Menu { input: true, output: false, stdout: true, crash: false, alloc: true }) {
            let r = w.run(ctx, &args, &(del + &f));
            untouched(&r, None, &args[0])?;
        }
        if w.snapshot("") != before {
            return viol("changed", format!("{args:?} changed files"));
        }
        ctx.probe("other_command");
        return Ok(());
    }
    let root = w.root.to_str().unwrap().to_string();
    let d = gen_playlist_db(t, &mut |t| evil_name(t, &root));
    ctx.say(|| w.neutral(&format!("{:?}", d.tree)));
    w.put("dev/PIONEER/rekordbox/export.pdb", &d.m.image);
    w.put("dev/Contents/x.mp3", b"music");
    let out_rel = *t.pick(&["out", "out/m3u", "out/a/b"]);
    if t.chance(1, 2) {
        w.mkdir(out_rel);
    }
    let before = (w.snapshot("dev"), w.snapshot("else"));
    let args = vec![
        "export-playlists".to_string(),
        spell(t, &w, "dev"),
        spell(t, &w, out_rel),
    ];
    let del = gen_delivery(t);
    let a = w.run(ctx, &args, &del);
    let mut runs = vec![a];
    for _ in 0..t.draw(3) {
        let mut plan = del.clone();
        for _ in 0..1 + t.draw(2) {
            if let Some(f) = gen_fault(t, &runs[0], Menu { input: true, output: true, stdout: true, crash: true, alloc: true }) {
                plan += &f;
            }
        }
        let r = w.run(ctx, &args, &plan);
        runs.push(r);
    }
    for r in &runs {
        if r.endless() {
            return viol("endless", r.status());
        }
        untouched(r, Some(out_rel), "export-playlists")?;
        if r.hard_faults() > 0 {
            ctx.probe("with_faults");
        }
        ctx.probe(if r.ok() { "exported" } else { "failed" });
    }
    ctx.nontrivial = true;
    if (w.snapshot("dev"), w.snapshot("else")) != before {
        return viol("changed", "files outside the output directory changed");
    }
    let mut top: Vec<String> = std::fs::read_dir(&w.root)
        .map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect())
        .unwrap_or_default();
    top.sort();
    top.retain(|n| !["dev", "else", "out", "lnk"].contains(&n.as_str()));
    top.extend(w.snapshot("").into_iter().map(|f| f.0).filter(|f| {
        let inside = |a: &str, b: &str| a == b || a.starts_with(&format!("{b}/"));
        inside(f, "out") && !inside(f, out_rel) && !inside(out_rel, f)
    }));
    if !top.is_empty() {
        return viol("changed", format!("created outside the output directory: {top:?}"));
    }
    Ok(())
}

// ---------------------------------------------------------------- any command

/// Prepare the input of some command below dev/ and return its arguments.
fn gen_command(t: &mut Tape, ctx: &mut Ctx, w: &World, export: bool) -> Vec<String> {
    let spoil = |t: &mut Tape, ctx: &mut Ctx, b: &mut Vec<u8>| {
        if t.chance(1, 5) {
            let what = damage(t, b);
            ctx.fault("file_damaged", 1);
            ctx.say(|| format!("damaged: {what:?}"));
        }
    };
    match t.draw(if export { 10 } else { 9 }) {
        0 | 1 | 9 => {
            let d = gen_playlist_db(t, &mut plain_name);
            let mut img = if t.chance(1, 200) { gen_deep(t).bytes } else { d.m.image };
            spoil(t, ctx, &mut img);
            w.put("dev/PIONEER/rekordbox/export.pdb", &img);
            if export && t.chance(1, 2) {
                vec!["export-playlists".into(), spell(t, w, "dev"), spell(t, w, "out")]
            } else {
                vec!["list-playlists".into(), spell(t, w, "dev/PIONEER/rekordbox/export.pdb")]
            }
        }
        2 => {
            gen_settings_export(t, ctx, w);
            vec!["list-settings".into(), spell(t, w, "dev")]
        }
        _ => {
            let m = if t.chance(1, 200) { gen_deep(t) } else { gen_media(t, 4) };
            ctx.say(|| m.what.clone());
            let mut b = m.bytes;
            spoil(t, ctx, &mut b);
            match m.fmt {
                Fmt::Anlz => {
                    w.put("dev/ANLZ0000.DAT", &b);
                    vec!["dump-anlz".into(), spell(t, w, "dev/ANLZ0000.DAT")]
                }
                Fmt::Xml => {
                    w.put("dev/lib.xml", &b);
                    vec!["dump-xml".into(), spell(t, w, "dev/lib.xml")]
                }
                Fmt::Setting(ty) => {
                    let by_name = t.chance(1, 2);
                    let rel = if by_name {
                        format!("dev/{}", setting_file_name(ty))
                    } else {
                        "dev/some.dat".to_string()
                    };
                    w.put(&rel, &b);
                    let mut a = vec!["dump-setting".into(), spell(t, w, &rel)];
                    if !by_name || t.chance(1, 4) {
                        a.push("--setting-type".into());
                        a.push(
                            match ty {
                                SettingType::DevSetting => "devsetting",
                                SettingType::DJMMySetting => "djmmysetting",
                                SettingType::MySetting => "mysetting",
                                SettingType::MySetting2 => "mysetting2",
                            }
                            .into(),
                        );
                    }
                    a
                }
                Fmt::Pdb { ext } => {
                    let by_name = t.chance(1, 2);
                    let rel = match (by_name, ext) {
                        (true, true) => "dev/exportExt.pdb",
                        (true, false) => "dev/export.pdb",
                        _ => "dev/db",
                    };
                    w.put(rel, &b);
                    let mut a = vec!["dump-pdb".into(), spell(t, w, rel)];
                    if !by_name || t.chance(1, 4) {
                        a.push("--db-type".into());
                        a.push(if ext { "ext" } else { "plain" }.into());
                    }
                    if t.chance(1, 2) {
                        a.push("--parse-unknown-tables".into());
                    }
                    a
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C17

pub fn c17(t: &mut Tape, ctx: &mut Ctx) -> R {
    let w = World::new(ctx);
    let args = gen_command(t, ctx, &w, true);
    let clean = w.run(ctx, &args, "hash=1");
    no_crash(&clean, &args[0])?;
    let del = gen_delivery(t);
    let a = w.run(ctx, &args, &del);
    no_crash(&a, &args[0])?;
    if a.out != clean.out || a.code != clean.code || a.err != clean.err {
        return viol(
            "unstable",
            format!(
                "{args:?}: output depends on hash seed or delivery: {} / {}, {:?} / {:?}, stderr {:?} / {:?}",
                clean.status(),
                a.status(),
                tail(&clean.out, &a.out),
                tail(&a.out, &clean.out),
                clean.err,
                a.err
            ),
        );
    }
    ctx.probe("same_output");
    for _ in 0..1 + t.draw(3) {
        let mut plan = del.clone();
        for _ in 0..1 + t.draw(2) {
            let alloc = t.chance(1, 4);
            if let Some(f) = gen_fault(
                t,
                &a,
                Menu { input: true, output: false, stdout: false, crash: false, alloc },
            ) {
                plan += &f;
            }
        }
        let r = w.run(ctx, &args, &plan);
        no_crash(&r, &args[0])?;
        if r.ok() && r.err.is_empty() {
            if r.out != a.out {
                return viol(
                    "silent",
                    format!(
                        "{} ends with success and no message, but prints {:?} instead of {:?}",
                        args[0],
                        tail(&r.out, &a.out),
                        tail(&a.out, &r.out)
                    ),
                );
            }
            if r.hard_faults() > 0 {
                ctx.probe("fault_without_effect");
            }
        } else if r.hard_faults() > 0 && a.ok() {
            ctx.probe("fault_reported");
        }
    }
    // The input itself cut short.
    if t.chance(1, 3) {
        let files: Vec<(String, Vec<u8>)> = w
            .snapshot("dev")
            .into_iter()
            .filter_map(|(n, b)| b.map(|b| (n, b)))
            .filter(|(_, b)| !b.is_empty())
            .collect();
        if !files.is_empty() {
            let (n, b) = &files[t.usize(files.len())];
            let keep = match t.draw(2) {
                0 => t.usize(b.len()),
                _ => b.len() - 1 - t.usize(b.len().min(16)),
            };
            w.put(&format!("dev/{n}"), &b[..keep]);
            ctx.fault("file_cut_short", 1);
            let r = w.run(ctx, &args, &del);
            no_crash(&r, &args[0])?;
            if r.ok() && r.err.is_empty() && a.ok() && r.out != a.out {
                return viol(
                    "silent",
                    format!(
                        "{} of a file cut from {} to {keep} bytes ends with success and no message, but prints {:?} instead of {:?}",
                        args[0],
                        b.len(),
                        tail(&r.out, &a.out),
                        tail(&a.out, &r.out)
                    ),
                );
            }
        }
    }
    Ok(())
}

/// Where the first differs from the second.
fn tail(a: &[u8], b: &[u8]) -> String {
    let n = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let s = n.saturating_sub(40);
    String::from_utf8_lossy(&a[s..a.len().min(n + 120)]).into_owned()
}

// ---------------------------------------------------------------- C19

/// Text to expect: exactly this, or a note up to the end of the line on what is missing: some
/// text, which holds this much and passes for none of these.
enum Piece<'a> {
    Text(String),
    Note(&'a str, &'a BTreeSet<String>),
}

fn listing<'a>(
    d: &'a PlDb,
    lines: &'a BTreeSet<String>,
    id: u32,
    level: usize,
    visited: &mut BTreeSet<u32>,
    out: &mut Vec<Piece<'a>>,
) -> bool {
    if d.nodes.iter().any(|n| n.parent == id) && !visited.insert(id) {
        return false;
    }
    for n in d.nodes.iter().filter(|n| n.parent == id) {
        let ind = "    ".repeat(level);
        out.push(Piece::Text(format!(
            "{ind}{} {}\n",
            if n.folder { "🗀" } else { "🗎" },
            n.name
        )));
        for (i, track) in d.entries.get(&n.id).into_iter().flatten() {
            out.push(Piece::Text(format!("{ind}  ♫ {i}: ")));
            match d.tracks.get(track) {
                None => out.push(Piece::Note("", lines)),
                Some((artist, title, _)) => match d.artists.get(artist) {
                    Some(a) => out.push(Piece::Text(format!("{a} - {title}\n"))),
                    None => out.push(Piece::Note(title, lines)),
                },
            }
        }
        if !listing(d, lines, n.id, level + 1, visited, out) {
            return false;
        }
    }
    true
}

fn matches(mut s: &str, p: &[Piece]) -> Result<(), String> {
    for x in p {
        match x {
            Piece::Text(t) => match s.strip_prefix(t.as_str()) {
                Some(r) => s = r,
                None => {
                    return Err(format!(
                        "expected {t:?}, found {:?}",
                        s.chars().take(60).collect::<String>()
                    ))
                }
            },
            Piece::Note(must, lines) => {
                let (l, rest) = s.split_once('\n').unwrap_or((s, ""));
                if lines.contains(l) || l.len() <= must.len() || !l.contains(must) {
                    return Err(format!("no note of what is missing (with {must:?}), but {l:?}"));
                }
                s = rest;
            }
        }
    }
    if s.is_empty() {
        Ok(())
    } else {
        Err(format!("more than expected: {s:?}"))
    }
}

pub fn c19(t: &mut Tape, ctx: &mut Ctx) -> R {
    let w = World::new(ctx);
    let d = gen_playlist_db(t, &mut plain_name);
    ctx.say(|| d.m.describe());
    let mut img = d.m.image.clone();
    let cut = t.chance(1, 10);
    if cut {
        img.truncate(t.usize(img.len()));
        ctx.fault("file_cut_short", 1);
    }
    w.put("dev/x.pdb", &img);
    let mut want = vec![];
    // What the line of a track by one of the artists may look like.
    let titles: BTreeSet<&String> = d.tracks.values().map(|t| &t.1).collect();
    let lines = d
        .artists
        .values()
        .map(|a| a.as_str())
        .chain([""])
        .take(40)
        .flat_map(|a| titles.iter().map(move |t| format!("{a} - {t}")))
        .collect();
    let sound = listing(&d, &lines, 0, 0, &mut BTreeSet::new(), &mut want);
    let args = vec!["list-playlists".to_string(), spell(t, &w, "dev/x.pdb")];
    let del = gen_delivery(t);
    let a = w.run(ctx, &args, &del);
    let judge = |ctx: &mut Ctx, r: &Ran| -> R {
        no_crash(r, "list-playlists")?;
        if !r.ok() {
            if r.err.is_empty() {
                return viol("no-message", format!("{} without a message", r.status()));
            }
            return Ok(());
        }
        if !sound {
            return viol("success-despite-cycle", "cyclic folders, but exit 0");
        }
        match matches(&String::from_utf8_lossy(&r.out), &want) {
            Ok(()) => {
                ctx.probe("complete");
                Ok(())
            }
            Err(e) => viol("wrong-listing", e),
        }
    };
    judge(ctx, &a)?;
    if !a.ok() && sound && !cut {
        return viol("fails", format!("nothing wrong, but {}: {}", a.status(), a.err));
    }
    if !a.ok() && !cut {
        ctx.probe("cycle_reported");
    }
    for _ in 0..1 + t.draw(3) {
        if let Some(f) = gen_fault(
            t,
            &a,
            Menu { input: true, output: false, stdout: false, crash: false, alloc: false },
        ) {
            let r = w.run(ctx, &args, &format!("{del}{f}"));
            judge(ctx, &r)?;
            if r.hard_faults() > 0 && !r.ok() {
                ctx.probe("fault_reported");
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C25

pub fn c25(t: &mut Tape, ctx: &mut Ctx) -> R {
    let w = World::new(ctx);
    let args = gen_command(t, ctx, &w, true);
    let del = gen_delivery(t);
    let a = w.run(ctx, &args, &del);
    for _ in 0..1 + t.draw(4) {
        let mut plan = del.clone();
        let mut inputs = false;
        for _ in 0..1 + t.draw(2) {
            let input = t.chance(1, 8);
            inputs |= input;
            if let Some(f) = gen_fault(
                t,
                &a,
                Menu { input, output: false, stdout: true, crash: false, alloc: false },
            ) {
                plan += &f;
            }
        }
        let r = w.run(ctx, &args, &plan);
        if r.endless() {
            return viol("endless", format!("{args:?}: {}", r.status()));
        }
        if r.ok() && a.ok() && (!inputs || r.err == a.err) && r.out != a.out {
            return viol(
                "cut-off",
                format!(
                    "{} ends with success, but only {} of {} bytes were printed",
                    args[0],
                    r.out.len(),
                    a.out.len()
                ),
            );
        }
        if r.hard_faults() > 0 {
            ctx.probe(if r.ok() { "fault_without_effect" } else { "fault_reported" });
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C26

/// Whether `want` occurs in `lines` in this order; else the first that is missing.
fn in_order<'a>(lines: &mut impl Iterator<Item = &'a str>, want: &[String]) -> Result<(), String> {
    for w in want {
        if !lines.any(|l| l.trim() == w) {
            return Err(w.clone());
        }
    }
    Ok(())
}

fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// What a dump has to contain: lines in order, or one text (white space aside).
enum Shown {
    Lines(Vec<String>),
    Text(String),
    /// The file is no valid input: the dump must not succeed.
    Nothing,
}

/// Lines a dump of a database has to have.
fn pdb_lines(m: &crate::gen_pdb::Db, img: &[u8], unknown: bool) -> Option<Vec<String>> {
    let mut out = vec![];
    for ti in 0..m.tables.len() {
        if matches!(m.tables[ti].kind, Kind::Unknown(_)) && !unknown {
            continue;
        }
        let walk = crate::walk::model_walk(m, img, ti);
        if !walk.complete {
            return None;
        }
        for p in walk.pages {
            let page = crate::pdbx::ref_page(img, m.ext, p).ok()?;
            out.push(format!("{page:?}"));
            if let Some(d) = page.content.as_data() {
                for s in m.present_offsets(p) {
                    out.push(format!("{:?}", d.rows.get(&s)?));
                }
            } else if let Some(i) = page.content.as_index() {
                for e in &i.entries {
                    out.push(format!("{e:?}"));
                }
            }
        }
    }
    Some(out)
}

pub fn c26(t: &mut Tape, ctx: &mut Ctx) -> R {
    let w = World::new(ctx);
    let rel;
    let mut args: Vec<String>;
    let shown;
    let spoilt;
    if t.chance(2, 3) {
        let mut o = crate::media::small_db_opts(t);
        o.max_pages = o.max_pages.max(4);
        let m = crate::gen_pdb::gen_db(t, &o);
        ctx.say(|| m.describe());
        let mut img = m.image.clone();
        spoilt = t.chance(1, 4) && crate::walk::break_links(t, ctx, &m, &mut img);
        let unknown = t.chance(1, 2);
        rel = ["dev/db", if m.ext { "dev/exportExt.pdb" } else { "dev/export.pdb" }][t.usize(2)];
        w.put(rel, &img);
        args = vec!["dump-pdb".into(), spell(t, &w, rel)];
        if rel == "dev/db" || t.chance(1, 4) {
            args.push("--db-type".into());
            args.push(if m.ext { "ext" } else { "plain" }.into());
        }
        if unknown {
            args.push("--parse-unknown-tables".into());
        }
        shown = match lib(|| pdb_lines(&m, &img, unknown)) {
            Ok(Some(l)) => Shown::Lines(l),
            Ok(None) => Shown::Nothing,
            Err(_) => return Ok(()),
        };
    } else {
        let m = gen_media(t, 0);
        ctx.say(|| m.what.clone());
        let mut b = m.bytes.clone();
        spoilt = t.chance(1, 5);
        if spoilt {
            let what = damage(t, &mut b);
            ctx.fault("file_damaged", 1);
            ctx.say(|| format!("damaged: {what:?}"));
        }
        let mut c = std::io::Cursor::new(&b);
        let text = lib(|| match m.fmt {
            Fmt::Anlz => ANLZ::read(&mut c).ok().map(|x| format!("{x:#?}")),
            Fmt::Xml => quick_xml::de::from_reader::<_, Document>(&b[..]).ok().map(|x| format!("{x:#?}")),
            Fmt::Setting(ty) => Setting::read_args(&mut c, (ty,)).ok().map(|x| format!("{x:#04x?}")),
            Fmt::Pdb { .. } => None,
        });
        let Ok(text) = text else { return Ok(()) };
        shown = match text {
            Some(x) => Shown::Text(squeeze(&x)),
            None => Shown::Nothing,
        };
        (rel, args) = match m.fmt {
            Fmt::Anlz => ("dev/ANLZ0000.DAT", vec!["dump-anlz".to_string()]),
            Fmt::Xml => ("dev/lib.xml", vec!["dump-xml".to_string()]),
            Fmt::Setting(ty) => (
                "dev/some.dat",
                vec![
                    "dump-setting".to_string(),
                    "--setting-type".into(),
                    match ty {
                        SettingType::DevSetting => "devsetting",
                        SettingType::DJMMySetting => "djmmysetting",
                        SettingType::MySetting => "mysetting",
                        SettingType::MySetting2 => "mysetting2",
                    }
                    .into(),
                ],
            ),
            Fmt::Pdb { .. } => return Ok(()),
        };
        w.put(rel, &b);
        args.push(spell(t, &w, rel));
    }
    let del = gen_delivery(t);
    let judge = |ctx: &mut Ctx, r: &Ran| -> R {
        no_crash(r, &args[0])?;
        if !r.ok() || !r.err.is_empty() {
            return Ok(());
        }
        let out = String::from_utf8_lossy(&r.out);
        match &shown {
            Shown::Lines(l) => {
                if let Err(x) = in_order(&mut out.lines(), l) {
                    return viol("incomplete", format!("{args:?} ends with success, but lacks (or shows elsewhere): {x}"));
                }
                ctx.probe("database_complete");
            }
            Shown::Text(x) => {
                if !squeeze(&out).contains(x) {
                    return viol("incomplete", format!("{args:?} ends with success, but prints {:?}, not the file's contents", tail(&r.out, &[])));
                }
                ctx.probe("file_complete");
            }
            Shown::Nothing => {
                return viol("success-on-invalid", format!("{args:?}: the file cannot be read completely, but the dump ends with success and no message"));
            }
        }
        Ok(())
    };
    let a = w.run(ctx, &args, &del);
    judge(ctx, &a)?;
    if !matches!(shown, Shown::Nothing) && !spoilt && !(a.ok() && a.err.is_empty()) {
        return viol("fails", format!("{args:?}: nothing wrong, but {}: {:?}", a.status(), a.err));
    }
    for _ in 0..1 + t.draw(3) {
        if let Some(f) = gen_fault(
            t,
            &a,
            Menu { input: true, output: false, stdout: false, crash: false, alloc: false },
        ) {
            let r = w.run(ctx, &args, &format!("{del}{f}"));
            judge(ctx, &r)?;
            if r.hard_faults() > 0 && !(r.ok() && r.err.is_empty()) {
                ctx.probe("fault_reported");
            }
        }
    }
    Ok(())
}
