//! P02 PO round trip, P03 MO round trip, P09 determinism of output.
use super::*;
use crate::engine::{eval, nontrivial, sample};
use crate::sim::{w, K};
use rspolib::{AsBytes, FileOptions, MOFile, POFile, MAGIC, MAGIC_SWAPPED};

/// The text of the catalogue with every entry rendered at a given width.
fn compose(m: &MC, width: usize) -> String {
    let base = MC { e: vec![], ..m.clone() };
    must("rendering at a wrap width", || {
        let mut s = base.to_po().to_string();
        for pass in [false, true] {
            for e in m.e.iter().filter(|e| e.obs == pass) {
                s.push('\n');
                s.push_str(&e.to_po().to_string_with_wrapwidth(width));
            }
        }
        s
    })
}
fn reopen_po(path: &str, want: &MC, width: usize, what: &str) -> POFile {
    eval();
    let (o, f) = open_po_opt(FileOptions::from((path, width)), path);
    match o {
        Opened::Cat(g) => {
            if let Some(d) = diff(&g, want, width) {
                violation("differs", &format!("{}: {}", what, d));
            }
            f.unwrap()
        }
        x => violation("unreadable", &format!("{}: reopening gives {}", what, x.brief())),
    }
}

pub fn p02() {
    let path = a_path("c.po");
    let (m, width, mode, cycles) = process(|| {
        let m = gen_po(12, false);
        let mode = draw(3);
        let width = if mode == 0 { 78 } else { draw(201) as usize };
        (m, width, mode, 1 + draw(3))
    });
    let want = m.reopened();
    let m2 = m.clone();
    let mut soft = process(move || {
        if mode == 2 {
            let s = compose(&m2, width);
            w().fs.put(path, s.as_bytes());
            return 0;
        }
        w().draw_soft(false);
        let mut f = POFile::new(FileOptions::from(("", width)));
        m2.fill_po(&mut f);
        if let Err(e) = save(&Cat::Po(f), SaveKind::PoSave, path) {
            violation("save_failed", &format!("saving on healthy storage failed: {}", e));
        }
        w().f.soft_fired
    });
    for c in 0..cycles {
        w().restart();
        let want = want.clone();
        soft += process(move || {
            w().clear_faults();
            w().draw_soft(false);
            let f = reopen_po(path, &want, width, &format!("after {} cycles at width {}", c + 1, width));
            if c + 1 < cycles {
                if let Err(e) = save(&Cat::Po(f), SaveKind::PoSave, path) {
                    violation("save_failed", &format!("saving on healthy storage failed: {}", e));
                }
            }
            w().f.soft_fired
        });
    }
    if !m.e.is_empty() && (soft > 0 || width != 78 || cycles > 1) {
        nontrivial();
        sample(&format!("{}, width {}, {} cycles, {} partial or interrupted calls", m.brief(), width, cycles, soft));
    }
}

fn check_mo_bytes(b: &[u8], want: &MC, big: bool, rev: u32, what: &str) {
    eval();
    let d = match decode_mo(b) {
        Ok(d) => d,
        Err(e) => violation("malformed_mo", &format!("{}: {}", what, e)),
    };
    if d.big != big || d.rev != rev {
        violation("malformed_mo", &format!("{}: byte order or revision differ from those asked for", what));
    }
    let mut pairs = d.pairs;
    let mut meta: Vec<(String, String)> = Vec::new();
    if pairs.first().map_or(false, |p| p.0.is_empty()) {
        let (_, v) = pairs.remove(0);
        for l in String::from_utf8_lossy(&v).split('\n') {
            if let Some((k, x)) = l.split_once(':') {
                meta.push((k.to_string(), x.trim().to_string()));
            }
        }
    }
    meta.sort();
    if meta != want.meta {
        violation("mo_metadata", &format!("{}: stored metadata {:?} instead of {:?}", what, meta, want.meta));
    }
    let exp: Vec<(Vec<u8>, Vec<u8>)> = want.e.iter().map(encode_pair).collect();
    let mut got = pairs.clone();
    let mut e2 = exp.clone();
    got.sort();
    e2.sort();
    if got != e2 {
        let i = got.iter().zip(&e2).position(|(a, b)| a != b).unwrap_or(got.len().min(e2.len()));
        let f = |x: Option<&(Vec<u8>, Vec<u8>)>| x.map_or("nothing".into(), |p| format!("{} = {}", brief(&String::from_utf8_lossy(&p.0)), brief(&String::from_utf8_lossy(&p.1))));
        violation("mo_messages", &format!("{}: {} instead of {} messages stored; {} instead of {}", what, got.len(), e2.len(), f(got.get(i)), f(e2.get(i))));
    }
}
fn norm_mo(mut g: MC) -> MC {
    g.e = g.e.iter().map(|e| e.mo_part()).collect();
    g.sort_keys();
    g
}
fn reopen_mo(path: &str, want: &MC, what: &str) -> MOFile {
    eval();
    let (o, f) = open_mo(path);
    match o {
        Opened::Cat(g) => {
            if let Some(d) = diff(&norm_mo(g), want, 78) {
                violation("mo_differs", &format!("{}: {}", what, d));
            }
            f.unwrap()
        }
        x => violation("mo_unreadable", &format!("{}: reopening gives {}", what, x.brief())),
    }
}

pub fn p03() {
    let (mo, po) = (a_path("c.mo"), "/sim/back/c.po");
    w().fs.add_dir("/sim/back");
    let (mut want, total) = process(|| {
        let hand = chance(1, 3);
        let m = if hand { gen_mo(10) } else { gen_po(10, true) };
        let want = if hand { m.mo_all() } else { m.mo_messages() };
        let c = if hand { Cat::Mo(m.to_mo()) } else { Cat::Po(m.to_po()) };
        w().draw_soft(false);
        let big = chance(1, 2);
        let rev = draw(2);
        if chance(1, 2) {
            let k = if hand { [SaveKind::MoSave, SaveKind::MoAsMo][draw(2) as usize] } else { SaveKind::PoAsMo };
            if let Err(e) = save(&c, k, mo) {
                violation("save_failed", &format!("saving on healthy storage failed: {}", e));
            }
            let b = w().fs.get(mo).cloned().unwrap_or_default();
            check_mo_bytes(&b, &want, false, 0, "saved file");
        } else {
            let b = must("rendering MO data", || match &c {
                Cat::Po(f) => MOFile::from(f).as_bytes_with(if big { MAGIC_SWAPPED } else { MAGIC }, rev).into_owned(),
                Cat::Mo(f) => f.as_bytes_with(if big { MAGIC_SWAPPED } else { MAGIC }, rev).into_owned(),
            });
            check_mo_bytes(&b, &want, big, rev, "rendered data");
            let (le, be) = must("rendering MO data", || match &c {
                Cat::Po(f) => (f.as_bytes_le().into_owned(), f.as_bytes_be().into_owned()),
                Cat::Mo(f) => (f.as_bytes_le().into_owned(), f.as_bytes_be().into_owned()),
            });
            check_mo_bytes(&le, &want, false, 0, "little-endian data");
            check_mo_bytes(&be, &want, true, 0, "big-endian data");
            w().fs.put(mo, &b);
        }
        (want, m.e.len())
    });
    let cycles = draw(3);
    let mut soft = w().f.soft_fired;
    for c in 0..=cycles {
        w().restart();
        let x = want.clone();
        let last = c == cycles;
        let (nw, s) = process(move || {
            w().clear_faults();
            w().draw_soft(false);
            let f = reopen_mo(mo, &x, "reopened MO file");
            if last {
                return (x, w().f.soft_fired);
            }
            if chance(1, 3) {
                // MO to MO.
                if let Err(e) = save(&Cat::Mo(f), SaveKind::MoSave, mo) {
                    violation("save_failed", &format!("saving on healthy storage failed: {}", e));
                }
                let b = w().fs.get(mo).cloned().unwrap_or_default();
                check_mo_bytes(&b, &x, false, 0, "file saved again");
                return (x, w().f.soft_fired);
            }
            // MO to PO and back.
            if let Err(e) = save(&Cat::Mo(f), SaveKind::MoAsPo, po) {
                violation("save_failed", &format!("saving on healthy storage failed: {}", e));
            }
            eval();
            let (o, p) = open_po(po);
            let p = match o {
                Opened::Cat(g) => {
                    let mut g2 = g.clone();
                    g2.header = None;
                    g2.e = g.e.iter().map(|e| e.mo_part()).collect();
                    let mut x2 = x.clone();
                    x2.sort_keys();
                    g2.sort_keys();
                    if let Some(d) = diff(&g2, &x2, 78) {
                        violation("mo_to_po_differs", &format!("MO saved as PO: {}", d));
                    }
                    p.unwrap()
                }
                o => violation("mo_to_po_unreadable", &format!("MO saved as PO: opening gives {}", o.brief())),
            };
            if let Err(e) = save(&Cat::Po(p), SaveKind::PoAsMo, mo) {
                violation("save_failed", &format!("saving on healthy storage failed: {}", e));
            }
            let mut x = x;
            x.e.retain(|e| e.translated());
            (x, w().f.soft_fired)
        });
        want = nw;
        soft += s;
    }
    if total > 0 {
        nontrivial();
        sample(&format!("{} messages of {} translated, {} conversion cycles, {} partial or interrupted calls", want.e.len(), total, cycles, soft));
    }
}

/// Build the same catalogue, adding metadata in a drawn order with detours.
fn build_shuffled(m: &MC) -> POFile {
    let mut f = POFile::new("".into());
    let mut order: Vec<usize> = (0..m.meta.len()).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, i - draw(i as u32 + 1) as usize);
    }
    let extra = draw(3) as usize;
    for i in 0..extra {
        f.metadata.insert(format!("X-Temp-{}", i), "t".into());
    }
    for i in order {
        f.metadata.insert(m.meta[i].0.clone(), m.meta[i].1.clone());
    }
    for i in 0..extra {
        f.metadata.remove(&format!("X-Temp-{}", i));
    }
    f.header = m.header.clone();
    f.metadata_is_fuzzy = m.fuzzy;
    f.entries = m.e.iter().map(|e| e.to_po()).collect();
    f
}
#[derive(PartialEq)]
struct Views(Vec<(&'static str, Vec<u8>)>);
fn views(f: &POFile) -> Views {
    let a = must("rendering", || {
        let mo = MOFile::from(f);
        let mut es = String::new();
        for e in &f.entries {
            es.push_str(&e.to_string_with_wrapwidth(40));
        }
        vec![
            ("PO text", f.to_string().into_bytes()),
            ("MO data, little-endian", f.as_bytes_le().into_owned()),
            ("MO data, big-endian", f.as_bytes_be().into_owned()),
            ("MO data, revision 1", mo.as_bytes_with(MAGIC_SWAPPED, 1).into_owned()),
            ("MO catalogue as PO text", mo.to_string().into_bytes()),
            ("metadata entry", format!("{:?}", f.metadata_as_entry().msgstr).into_bytes()),
            ("entries at width 40", es.into_bytes()),
        ]
    });
    Views(a)
}
fn same(a: &Views, b: &Views, what: &str) {
    for (x, y) in a.0.iter().zip(&b.0) {
        eval();
        if x.1 != y.1 {
            let i = x.1.iter().zip(&y.1).position(|(p, q)| p != q).unwrap_or(x.1.len().min(y.1.len()));
            let cut = |v: &[u8]| String::from_utf8_lossy(&v[i.saturating_sub(30)..(i + 50).min(v.len())]).into_owned();
            violation("output_differs", &format!("{} of equal catalogues differs {} at byte {}: {} and {}", x.0, what, i, brief(&cut(&x.1)), brief(&cut(&y.1))));
        }
    }
}
pub fn p09() {
    let m = process(|| {
        let mut m = gen_po(6, true);
        if m.meta.len() < 2 && chance(2, 3) {
            let mut g = G::new(&mut w().tape);
            g.mo = true;
            m.meta = g.meta();
        }
        m
    });
    let k = 2 + draw(3);
    let mut first: Option<Views> = None;
    for i in 0..k {
        w().rnd = crate::sim::mix(w().rnd ^ draw(1 << 16) as u64);
        w().count(K::HashSeeds);
        // Another moment, up to half an hour later.
        w().now_ns += draw(2000) as u64 * 1_000_000_000;
        let m2 = m.clone();
        let v = process(move || {
            w().draw_soft(false);
            let f = build_shuffled(&m2);
            let v = views(&f);
            let path = format!("/sim/c{}.po", i);
            if let Err(e) = save(&Cat::Po(f), SaveKind::PoSave, &path) {
                violation("save_failed", &format!("saving on healthy storage failed: {}", e));
            }
            eval();
            if w().fs.get(&path) != Some(&v.0[0].1) {
                violation("saved_differs", "the saved file differs from the rendered text");
            }
            w().clear_faults();
            v
        });
        match &first {
            None => first = Some(v),
            Some(f) => same(f, &v, "between hash seeds or insertion orders"),
        }
    }
    // Save, reopen, save again.
    let cycles = draw(4);
    let v0 = first.unwrap();
    let mut text = v0.0[0].1.clone();
    // Previous messages of obsolete entries are written but not kept.
    let drops = m.e.iter().any(|e| e.obs && (e.pctx.is_some() || e.pid.is_some() || e.ppl.is_some()));
    for c in 0..cycles {
        w().restart();
        let before = text.clone();
        text = process(move || {
            w().draw_soft(false);
            match open_po("/sim/c0.po") {
                (Opened::Cat(_), Some(f)) => {
                    if let Err(e) = save(&Cat::Po(f), SaveKind::PoSave, "/sim/c0.po") {
                        violation("save_failed", &format!("saving on healthy storage failed: {}", e));
                    }
                }
                (x, _) => violation("unreadable", &format!("reopening gives {}", x.brief())),
            }
            w().clear_faults();
            eval();
            let now = w().fs.get("/sim/c0.po").cloned().unwrap_or_default();
            if now != before && !(drops && c == 0) {
                let i = now.iter().zip(&before).position(|(p, q)| p != q).unwrap_or(now.len().min(before.len()));
                let cut = |v: &[u8]| String::from_utf8_lossy(&v[i.saturating_sub(60)..(i + 60).min(v.len())]).into_owned();
                violation("not_a_fixpoint", &format!("cycle {} of save, reopen and save changed byte {}: {:?} became {:?}", c + 1, i, cut(&before), cut(&now)));
            }
            now
        });
    }
    if m.meta.len() > 1 {
        nontrivial();
        sample(&format!("{}, {} renderings under fresh hash seeds, {} save and reopen cycles", m.brief(), k, cycles));
    }
}
