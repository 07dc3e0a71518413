//! P01 save honesty, P11 confinement, P14 retry.
use super::*;
use rspolib::AsBytes;
use crate::engine::{eval, nontrivial, sample};
use crate::sim::fs::norm;
use crate::sim::{w, Op};
use rspolib::{MOFile, Merge};

fn is_mo(k: SaveKind) -> bool {
    matches!(k, SaveKind::MoSave | SaveKind::MoAsMo | SaveKind::MoAsPo)
}
fn cat_of(m: &MC, mo: bool) -> Cat {
    if mo {
        Cat::Mo(m.to_mo())
    } else {
        Cat::Po(m.to_po())
    }
}
fn draw_faults_save() {
    w().clear_faults();
    let mode = draw(5);
    if mode != 0 {
        w().draw_soft(false);
    }
    match mode {
        2 => w().draw_hard(&[Op::Write, Op::Create, Op::Close, Op::Sync, Op::Meta, Op::Seek], 3),
        3 => w().draw_disk_free(),
        4 => {
            w().draw_hard(&[Op::Write], 2);
            w().draw_disk_free();
        }
        _ => {}
    }
}

pub fn p01() {
    process(|| {
        let n = 1 + draw(3);
        for _ in 0..n {
            let k = SAVE_KINDS[draw(6) as usize];
            let m = if is_mo(k) { gen_mo(10) } else { gen_po(10, false) };
            let c = cat_of(&m, is_mo(k));
            let want = expected(&c, k);
            let path = if chance(1, 10) { "/sim/missing/out" } else { a_path("out.po") };
            let missing = path.contains("missing");
            let full = norm(path);
            match draw(6) {
                0 => w().fs.del(&full),
                1 => w().fs.put(&full, b"old"),
                2 => w().fs.put(&full, &vec![b'#'; want.len() + 500]),
                3 => w().fs.put(&full, &vec![b'#'; want.len()]),
                4 => {
                    // The same content but for one byte.
                    let mut b = want.clone();
                    if !b.is_empty() {
                        let i = draw(b.len().min(1 << 20) as u32) as usize;
                        b[i] ^= 1;
                    }
                    w().fs.put(&full, &b);
                }
                _ => w().fs.put(&full, &want),
            }
            if missing {
                w().fs.del(&full);
            }
            draw_faults_save();
            let r = save(&c, k, path);
            let (hard, soft) = (w().f.hard_fired, w().f.soft_fired);
            w().clear_faults();
            let got = w().fs.get(&full).cloned();
            eval();
            if hard + soft > 0 {
                nontrivial();
                sample(&format!(
                    "{:?} of {} ({} bytes), {} hard and {} soft faults, caller told {}",
                    k,
                    m.brief(),
                    want.len(),
                    hard,
                    soft,
                    if r.is_ok() { "stored" } else { "failed" }
                ));
            }
            match r {
                Ok(()) => {
                    if got.as_deref() != Some(&want[..]) {
                        violation(
                            "silent_loss",
                            &format!("{:?} returned normally after {} storage errors but the file holds {:?} of {} bytes or other content", k, hard, got.map(|x| x.len()), want.len()),
                        );
                    }
                }
                Err(e) => {
                    if hard == 0 && !missing {
                        violation("failed_without_error", &format!("{:?} failed although no storage call failed for good: {}", k, e));
                    }
                }
            }
        }
    })
}

/// Any read or write fault.
fn draw_any() {
    w().clear_faults();
    match draw(4) {
        0 => {}
        1 => w().draw_soft(true),
        2 => {
            w().draw_soft(false);
            w().draw_hard(&[Op::Stat, Op::Open, Op::Create, Op::Read, Op::Seek, Op::Write, Op::Close, Op::Sync, Op::Meta], 3);
        }
        _ => {
            w().draw_soft(false);
            w().draw_disk_free();
        }
    }
}

pub fn p11() {
    // A directory with catalogues and bystanders.
    let files = ["/sim/a.po", "/sim/b.po", "/sim/a.mo", "/sim/sub/c.po", "/sim/notes.txt"];
    w().fs.add_dir("/sim/sub");
    w().fs.add_dir("/sim/x.po");
    process(move || {
        let ms: Vec<MC> = (0..2).map(|_| gen_po(5, true)).collect();
        let mo = must("rendering MO data", || expected(&Cat::Po(ms[0].to_po()), SaveKind::PoAsMo));
        let mut po = ms[1].to_po();
        w().fs.put("/sim/a.po", render(&ms[0]).as_bytes());
        w().fs.put("/sim/b.po", render(&ms[1]).as_bytes());
        w().fs.put("/sim/sub/c.po", b"msgid \"broken\nmsgstr");
        w().fs.put("/sim/a.mo", &mo);
        w().fs.put("/sim/notes.txt", b"keep me");
        let n = 1 + draw(8);
        let (mut faults, mut saves) = (0, 0);
        // What failed saves left behind; a later save may use or remove it.
        let mut left = std::collections::BTreeSet::new();
        for _ in 0..n {
            draw_any();
            w().fs.vanished.clear();
            let before = w().fs.snapshot();
            let spell = |p: &str, d: u32| match d {
                0 => p.to_string(),
                1 => p[5..].to_string(),
                2 => format!("./{}", &p[5..]),
                _ => format!("/sim/sub/../{}", &p[5..]),
            };
            let op = draw(9);
            let target = files[draw(5) as usize];
            let path = spell(target, draw(4));
            let mut saved = None;
            match op {
                0 => {
                    open_po(&path);
                }
                1 => {
                    open_mo(&path);
                }
                2 => {
                    w().note(|| "=> render".into(), 0);
                    let _ = lib(|| {
                        let s = po.to_string();
                        let _ = MOFile::from(&po).to_string();
                        s.len()
                    });
                    let _ = expected(&Cat::Po(po.clone()), SaveKind::PoAsMo);
                }
                3 => {
                    w().note(|| "=> query and merge".into(), 0);
                    let other = ms[0].to_po();
                    let _ = lib(|| {
                        let _ = po.find("a", "msgid", None, true).len();
                        let _ = po.percent_translated();
                        po.merge(other);
                    });
                }
                4 | 5 => {
                    let k = SAVE_KINDS[draw(3) as usize];
                    saved = Some(save(&Cat::Po(po.clone()), k, &path));
                }
                6 => {
                    let k = SAVE_KINDS[3 + draw(3) as usize];
                    let c = Cat::Mo(must("conversion", || MOFile::from(&po)));
                    saved = Some(save(&c, k, &path));
                }
                7 => {
                    // A new file.
                    let p = ["/sim/new.po", "new.mo", "sub/new.po"][draw(3) as usize];
                    let c = Cat::Po(po.clone());
                    let r = save(&c, SaveKind::PoSave, p);
                    check_effects(&before, &mut left, Some(&norm(p)), r.is_ok(), "saving to a new path");
                    w().clear_faults();
                    continue;
                }
                _ => {
                    let text = render(&ms[0]);
                    open_po_opt(rspolib::FileOptions::from(text.as_str()), "text");
                }
            }
            if w().f.hard_fired + w().f.soft_fired > 0 {
                faults += 1;
            }
            match saved {
                Some(r) => {
                    saves += 1;
                    check_effects(&before, &mut left, Some(&norm(&path)), r.is_ok(), "a save");
                }
                None => check_effects(&before, &mut left, None, true, "an operation that does not save"),
            }
            w().clear_faults();
        }
        if faults + saves > 0 {
            nontrivial();
            sample(&format!("{} operations, {} with faults, {} saves over 5 files", n, faults, saves));
        }
    })
}
fn check_effects(before: &std::collections::BTreeMap<String, Option<Vec<u8>>>, left: &mut std::collections::BTreeSet<String>, target: Option<&str>, ok: bool, what: &str) {
    eval();
    let after = w().fs.snapshot();
    let gone = w().fs.vanished.clone();
    for (p, d) in before {
        if Some(p.as_str()) == target || gone.contains(p) || (target.is_some() && left.contains(p)) {
            continue;
        }
        match after.get(p) {
            None => violation("file_removed", &format!("{} removed {}", what, p)),
            Some(x) if x != d => violation("file_changed", &format!("{} changed {}", what, p)),
            _ => {}
        }
    }
    for p in after.keys() {
        if !before.contains_key(p) && Some(p.as_str()) != target {
            if ok || target.is_none() {
                violation("file_left", &format!("{} left the new file {}", what, p));
            }
            left.insert(p.clone());
        }
    }
    let h = w().fs.open_handles();
    if h > 0 {
        violation("handle_leak", &format!("{} left {} file handles open", what, h));
    }
}

pub fn p14() {
    process(|| {
        let nc = 1 + draw(3) as usize;
        let mut ms = Vec::new();
        let mut cats = Vec::new();
        for i in 0..nc {
            let mo = chance(1, 3);
            let m = if mo { gen_mo(5) } else { gen_po(5, true) };
            let c = cat_of(&m, mo);
            let (k, p) = if mo { (SaveKind::MoSave, format!("/sim/c{}.mo", i)) } else { (SaveKind::PoSave, format!("/sim/c{}.po", i)) };
            let want = expected(&c, k);
            // Files on storage to be opened; saves go elsewhere.
            let stored = match &c {
                Cat::Mo(f) if chance(1, 2) => must("rendering MO data", || f.as_bytes_be().into_owned()),
                _ => want.clone(),
            };
            w().fs.put(&p, &stored);
            // A part of it, the open of which may fail on healthy storage as well.
            let cut = draw(stored.len() as u32 + 1) as usize;
            w().fs.put(&format!("/sim/cut{}", i), &stored[..cut]);
            let back = if mo { m.mo_all() } else { m.reopened() };
            ms.push((m, k, p, want, back, stored));
            cats.push(c);
        }
        let n = 1 + draw(30);
        let mut failures = 0;
        w().draw_soft(false);
        // A storm without a break, of one kind of call or of all.
        let total = chance(1, 4);
        let only = if chance(1, 2) { draw(2) } else { 2 };
        if total {
            w().draw_total();
        }
        for _ in 0..n {
            let i = draw(nc as u32) as usize;
            if !total && chance(1, 2) {
                w().f.plans.clear();
                w().fs.free = None;
                if chance(1, 4) {
                    w().draw_disk_free();
                } else {
                    w().draw_hard(&[Op::Stat, Op::Open, Op::Create, Op::Read, Op::Seek, Op::Write, Op::Close], 2);
                }
            }
            let failed = if (only == 2 && draw(2) == 0) || only == 0 {
                save(&cats[i], ms[i].1, &format!("/sim/out{}", i)).is_err()
            } else {
                let p = if chance(1, 6) { format!("/sim/cut{}", i) } else { ms[i].2.clone() };
                let r = match cats[i] {
                    Cat::Po(_) => open_po(&p).0,
                    Cat::Mo(_) => open_mo(&p).0,
                };
                if let Opened::Panic(p) = &r {
                    // Reported under P04 and P05; here it only counts as a failure.
                    let _ = p;
                }
                !matches!(r, Opened::Cat(_))
            };
            failures += failed as u32;
            for (j, c) in cats.iter().enumerate() {
                eval();
                let now = match c {
                    Cat::Po(f) => MC::of_po(f).canon(),
                    Cat::Mo(f) => MC::of_mo(f),
                };
                let mut was = if let Cat::Po(_) = c { ms[j].0.canon() } else { ms[j].0.clone() };
                was.meta.sort();
                if now != was {
                    violation("memory_changed", &format!("catalogue {} in memory changed during a {} operation: {}", j, if failed { "failed" } else { "successful" }, diff(&now, &was, 78).unwrap_or_default()));
                }
            }
        }
        for p in w().fs.vanished.clone() {
            if let Some(x) = ms.iter().find(|x| x.2 == p) {
                w().fs.put(&p, &x.5);
            }
        }
        // Healthy again: the very next operations must succeed completely.
        w().clear_faults();
        if chance(1, 2) {
            w().draw_soft(true);
        }
        for i in 0..nc {
            let path = format!("/sim/out{}", i);
            eval();
            if let Err(e) = save(&cats[i], ms[i].1, &path) {
                violation("no_recovery_save", &format!("after {} failures the storage works again but saving fails: {}", failures, e));
            }
            if w().fs.get(&path) != Some(&ms[i].3) {
                violation("no_recovery_content", "after failures the storage works again but a save does not store the catalogue");
            }
            eval();
            let r = match cats[i] {
                Cat::Po(_) => open_po(&ms[i].2).0,
                Cat::Mo(_) => open_mo(&ms[i].2).0,
            };
            match r {
                Opened::Cat(mut g) => {
                    if let Cat::Mo(_) = cats[i] {
                        for e in g.e.iter_mut() {
                            *e = e.mo_part();
                        }
                        g.sort_keys();
                    }
                    if let Some(d) = diff(&g, &ms[i].4, 78) {
                        violation("no_recovery_open_content", &format!("after failures the storage works again but an open returns: {}", d));
                    }
                }
                x => violation("no_recovery_open", &format!("after {} failures the storage works again but opening gives {}", failures, x.brief())),
            }
        }
        if w().fs.open_handles() > 0 {
            violation("handle_leak", "file handles stay open after failures");
        }
        if failures > 0 {
            nontrivial();
            sample(&format!("{} operations on {} catalogues, {} failed, then all recovered", n, nc, failures));
        }
    })
}
