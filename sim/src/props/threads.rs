//! P10: threads against their sequential selves.
use super::*;
use crate::engine::{eval, harness_error, nontrivial, sample, shm};
use crate::sim::raw::{exit_now, fork, waitpid};
use crate::sim::{hash_bytes, mix, sched, w, Inside, Op, K};
use rspolib::{AsBytes, FileOptions, MOFile, Merge, POFile, TranslatedEntry};
use std::sync::{Arc, Mutex};

const PER: usize = 8;

#[derive(Clone)]
enum Act {
    OpenPo,
    OpenMo,
    OpenText(String),
    OpenBytes(Vec<u8>),
    Render(MC),
    SavePo(MC),
    SaveMo(MC),
    Merge(MC, MC),
    SharedRender,
    SharedFind(String),
    SharedBytes,
    EditCycle(MC),
    OpenMissing,
    OpenSharedPo,
    OpenSharedMo,
}
/// Where the files of thread `i` are: in a directory of its own, in one
/// directory for all, or in one directory under names that differ only in
/// what follows the last dot.
fn place(layout: u32, i: usize, name: &str) -> String {
    match layout {
        0 => format!("/sim/t{}/{}", i, name),
        1 => format!("/sim/all/{}{}", i, name),
        _ => format!("/sim/all/{}.{}", name.replace('.', "_"), ["po", "mo", "pot", "PO"][i]),
    }
}
fn hopen(o: &Opened) -> u64 {
    hash_bytes(format!("{:?}", o).as_bytes())
}
fn hstr<T: std::fmt::Debug>(t: T) -> u64 {
    hash_bytes(format!("{:?}", t).as_bytes())
}
/// Every thread has a wrap width of its own.
fn po_of(m: &MC, i: usize) -> POFile {
    let mut f = m.to_po();
    f.options.wrapwidth = [78, 40, 120, 20][i];
    f
}
/// Perform one operation of thread `i`; the digest covers everything it can see.
fn act(l: u32, i: usize, a: &Act, shared: &POFile) -> (u64, bool) {
    let clean = |r: Result<u64, String>| match r {
        Ok(h) => (h, true),
        Err(p) => (hstr(p), false),
    };
    match a {
        Act::OpenPo => {
            let o = open_po(&place(l, i, "in.po")).0;
            (hopen(&o), matches!(o, Opened::Cat(_)))
        }
        Act::OpenMo => {
            let o = open_mo(&place(l, i, "in.mo")).0;
            (hopen(&o), matches!(o, Opened::Cat(_)))
        }
        Act::OpenMissing => {
            let o = open_po(&place(l, i, "missing.po")).0;
            (hopen(&o), true)
        }
        Act::OpenSharedPo => {
            let o = open_po("/sim/all/shared.po").0;
            (hopen(&o), matches!(o, Opened::Cat(_)))
        }
        Act::OpenSharedMo => {
            let o = open_mo("/sim/all/shared.mo").0;
            (hopen(&o), matches!(o, Opened::Cat(_)))
        }
        Act::OpenText(s) => {
            let o = open_po_opt(FileOptions::from(s.as_str()), "text").0;
            (hopen(&o), matches!(o, Opened::Cat(_)))
        }
        Act::OpenBytes(b) => {
            let o = open_mo_opt(FileOptions::from(b.clone()), "bytes").0;
            (hopen(&o), matches!(o, Opened::Cat(_)))
        }
        Act::Render(m) => {
            w().note(|| "=> render".into(), 10);
            let f = po_of(m, i);
            clean(lib(|| {
                let s = f.to_string();
                let e: Vec<String> = f.entries.iter().map(|e| e.to_string_with_wrapwidth(30)).collect();
                hstr((s, e))
            }))
        }
        Act::SavePo(m) | Act::SaveMo(m) => {
            let k = if matches!(a, Act::SavePo(_)) { SaveKind::PoSave } else { SaveKind::PoAsMo };
            let p = place(l, i, "out");
            let r = save(&Cat::Po(po_of(m, i)), k, &p);
            (hstr((&r, w().fs.get(&p))), r.is_ok())
        }
        Act::Merge(m, r) => {
            w().note(|| "=> merge".into(), 11);
            let (mut f, g) = (m.to_po(), r.to_po());
            let x = lib(|| f.merge(g));
            let h = hstr(MC::of_po(&f).canon());
            clean(x.map(|_| h))
        }
        Act::SharedRender => {
            w().note(|| "=> render shared".into(), 12);
            clean(lib(|| hstr(shared.to_string())))
        }
        Act::SharedFind(s) => {
            w().note(|| "=> query shared".into(), 13);
            clean(lib(|| {
                let v: Vec<String> = shared.find(s, "msgid", None, true).iter().map(|e| e.msgid.clone()).collect();
                let p = shared.percent_translated();
                let x = shared.find_by_msgid(s).map(|e| e.msgstr.clone());
                let t: Vec<bool> = shared.entries.iter().map(|e| e.translated()).collect();
                hstr((v, p, x, t))
            }))
        }
        Act::SharedBytes => {
            w().note(|| "=> MO data of shared".into(), 14);
            clean(lib(|| {
                let m = MOFile::from(shared);
                hstr((shared.as_bytes_le().into_owned(), m.as_bytes_be().into_owned()))
            }))
        }
        Act::EditCycle(m) => {
            // Open, edit, save, reopen.
            let (o, f) = open_po(&place(l, i, "in.po"));
            let h = hopen(&o);
            let mut f = match f {
                Some(f) => f,
                None => return (h, false),
            };
            for e in &m.e {
                f.entries.push(e.to_po());
            }
            f.metadata.insert("X-Edited".into(), "yes".into());
            let p = place(l, i, "cycle.po");
            let r = save(&Cat::Po(f), SaveKind::PoSave, &p);
            let o2 = open_po(&p).0;
            (hstr((h, &r, hopen(&o2))), r.is_ok() && matches!(o2, Opened::Cat(_)))
        }
    }
}

pub fn p10() {
    let nt = 2 + draw(3) as usize;
    let l = draw(3);
    let shared_m;
    let mut acts: Vec<Vec<Act>> = Vec::new();
    {
        let _i = Inside::new();
        shared_m = gen_po(5, true);
        // All threads busy with the same kind of work, or with anything.
        let theme = if chance(1, 2) { Some(draw(15)) } else { None };
        w().fs.add_dir("/sim/all");
        for i in 0..nt {
            w().fs.add_dir(&format!("/sim/t{}", i));
            // Stored files come from plain text, so that the library is still unused.
            let m = gen_mo(3);
            let b = encode_mo(&m, chance(1, 2), 0, draw(16));
            w().fs.put(&place(l, i, "in.mo"), &b);
            w().fs.put("/sim/all/shared.mo", &b);
            let mut text = String::from("# header\nmsgid \"\"\nmsgstr \"\"\n\"Language: de\\n\"\n\"X-B: 2\\n\"\n\"X-A: 1\\n\"\n");
            for j in 0..1 + draw(4) {
                text.push_str(&format!("\n#. note {}\n#: f{}.c:{}\n{}msgid \"id {} of {}\\t\\\"q\\\"\"\nmsgstr \"text {}\"\n", j, i, j, if chance(1, 3) { "#, fuzzy, c-format\n" } else { "" }, j, i, draw(100)));
            }
            if chance(1, 6) {
                text.push_str("\nmsgid \"broken\nmsgstr \"\"\n");
            }
            w().fs.put(&place(l, i, "in.po"), text.as_bytes());
            w().fs.put("/sim/all/shared.po", text.as_bytes());
            let n = 2 + draw(4);
            let mut v = Vec::new();
            // Every thread has texts of its own kind, wide enough to be broken.
            let own = |k: u32| {
                let mut m = gen_po(k, true);
                if chance(1, 2) {
                    let unit = ["plain words ", "中文 字符 ", "é\u{301}\u{301} ", "\"q\" \\ "][(i + draw(2) as usize) % 4];
                    let e = ME { id: format!("{}{}", i, unit.repeat(4 + draw(20) as usize)), tr: Some(unit.repeat(1 + draw(30) as usize)), tcom: Some(unit.repeat(1 + draw(20) as usize).trim_end().into()), ..Default::default() };
                    m.e.insert(0, e);
                }
                m
            };
            for _ in 0..n {
                let kind = w().tape.weighted(&[3, 3, 2, 1, 2, 2, 2, 1, 2, 2, 2, 2, 1, 2, 2]) as u32;
                let kind = theme.filter(|_| !chance(1, 6)).unwrap_or(kind);
                v.push(match kind {
                    0 => Act::OpenPo,
                    1 => Act::OpenMo,
                    2 => Act::OpenText(text.clone()),
                    3 => Act::OpenBytes(b.clone()),
                    4 => Act::Render(own(3)),
                    5 => Act::SavePo(own(3)),
                    6 => Act::SaveMo(own(3)),
                    7 => Act::Merge(own(3), own(3)),
                    8 => Act::SharedRender,
                    9 => Act::SharedFind(shared_m.e.first().map_or("a".into(), |e| e.id.clone())),
                    10 => Act::SharedBytes,
                    11 => Act::EditCycle(own(2)),
                    12 => Act::OpenMissing,
                    13 => Act::OpenSharedPo,
                    _ => Act::OpenSharedMo,
                });
            }
            acts.push(v);
        }
    }
    let warm = chance(1, 3);
    if warm {
        process(|| {
            let _ = open_po_opt(FileOptions::from("msgid \"a\"\nmsgstr \"b\\n\"\n"), "text");
        });
    } else {
        w().count(K::FirstUse);
    }
    let shared = Arc::new(process(move || shared_m.to_po()));
    // The same operations one after another, in a process of their own.
    let pid = unsafe { fork() };
    if pid == 0 {
        for i in 0..nt {
            let (v, s) = (acts[i].clone(), shared.clone());
            process(move || {
                for (j, a) in v.iter().enumerate() {
                    shm().seq[i * PER + j] = act(l, i, a, &s).0;
                }
            });
        }
        exit_now(0);
    }
    let mut st = 0;
    while unsafe { waitpid(pid, &mut st, 0) } != pid {}
    if st != 0 {
        harness_error(&format!("sequential execution ended with status {:#x}", st));
    }
    w().draw_soft(false);
    let hit = if chance(1, 3) { Some(draw(nt as u32) as usize) } else { None };
    if let Some(h) = hit {
        w().f.only_task = Some(h as i32);
        w().draw_hard(&[Op::Read, Op::Open, Op::Write, Op::Stat, Op::Seek], 3);
    }
    let res: Arc<Mutex<Vec<Vec<u64>>>> = Arc::new(Mutex::new(vec![Vec::new(); nt]));
    let mut tasks: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for i in 0..nt {
        let (v, s, res) = (acts[i].clone(), shared.clone(), res.clone());
        tasks.push(Box::new(move || {
            let _i = Inside::new();
            for a in &v {
                let (h, _) = act(l, i, a, &s);
                res.lock().unwrap()[i].push(h);
            }
        }));
    }
    sched::run(tasks);
    let res = res.lock().unwrap();
    for i in 0..nt {
        if hit == Some(i) && w().f.hard_fired > 0 {
            // Its results are the subject of P01, P04 and P05.
            continue;
        }
        for (j, h) in res[i].iter().enumerate() {
            eval();
            if shm().seq[i * PER + j] != *h {
                violation("result_differs", &format!("operation {} of thread {} of {} gave another result than when running alone", j, i, nt));
            }
        }
    }
    if w().fs.open_handles() > 0 {
        violation("handle_leak", "file handles stay open after all threads finished");
    }
    let total: usize = acts.iter().map(|v| v.len()).sum();
    let sw = w().sched.switches;
    w().note(|| "threads finished".into(), res.iter().flatten().fold(0, |a, h| mix(a ^ h)));
    if sw > 0 {
        nontrivial();
        sample(&format!("{} threads, {} operations, {} switches, first use {}, faults on thread {:?}", nt, total, sw, !warm, hit));
    }
}

/// What the writer of P22 is doing, as seen by readers.
struct Progress {
    started: u32,
    saving: bool,
    stored: usize,
}
/// P22: one thread saves version after version, others open the same path.
pub fn p22() {
    let mo = chance(1, 3);
    let nv = 2 + draw(3) as usize;
    let path = if mo { "/sim/live.mo" } else { "/sim/live.po" };
    let (vers, texts) = process(move || {
        let mut vs: Vec<MC> = Vec::new();
        let mut ts: Vec<Vec<u8>> = Vec::new();
        for i in 0..nv {
            // Versions of one catalogue, some of the same size, or unrelated ones.
            let m = if i > 0 && chance(1, 4) {
                let mut m = vs[i - 1].clone();
                for e in m.e.iter_mut().filter(|e| e.pl.is_none()) {
                    e.tr = e.tr.as_ref().map(|t| t.chars().rev().collect());
                }
                m
            } else if i > 0 && chance(1, 2) {
                let mut m = vs[i - 1].clone();
                let mut g = if mo { gen_mo(2) } else { gen_po(2, false) };
                m.e.append(&mut g.e);
                if !m.e.is_empty() && chance(1, 2) {
                    let k = draw(m.e.len() as u32) as usize;
                    m.e.remove(k);
                }
                crate::gen::distinct(&mut m);
                m
            } else if mo {
                gen_mo(4)
            } else {
                gen_po(4, false)
            };
            ts.push(if mo { expected(&Cat::Mo(m.to_mo()), SaveKind::MoSave) } else { render(&m).into_bytes() });
            vs.push(m);
        }
        (vs, ts)
    });
    let base: Vec<Opened> = texts
        .iter()
        .map(|t| {
            w().fs.put(path, t);
            process(move || if mo { open_mo(path).0 } else { open_po(path).0 })
        })
        .collect();
    for o in &base {
        if !matches!(o, Opened::Cat(_)) {
            violation("not_reopened", &format!("a stored version does not open: {}", o.brief()));
        }
    }
    w().fs.put(path, &texts[0]);
    w().draw_soft(false);
    let st = Arc::new(Mutex::new(Progress { started: 0, saving: false, stored: 0 }));
    let mut tasks: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    let (s, v) = (st.clone(), vers.clone());
    tasks.push(Box::new(move || {
        let _i = Inside::new();
        for (k, m) in v.iter().enumerate().skip(1) {
            {
                let mut p = s.lock().unwrap();
                p.started += 1;
                p.saving = true;
            }
            let r = if mo { save(&Cat::Mo(m.to_mo()), SaveKind::MoSave, path) } else { save(&Cat::Po(m.to_po()), SaveKind::PoSave, path) };
            if let Err(e) = r {
                violation("save_failed", &format!("a save failed because the file was being read: {}", e));
            }
            let mut p = s.lock().unwrap();
            p.saving = false;
            p.stored = k;
        }
    }));
    let nr = 1 + draw(2) as usize;
    let raced = Arc::new(Mutex::new((0u32, 0u32)));
    for _ in 0..nr {
        let n = 1 + draw(4);
        let (s, base, raced) = (st.clone(), base.clone(), raced.clone());
        tasks.push(Box::new(move || {
            let _i = Inside::new();
            for _ in 0..n {
                let (a, busy) = {
                    let p = s.lock().unwrap();
                    (p.started, p.saving)
                };
                let o = if mo { open_mo(path).0 } else { open_po(path).0 };
                eval();
                let p = s.lock().unwrap();
                let seams = p.started - a + busy as u32;
                let g = match &o {
                    Opened::Panic(e) => violation("panic", &format!("opening a file while it is saved panicked: {}", e)),
                    Opened::Err(_) if seams > 0 => {
                        raced.lock().unwrap().0 += 1;
                        continue;
                    }
                    Opened::Err(e) => violation("refused", &format!("no save was going on, but the open failed: {}", e)),
                    Opened::Cat(g) => g,
                };
                if seams == 0 {
                    if o != base[p.stored] {
                        violation("stale", &format!("no save was going on, but the open gave {} instead of version {}: {}", o.brief(), p.stored, base[p.stored].brief()));
                    }
                    continue;
                }
                raced.lock().unwrap().0 += 1;
                if mo {
                    continue;
                }
                let known = |e: &ME| base.iter().any(|b| matches!(b, Opened::Cat(c) if c.e.contains(e)));
                let strangers = g.e.iter().filter(|e| !known(e)).count() as u32;
                raced.lock().unwrap().1 += strangers;
                if strangers > 2 * seams + 1 {
                    violation("mixed", &format!("the open overlapped {} saves and gave {} entries that are in no version", seams, strangers));
                }
            }
        }));
    }
    sched::run(tasks);
    w().clear_faults();
    eval();
    if w().fs.get(path) != Some(&texts[nv - 1]) {
        violation("not_stored", "after the last save the file does not hold the last version");
    }
    let o = process(move || if mo { open_mo(path).0 } else { open_po(path).0 });
    if o != base[nv - 1] {
        violation("stale", &format!("after the last save the open gave {} instead of {}", o.brief(), base[nv - 1].brief()));
    }
    if w().fs.open_handles() > 0 {
        violation("handle_leak", "file handles stay open after all threads finished");
    }
    let (n, x) = *raced.lock().unwrap();
    if n > 0 {
        nontrivial();
        sample(&format!("{} versions, {} readers, {} opens overlapping a save, {} entries at seams, {} switches", nv, nr, n, x, w().sched.switches));
    }
}
