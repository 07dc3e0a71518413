//! P12: editing sessions against a plain ordered list.
use super::*;
use crate::engine::{eval, nontrivial, sample};
use crate::sim::{w, Op};
use rspolib::{EntryCmpByOptions, MOFile, Merge, POFile, TranslatedEntry};
use std::cmp::Ordering;

const IDS: &[&str] = &["a", "b", "file", "Open %s", "line\nbreak", "quote \" and \\", "中文 é", " lead", "trail ", "msgid \"x\"", "b c", "A"];
const CTX: &[&str] = &["menu", "a", "c\\d", "é x"];

fn narrow(o: &mut Option<String>) {
    if let Some(s) = o {
        let t: Vec<String> = s.lines().map(|l| l.chars().take(30).collect::<String>().trim_end().to_string()).filter(|l| !l.is_empty()).collect();
        *s = t.join("\n");
        if s.is_empty() {
            *o = None;
        }
    }
}
fn entry(mo: bool) -> ME {
    let mut g = G::new(&mut w().tape);
    g.mo = true;
    let mut e = g.entry(mo);
    e.id = IDS[draw(IDS.len() as u32) as usize].into();
    e.ctx = if chance(1, 3) { Some(CTX[draw(4) as usize].into()) } else { None };
    // No empty texts: a search for an absent field is not in question here.
    if e.pl.as_deref() == Some("") {
        e.pl = Some("things".into());
    }
    narrow(&mut e.com);
    narrow(&mut e.tcom);
    e
}
/// Values worth looking for.
fn needle(m: &MC, by: &str) -> String {
    let vs: Vec<String> = m
        .e
        .iter()
        .filter_map(|e| match by {
            "msgid" => Some(e.id.clone()),
            "msgctxt" => e.ctx.clone(),
            "msgstr" => e.tr.clone(),
            "msgid_plural" => e.pl.clone(),
            "previous_msgid" => e.pid.clone(),
            "previous_msgid_plural" => e.ppl.clone(),
            _ => e.pctx.clone(),
        })
        .filter(|s| !s.is_empty())
        .collect();
    if vs.is_empty() || chance(1, 4) {
        IDS[draw(IDS.len() as u32) as usize].into()
    } else {
        vs[draw(vs.len() as u32) as usize].clone()
    }
}
fn field<'a>(e: &'a ME, by: &str) -> Option<&'a str> {
    match by {
        "msgid" => Some(&e.id),
        "msgctxt" => e.ctx.as_deref(),
        "msgstr" => e.tr.as_deref(),
        "msgid_plural" => e.pl.as_deref(),
        "previous_msgid" => e.pid.as_deref(),
        "previous_msgid_plural" => e.ppl.as_deref(),
        _ => e.pctx.as_deref(),
    }
}
fn show(e: &Option<&ME>) -> String {
    e.map_or("nothing".into(), |e| format!("{} in context {:?}", brief(&e.id), e.ctx))
}
fn bad(rule: &str, msg: String) -> ! {
    violation(rule, &msg)
}
fn list_eq(what: &str, got: Vec<ME>, want: Vec<&ME>) {
    eval();
    let w2: Vec<ME> = want.into_iter().cloned().collect();
    if got != w2 {
        bad("lookup", format!("{} gives {} entries instead of {}: {:?} instead of {:?}", what, got.len(), w2.len(), got.iter().map(|e| &e.id).collect::<Vec<_>>(), w2.iter().map(|e| &e.id).collect::<Vec<_>>()));
    }
}
fn one_eq(what: &str, got: Option<ME>, want: Option<&ME>) {
    eval();
    if got.as_ref() != want {
        bad("lookup", format!("{} gives {} instead of {}", what, show(&got.as_ref()), show(&want)));
    }
}

fn check_po(f: &POFile, m: &MC, what: &str) {
    eval();
    let mut x = m.clone();
    x.meta.sort();
    let g = MC::of_po(f);
    if g != x {
        bad("state", format!("after {}: {}", what, diff(&g.canon(), &x.canon(), 78).unwrap_or_else(|| format!("{:?} instead of {:?}", brief(&format!("{:?}", g)), brief(&format!("{:?}", x))))));
    }
    let n = m.e.len();
    let tr = m.e.iter().filter(|e| e.translated()).count();
    let pct = tr as f64 / n as f64 * 100.0;
    let (p, t, u, ob, fz) = must("statistics", || {
        (
            f.percent_translated(),
            f.translated_entries().into_iter().map(ME::of_po).collect::<Vec<_>>(),
            f.untranslated_entries().into_iter().map(ME::of_po).collect::<Vec<_>>(),
            f.obsolete_entries().into_iter().map(ME::of_po).collect::<Vec<_>>(),
            f.fuzzy_entries().into_iter().map(ME::of_po).collect::<Vec<_>>(),
        )
    });
    // Of no messages any share is translated.
    if n > 0 && (p as f64 - pct).abs() > 0.01 {
        bad("statistics", format!("{}% translated instead of {}% ({} of {})", p, pct, tr, n));
    }
    list_eq("list of translated entries", t, m.e.iter().filter(|e| e.translated()).collect());
    list_eq("list of untranslated entries", u, m.e.iter().filter(|e| !e.translated()).collect());
    list_eq("list of obsolete entries", ob, m.e.iter().filter(|e| e.obs).collect());
    list_eq("list of fuzzy entries", fz, m.e.iter().filter(|e| e.is_fuzzy() && !e.obs).collect());
    // The same catalogue as MO holds what is translated, in order.
    let c = must("conversion", || MC::of_mo(&MOFile::from(f)));
    let tr: Vec<ME> = m.e.iter().filter(|e| e.translated()).map(|e| e.mo_part()).collect();
    if c.e.iter().map(|e| e.mo_part()).collect::<Vec<_>>() != tr || c.meta != x.meta {
        bad("conversion", format!("converted to MO after {}: {} messages instead of {}", what, c.e.len(), tr.len()));
    }
}
fn check_mo(f: &MOFile, m: &MC, what: &str) {
    eval();
    let mut x = m.clone();
    x.meta.sort();
    let g = MC::of_mo(f);
    if g != x {
        bad("state", format!("after {}: {}", what, diff(&g, &x, 78).unwrap_or("other differences".into())));
    }
    let tr = must("statistics", || f.entries.iter().map(|e| e.translated()).collect::<Vec<bool>>());
    for (e, t) in m.e.iter().zip(tr) {
        let forms: Vec<bool> = if e.pl.is_some() { e.trs.iter().map(|s| !s.is_empty()).collect() } else { vec![e.tr.as_ref().map_or(false, |s| !s.is_empty())] };
        let (all, any) = (!forms.is_empty() && forms.iter().all(|x| *x), forms.iter().any(|x| *x));
        // Nothing says what a message with some forms only is.
        if all == any && t != all {
            bad("statistics", format!("after {}: message {} counts as {}translated", what, brief(&e.id), if t { "" } else { "un" }));
        }
    }
}
fn meta_op(m: &mut MC) -> (String, Option<String>) {
    let k = ["Language", "X-A", "Project-Id-Version", "X-10", "X-9"][draw(5) as usize].to_string();
    let v = if chance(1, 4) { None } else { Some(["de", "1", "text/plain; charset=UTF-8", "v 中"][draw(4) as usize].to_string()) };
    m.meta.retain(|x| x.0 != k);
    if let Some(v) = &v {
        m.meta.push((k.clone(), v.clone()));
    }
    (k, v)
}
/// Fault mode of a save: 0 healthy, 1 errors, 2 crash.
fn draw_mode() -> u32 {
    w().clear_faults();
    let mode = w().tape.weighted(&[4, 2, 2]) as u32;
    w().draw_soft(false);
    match mode {
        1 => w().draw_hard(&[Op::Create, Op::Write, Op::Close], 2),
        2 => w().draw_crash(6),
        _ => {}
    }
    mode
}

const FIELDS: [&str; 8] = ["msgid", "msgstr", "msgctxt", "obsolete", "occurrences", "msgid_plural", "msgstr_plural", "flags"];
/// Fields to sort by, all of them more often than others.
fn draw_fields() -> Vec<(String, bool)> {
    let all = chance(1, 3);
    FIELDS.iter().map(|k| (k.to_string(), all || chance(1, 2))).collect()
}
/// What an entry is sorted by: (in force, occurrences, flags, context, plural
/// identifier, plural translations, identifier, translation); a field that
/// does not count is the same for all.
type Key = (bool, Vec<(String, String)>, Vec<String>, String, String, Vec<String>, String, String);
fn key(by: &[(String, bool)], e: &ME) -> Key {
    let on = |k: &str| by.iter().any(|x| x.0 == k && x.1);
    let text = |k: &str, o: &Option<String>| if on(k) { o.clone().unwrap_or("\0".into()) } else { String::new() };
    fn sorted<T: Ord + Clone>(on: bool, v: &[T]) -> Vec<T> {
        let mut v = if on { v.to_vec() } else { vec![] };
        v.sort();
        v
    }
    (
        on("obsolete") && !e.obs,
        sorted(on("occurrences"), &e.occ),
        sorted(on("flags"), &e.flags),
        text("msgctxt", &e.ctx),
        text("msgid_plural", &e.pl),
        sorted(on("msgstr_plural"), &e.trs),
        text("msgid", &Some(e.id.clone())),
        text("msgstr", &e.tr),
    )
}
/// The model entries in the order of the keys, entries with equal keys as they were.
fn reorder(e: &mut Vec<ME>, keys: Vec<Key>) {
    let mut k: Vec<_> = keys.into_iter().zip(std::mem::take(e)).collect();
    k.sort_by(|a, b| a.0.cmp(&b.0));
    *e = k.into_iter().map(|x| x.1).collect();
}
/// The result of comparing is that of comparing the keys, whatever the pair.
fn check_cmp<T>(e: &[T], keys: &[Key], cmp: impl Fn(&T, &T) -> Ordering) {
    for i in 0..e.len().min(8) {
        for j in 0..e.len().min(8) {
            eval();
            let (got, want) = (must("comparing", || cmp(&e[i], &e[j])), keys[i].cmp(&keys[j]));
            if got != want {
                bad("comparison", format!("entries {} and {} compare as {:?} instead of {:?}", i, j, got, want));
            }
        }
    }
}
/// Options made in one of the ways there are.
fn cmp_options(by: &[(String, bool)]) -> EntryCmpByOptions {
    let on = |k: &str| by.iter().any(|x| x.0 == k && x.1);
    if by.iter().all(|x| x.1) {
        return if chance(1, 2) { EntryCmpByOptions::default() } else { EntryCmpByOptions::new() };
    }
    if chance(1, 2) {
        return EntryCmpByOptions::from(&by.to_vec());
    }
    EntryCmpByOptions::new()
        .by_flags(on("flags"))
        .by_msgid(on("msgid"))
        .by_msgstr(on("msgstr"))
        .by_msgctxt(on("msgctxt"))
        .by_obsolete(on("obsolete"))
        .by_occurrences(on("occurrences"))
        .by_msgid_plural(on("msgid_plural"))
        .by_msgstr_plural(on("msgstr_plural"))
}

struct Tally {
    ops: u32,
    saves: u32,
    failed: u32,
    crashes: u32,
    reopen: u32,
    merges: u32,
}

pub fn p12() {
    let mo = chance(1, 4);
    let path = a_path(if mo { "s.mo" } else { "s.po" });
    let mut left = 1 + draw(24);
    let mut disk: Option<MC> = None;
    let mut seg = 0;
    let mut t = Tally { ops: 0, saves: 0, failed: 0, crashes: 0, reopen: 0, merges: 0 };
    // Each turn of the loop is one incarnation of the process.
    while left > 0 {
        let (l, d, t2) = process(move || if mo { session_mo(path, left, disk, t, seg) } else { session_po(path, left, disk, t, seg) });
        left = l;
        disk = d;
        t = t2;
        w().clear_faults();
        w().restart();
        seg += 1;
    }
    if t.saves + t.failed + t.crashes > 0 {
        nontrivial();
        sample(&format!("{} operations on a {} catalogue, {} saves, {} failed saves, {} crashes, {} reopenings, {} merges", t.ops, if mo { "MO" } else { "PO" }, t.saves, t.failed, t.crashes, t.reopen, t.merges));
    }
}

fn session_po(path: &str, mut left: u32, mut disk: Option<MC>, mut t: Tally, seg: u32) -> (u32, Option<MC>, Tally) {
    let (mut f, mut m) = match &disk {
        Some(x) => {
            w().draw_soft(false);
            t.reopen += 1;
            match open_po(path) {
                (Opened::Cat(g), Some(f)) => {
                    eval();
                    if let Some(d) = diff(&g, x, 78) {
                        bad("reopened", format!("the reopened catalogue is not the one last saved: {}", d));
                    }
                    let g = MC::of_po(&f);
                    (f, g)
                }
                (o, _) => bad("reopened", format!("the catalogue last saved cannot be reopened: {}", o.brief())),
            }
        }
        None => {
            let m = if seg == 0 && chance(1, 2) {
                let mut m = gen_po(4, true);
                m.e.clear();
                m
            } else {
                MC::default()
            };
            (m.to_po(), m)
        }
    };
    w().clear_faults();
    while left > 0 {
        left -= 1;
        t.ops += 1;
        let what;
        match w().tape.weighted(&[6, 4, 3, 2, 2, 4, 3, 3, 5, 2, 2, 2]) {
            0 => {
                if m.e.len() >= 12 {
                    continue;
                }
                let e = entry(false);
                if m.e.iter().any(|x| x.key() == e.key()) {
                    continue;
                }
                let p = e.to_po();
                if chance(1, 4) && !m.e.is_empty() {
                    let at = draw(m.e.len() as u32) as usize;
                    f.entries.insert(at, p);
                    m.e.insert(at, e);
                } else {
                    f.entries.push(p);
                    m.e.push(e);
                }
                what = "adding an entry".to_string();
            }
            1 => {
                if m.e.is_empty() {
                    continue;
                }
                let i = draw(m.e.len() as u32) as usize;
                match draw(7) {
                    6 => {
                        // The catalogue keeps its size.
                        let back = |s: &str| s.chars().rev().collect::<String>();
                        if let (None, Some(v)) = (&m.e[i].pl, m.e[i].tr.as_deref().map(back)) {
                            m.e[i].tr = Some(v.clone());
                            f.entries[i].msgstr = Some(v);
                        }
                    }
                    4 | 5 => {
                        // Merging an entry replaces it by the other.
                        let e = entry(false);
                        if m.e.iter().enumerate().any(|(k, x)| k != i && x.key() == e.key()) {
                            continue;
                        }
                        let p = e.to_po();
                        must("merging an entry", || f.entries[i].merge(p));
                        m.e[i] = e;
                    }
                    0 => {
                        let v = ["", "x", "new\ntext "][draw(3) as usize].to_string();
                        if m.e[i].pl.is_none() {
                            m.e[i].tr = Some(v.clone());
                            f.entries[i].msgstr = Some(v);
                        } else {
                            m.e[i].trs[0] = v.clone();
                            f.entries[i].msgstr_plural[0] = v;
                        }
                    }
                    1 => {
                        let fl = if m.e[i].is_fuzzy() { vec![] } else { vec!["fuzzy".to_string(), "c-format".into()] };
                        m.e[i].flags = fl.clone();
                        f.entries[i].flags = fl;
                    }
                    2 => {
                        m.e[i].obs = !m.e[i].obs;
                        f.entries[i].obsolete = m.e[i].obs;
                    }
                    _ => {
                        m.e[i].tcom = Some("edited".into());
                        f.entries[i].tcomment = Some("edited".into());
                    }
                }
                what = "editing an entry".into();
            }
            2 => {
                // Removal by entry, by id, by id and context.
                if m.e.is_empty() {
                    continue;
                }
                let i = draw(m.e.len() as u32) as usize;
                let e = m.e[i].clone();
                w().note(|| format!("=> remove {}", brief(&e.id)), 5);
                let same_id = m.e.iter().filter(|x| x.id == e.id).count();
                match draw(3) {
                    1 if same_id == 1 => must("removal", || f.remove_by_msgid(&e.id)),
                    2 if e.ctx.is_some() => must("removal", || f.remove_by_msgid_msgctxt(&e.id, e.ctx.as_ref().unwrap())),
                    _ => {
                        let p = f.entries[i].clone();
                        must("removal", || {
                            f.remove(&p);
                        })
                    }
                }
                m.e.remove(i);
                what = "removing an entry".into();
            }
            3 => {
                // Removal of what is not there.
                w().note(|| "=> remove absent".into(), 6);
                must("removal", || {
                    f.remove_by_msgid("no such id");
                    f.remove_by_msgid_msgctxt("a", "no such context");
                });
                what = "removing an absent entry".into();
            }
            4 => {
                let (k, v) = meta_op(&mut m);
                match v {
                    Some(v) => f.metadata.insert(k, v),
                    None => f.metadata.remove(&k),
                };
                what = "changing metadata".into();
            }
            5 => {
                lookups_po(&f, &m);
                what = "looking up".into();
            }
            6 => {
                // Merge.
                t.merges += 1;
                let mut r = MC::default();
                let n = draw(6);
                for _ in 0..n {
                    let mut e = entry(false);
                    if !m.e.is_empty() && chance(1, 2) {
                        let i = draw(m.e.len() as u32) as usize;
                        e.id = m.e[i].id.clone();
                        if chance(1, 2) {
                            e.ctx = m.e[i].ctx.clone();
                        }
                    }
                    if r.e.iter().all(|x| x.key() != e.key()) {
                        r.e.push(e);
                    }
                }
                let rp = r.to_po();
                w().note(|| format!("=> merge a reference with {} entries: {:?}", r.e.len(), r.e.iter().map(|e| e.key()).collect::<Vec<_>>()), 7);
                must("merging", || f.merge(rp));
                for e in m.e.iter_mut() {
                    if r.e.iter().all(|x| x.id != e.id) {
                        e.obs = true;
                    }
                }
                for e in &r.e {
                    if m.e.iter().all(|x| x.key() != e.key()) {
                        m.e.push(e.clone());
                    }
                }
                what = "merging".into();
            }
            7 => {
                // Restart without saving.
                w().note(|| "=> process ends without saving".into(), 8);
                if disk.is_none() {
                    w().fs.del(path);
                }
                return (left, disk, t);
            }
            8 => {
                let mode = draw_mode();
                let r = save(&Cat::Po(f.clone()), SaveKind::PoSave, path);
                let hard = w().f.hard_fired;
                if mode == 2 && w().crashed_once {
                    t.crashes += 1;
                    w().crashed_once = false;
                    // What is left is the subject of P06; the session starts anew.
                    return (left, None, t);
                }
                w().crash_in = None;
                w().clear_faults();
                match r {
                    Ok(()) => {
                        t.saves += 1;
                        disk = Some(m.reopened());
                    }
                    Err(e) => {
                        if hard == 0 {
                            bad("save_failed", format!("a save on healthy storage failed: {}", e));
                        }
                        t.failed += 1;
                        disk = None;
                    }
                }
                what = "a save".into();
            }
            9 => {
                let by = draw_fields();
                w().note(|| format!("=> sort by {:?}", by), 9);
                let o = cmp_options(&by);
                let keys: Vec<Key> = f.entries.iter().map(|e| key(&by, &ME { tr: e.msgstr.clone(), trs: e.msgstr_plural.clone(), ..ME::of_po(e) })).collect();
                check_cmp(&f.entries, &keys, |a, b| a.cmp_by(b, &o));
                must("sorting", || f.entries.sort_by(|a, b| a.cmp_by(b, &o)));
                reorder(&mut m.e, keys);
                what = "sorting".into();
            }
            10 => {
                match draw(3) {
                    0 => {
                        m.header = G::new(&mut w().tape).header();
                        f.header = m.header.clone();
                    }
                    1 => {
                        m.fuzzy = !m.fuzzy;
                        f.metadata_is_fuzzy = m.fuzzy;
                    }
                    _ => f.options.wrapwidth = [78, 79, 100, 200][draw(4) as usize],
                }
                what = "changing the header, the fuzzy mark or the wrap width".into();
            }
            _ => {
                // End of the process after a save, then reopening.
                w().clear_faults();
                if let Err(e) = save(&Cat::Po(f.clone()), SaveKind::PoSave, path) {
                    bad("save_failed", format!("a save on healthy storage failed: {}", e));
                }
                t.saves += 1;
                check_po(&f, &m, "a save");
                return (left, Some(m.reopened()), t);
            }
        }
        check_po(&f, &m, &what);
    }
    (0, disk, t)
}
fn lookups_po(f: &POFile, m: &MC) {
    const BY: [&str; 7] = ["msgid", "msgctxt", "msgstr", "msgid_plural", "previous_msgid", "previous_msgid_plural", "previous_msgctxt"];
    let by = BY[draw(7) as usize];
    let v = needle(m, by);
    let obs = chance(1, 2);
    let ctx = if chance(1, 3) { Some(needle(m, "msgctxt")) } else { None };
    w().note(|| format!("=> find {} = {} in context {:?}, obsolete {}", by, brief(&v), ctx, obs), 4);
    let got = must("find", || f.find(&v, by, ctx.as_deref(), obs).into_iter().map(ME::of_po).collect::<Vec<_>>());
    let want = m.e.iter().filter(|e| field(e, by) == Some(v.as_str()) && (obs || !e.obs) && ctx.as_ref().map_or(true, |c| e.ctx.as_ref() == Some(c))).collect();
    list_eq(&format!("find by {}", by), got, want);
    let id = needle(m, "msgid");
    let got = must("find_by_msgid", || f.find_by_msgid(&id).map(|e| ME::of_po(&e)));
    one_eq("lookup by id", got, m.e.iter().find(|e| e.id == id));
    let c = needle(m, "msgctxt");
    let got = must("find_by_msgid_msgctxt", || f.find_by_msgid_msgctxt(&id, &c).map(|e| ME::of_po(&e)));
    one_eq("lookup by id and context", got, m.e.iter().find(|e| e.id == id && e.ctx.as_ref() == Some(&c)));
}

fn session_mo(path: &str, mut left: u32, mut disk: Option<MC>, mut t: Tally, _seg: u32) -> (u32, Option<MC>, Tally) {
    let (mut f, mut m) = match &disk {
        Some(x) => {
            w().draw_soft(false);
            t.reopen += 1;
            match open_mo(path) {
                (Opened::Cat(mut g), Some(f)) => {
                    eval();
                    g.e = g.e.iter().map(|e| e.mo_part()).collect();
                    g.sort_keys();
                    if let Some(d) = diff(&g, x, 78) {
                        bad("reopened", format!("the reopened catalogue is not the one last saved: {}", d));
                    }
                    let g = MC::of_mo(&f);
                    (f, g)
                }
                (o, _) => bad("reopened", format!("the catalogue last saved cannot be reopened: {}", o.brief())),
            }
        }
        None => (MC::default().to_mo(), MC::default()),
    };
    w().clear_faults();
    while left > 0 {
        left -= 1;
        t.ops += 1;
        let what;
        match w().tape.weighted(&[6, 3, 3, 2, 4, 2, 4, 2, 2]) {
            0 => {
                let e = entry(true);
                if m.e.len() >= 12 || m.e.iter().any(|x| x.key() == e.key()) {
                    continue;
                }
                f.entries.push(e.to_mo());
                m.e.push(e);
                what = "adding an entry";
            }
            1 => {
                if m.e.is_empty() {
                    continue;
                }
                let i = draw(m.e.len() as u32) as usize;
                if chance(1, 3) {
                    let e = entry(true);
                    if m.e.iter().enumerate().any(|(k, x)| k != i && x.key() == e.key()) {
                        continue;
                    }
                    let p = e.to_mo();
                    must("merging an entry", || f.entries[i].merge(p));
                    m.e[i] = e;
                    check_mo(&f, &m, "merging an entry");
                    continue;
                }
                let v = ["x", "new\ntext ", ""][draw(3) as usize].to_string();
                if m.e[i].pl.is_none() {
                    m.e[i].tr = Some(v.clone());
                    f.entries[i].msgstr = Some(v);
                } else {
                    m.e[i].trs[0] = v.clone();
                    f.entries[i].msgstr_plural[0] = v;
                }
                what = "editing an entry";
            }
            2 => {
                if m.e.is_empty() {
                    continue;
                }
                let i = draw(m.e.len() as u32) as usize;
                let e = m.e[i].clone();
                w().note(|| format!("=> remove {}", brief(&e.id)), 5);
                let same_id = m.e.iter().filter(|x| x.id == e.id).count();
                match draw(3) {
                    1 if same_id == 1 => must("removal", || f.remove_by_msgid(&e.id)),
                    2 if e.ctx.is_some() => must("removal", || f.remove_by_msgid_msgctxt(&e.id, e.ctx.as_ref().unwrap())),
                    _ => {
                        let p = f.entries[i].clone();
                        must("removal", || {
                            f.remove(&p);
                        })
                    }
                }
                m.e.remove(i);
                what = "removing an entry";
            }
            3 => {
                let (k, v) = meta_op(&mut m);
                match v {
                    Some(v) => f.metadata.insert(k, v),
                    None => f.metadata.remove(&k),
                };
                what = "changing metadata";
            }
            4 => {
                let by = ["msgid", "msgctxt", "msgstr", "msgid_plural"][draw(4) as usize];
                let v = needle(&m, by);
                let ctx = if chance(1, 3) { Some(needle(&m, "msgctxt")) } else { None };
                w().note(|| format!("=> find {} = {} in context {:?}", by, brief(&v), ctx), 4);
                // The raw msgstr of a plural message is no translation of its own.
                if by != "msgstr" {
                    let got = must("find", || f.find(&v, by, ctx.as_deref()).into_iter().map(ME::of_mo).collect::<Vec<_>>());
                    let want = m.e.iter().filter(|e| field(e, by) == Some(v.as_str()) && ctx.as_ref().map_or(true, |c| e.ctx.as_ref() == Some(c))).collect();
                    list_eq(&format!("find by {}", by), got, want);
                }
                let id = needle(&m, "msgid");
                let got = must("find_by_msgid", || f.find_by_msgid(&id).map(|e| ME::of_mo(&e)));
                one_eq("lookup by id", got, m.e.iter().find(|e| e.id == id));
                let c = needle(&m, "msgctxt");
                let got = must("find_by_msgid_msgctxt", || f.find_by_msgid_msgctxt(&id, &c).map(|e| ME::of_mo(&e)));
                one_eq("lookup by id and context", got, m.e.iter().find(|e| e.id == id && e.ctx.as_ref() == Some(&c)));
                what = "looking up";
            }
            5 => {
                w().note(|| "=> process ends without saving".into(), 8);
                return (left, disk, t);
            }
            6 => {
                let mode = draw_mode();
                let r = save(&Cat::Mo(f.clone()), SaveKind::MoSave, path);
                let hard = w().f.hard_fired;
                if mode == 2 && w().crashed_once {
                    t.crashes += 1;
                    w().crashed_once = false;
                    return (left, None, t);
                }
                w().crash_in = None;
                w().clear_faults();
                match r {
                    Ok(()) => {
                        t.saves += 1;
                        disk = Some(m.mo_all());
                    }
                    Err(e) => {
                        if hard == 0 {
                            bad("save_failed", format!("a save on healthy storage failed: {}", e));
                        }
                        t.failed += 1;
                        disk = None;
                    }
                }
                what = "a save";
            }
            7 => {
                let by = draw_fields();
                w().note(|| format!("=> sort by {:?}", by), 9);
                let o = cmp_options(&by);
                let keys: Vec<Key> = f.entries.iter().map(|e| key(&by, &ME { tr: e.msgstr.clone(), trs: e.msgstr_plural.clone(), ..ME::of_mo(e) })).collect();
                check_cmp(&f.entries, &keys, |a, b| a.cmp_by(b, &o));
                must("sorting", || f.entries.sort_by(|a, b| a.cmp_by(b, &o)));
                reorder(&mut m.e, keys);
                what = "sorting";
            }
            _ => {
                w().clear_faults();
                if let Err(e) = save(&Cat::Mo(f.clone()), SaveKind::MoSave, path) {
                    bad("save_failed", format!("a save on healthy storage failed: {}", e));
                }
                t.saves += 1;
                check_mo(&f, &m, "a save");
                return (left, Some(m.mo_all()), t);
            }
        }
        check_mo(&f, &m, what);
    }
    (0, disk, t)
}
