//! P06, P07: the process dies while saving.
use super::*;
use crate::engine::{eval, nontrivial, sample};
use crate::sim::w;

fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
fn pre(g: &Option<String>, x: &Option<String>) -> bool {
    match (g, x) {
        (None, _) => true,
        (Some(g), None) => g.is_empty(),
        (Some(g), Some(x)) => x.starts_with(g.as_str()),
    }
}
fn pre_ws(g: &Option<String>, x: &Option<String>) -> bool {
    match (g, x) {
        (None, _) => true,
        (Some(g), None) => g.is_empty(),
        (Some(g), Some(x)) => squeeze(x).starts_with(&squeeze(g)),
    }
}
/// The last entry read may hold nothing but leading parts of the saved one.
fn leading(g: &ME, x: &ME) -> Option<String> {
    let bad = |f: &str| Some(format!("{} is not a leading part of the saved value", f));
    if !x.id.starts_with(&g.id) {
        return bad("msgid");
    }
    if !pre(&g.ctx, &x.ctx) {
        return bad("msgctxt");
    }
    if !pre(&g.tr, &Some(x.tr.clone().unwrap_or_default())) {
        return bad("msgstr");
    }
    if !pre(&g.pl, &x.pl) {
        return bad("msgid_plural");
    }
    if g.trs.len() > x.trs.len() {
        return bad("list of plural translations");
    }
    for (i, t) in g.trs.iter().enumerate() {
        if if i + 1 < g.trs.len() { *t != x.trs[i] } else { !x.trs[i].starts_with(t.as_str()) } {
            return bad("plural translation");
        }
    }
    if !pre(&g.pctx, &x.pctx) || !pre(&g.pid, &x.pid) || !pre(&g.ppl, &x.ppl) {
        return bad("previous field");
    }
    if !pre_ws(&g.com, &x.com) || !pre_ws(&g.tcom, &x.tcom) {
        return bad("comment");
    }
    let flat = |o: &Vec<(String, String)>| o.iter().map(|(a, b)| format!("{}:{}", a, b)).collect::<Vec<_>>();
    for (g, x, n) in [(flat(&g.occ), flat(&x.occ), "occurrence"), (g.flags.clone(), x.flags.clone(), "flag")] {
        if g.len() > x.len() {
            return bad(n);
        }
        for (i, t) in g.iter().enumerate() {
            let t = if i + 1 < g.len() { t.as_str() } else { t.trim_end_matches(':') };
            if !x[i].starts_with(t) {
                return bad(n);
            }
        }
    }
    None
}
fn prefix_of(g: &MC, x: &MC) -> Option<String> {
    if g.e.len() > x.e.len() {
        return Some(format!("{} entries, only {} were being saved", g.e.len(), x.e.len()));
    }
    if !pre_ws(&g.header, &x.header) {
        return Some("header is not a leading part of the saved one".into());
    }
    if g.fuzzy && !x.fuzzy {
        return Some("metadata became fuzzy".into());
    }
    for (k, v) in &g.meta {
        match x.meta.iter().find(|p| p.0 == *k) {
            Some((_, y)) if y.starts_with(v.as_str()) => {}
            _ => return Some(format!("metadata field {:?} = {:?} was not being saved", k, v)),
        }
    }
    for (i, e) in g.e.iter().enumerate() {
        let r = if i + 1 < g.e.len() { diff_entry(e, &x.e[i], 78) } else { leading(e, &x.e[i]) };
        if let Some(d) = r {
            return Some(format!("entry {} of {}: {}", i, g.e.len(), d));
        }
    }
    None
}

pub fn p06() {
    // A previous version, itself written by a complete save or absent.
    let old = process(|| {
        if chance(1, 2) {
            let m = gen_po(6, false);
            w().fs.put("/sim/c.po", render(&m).as_bytes());
            Some(m.reopened())
        } else {
            None
        }
    });
    let (m, size, died) = process(|| {
        let m = gen_po(8, false);
        let size = render(&m).len();
        w().draw_soft(false);
        let c = Cat::Po(m.to_po());
        let max = match w().f.write_chunk {
            crate::sim::Chunk::Full => 3,
            crate::sim::Chunk::Fixed(k) => 2 + size / k,
            crate::sim::Chunk::Rand(k) => 2 + size / (k / 2 + 1),
        };
        w().draw_crash(max as u32);
        let _ = save(&c, SaveKind::PoSave, "/sim/c.po");
        (m, size, w().crashed_once)
    });
    w().clear_faults();
    w().restart();
    let left = w().fs.get("/sim/c.po").map(|x| x.len());
    if left.is_none() {
        return;
    }
    let new = m.reopened();
    let o = process(|| {
        w().draw_soft(false);
        open_po("/sim/c.po").0
    });
    eval();
    let b = o.brief();
    match o {
        Opened::Panic(p) => violation("panic", &format!("opening what a crash left panicked: {}", p)),
        Opened::Err(e) => {
            if !died {
                violation("unreadable", &format!("a complete save is unreadable: {}", e));
            }
        }
        Opened::Cat(g) => {
            let is_old = old.as_ref().map_or(false, |x| diff(&g, x, 78).is_none());
            if !died {
                if let Some(d) = diff(&g, &new, 78) {
                    violation("differs", &format!("a complete save reads differently: {}", d));
                }
            } else if !is_old {
                if let Some(d) = prefix_of(&g, &new) {
                    violation("not_a_prefix", &format!("{} of {} bytes were left by the crash and read as {}: {}", left.unwrap(), size, b, d));
                }
            }
        }
    }
    if died {
        nontrivial();
        sample(&format!("crash left {} of {} bytes, opening gave {}", left.unwrap(), size, b));
    }
}

pub fn p07() {
    let old = process(|| {
        if chance(1, 2) {
            let m = gen_mo(6);
            let b = expected(&Cat::Mo(m.to_mo()), SaveKind::MoSave);
            w().fs.put("/sim/c.mo", &b);
            Some(m.mo_all())
        } else {
            None
        }
    });
    let (m, size, died) = process(|| {
        let hand = chance(1, 2);
        let m = if hand { gen_mo(8) } else { gen_po(8, true) };
        let (c, k) = if hand { (Cat::Mo(m.to_mo()), SaveKind::MoSave) } else { (Cat::Po(m.to_po()), SaveKind::PoAsMo) };
        let size = expected(&c, k).len();
        w().draw_soft(false);
        let max = match w().f.write_chunk {
            crate::sim::Chunk::Full => 3,
            crate::sim::Chunk::Fixed(k) => 2 + size / k,
            crate::sim::Chunk::Rand(k) => 2 + size / (k / 2 + 1),
        };
        w().draw_crash(max as u32);
        let _ = save(&c, k, "/sim/c.mo");
        (if hand { m.mo_all() } else { m.mo_messages() }, size, w().crashed_once)
    });
    w().clear_faults();
    w().restart();
    let left = match w().fs.get("/sim/c.mo") {
        Some(x) => x.len(),
        None => return,
    };
    let o = process(|| {
        w().draw_soft(false);
        open_mo("/sim/c.mo").0
    });
    eval();
    let b = o.brief();
    match o {
        Opened::Panic(p) => violation("panic", &format!("opening what a crash left panicked: {}", p)),
        Opened::Err(e) => {
            if !died {
                violation("unreadable", &format!("a complete save is unreadable: {}", e));
            }
        }
        Opened::Cat(mut g) => {
            g.e = g.e.iter().map(|e| e.mo_part()).collect();
            g.sort_keys();
            let d = diff(&g, &m, 78);
            if let Some(d) = d {
                let is_old = died && old.as_ref().map_or(false, |x| diff(&g, x, 78).is_none());
                if !is_old {
                    violation("altered", &format!("{} of {} bytes were left by the crash and read as {}: {}", left, size, b, d));
                }
            }
        }
    }
    if died {
        nontrivial();
        sample(&format!("crash left {} of {} bytes, opening gave {}", left, size, b));
    }
}
