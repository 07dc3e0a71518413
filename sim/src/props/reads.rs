//! P04, P05 read honesty, P13 equivalence of the three forms.
use super::*;
use crate::engine::{eval, nontrivial, sample};
use crate::gen::foreign;
use crate::sim::{hash_bytes, w, Op};
use rspolib::{FileOptions, POFile};
use std::sync::{Arc, Mutex};

fn draw_read_faults() -> bool {
    w().clear_faults();
    let mode = draw(4);
    if mode != 0 {
        w().draw_soft(mode == 1);
    }
    if mode >= 2 {
        w().draw_hard(&[Op::Read, Op::Open, Op::Stat, Op::Seek, Op::Close], 3);
    }
    mode >= 2
}
/// PO content to be stored; the catalogue it describes if that is known.
fn po_content() -> (Vec<u8>, Option<MC>) {
    let m = gen_po(8, false);
    let s = render(&m);
    match w().tape.weighted(&[5, 3, 2, 2]) {
        0 => (s.into_bytes(), Some(m.reopened())),
        1 => {
            let b = foreign(&mut w().tape, &s);
            (b, Some(m.reopened()))
        }
        2 => {
            let mut b = s.into_bytes();
            super::damage::damage(&mut b, b"msgid \"x\"\nmsgstr \"y\"\n", 1 + draw(2));
            (b, None)
        }
        _ => {
            // Bytes that are not UTF-8 somewhere.
            let mut b = s.into_bytes();
            let bad: &[u8] = [&b"\xff"[..], b"\xc3", b"\xe4\xb8", b"\xed\xa0\x80", b"\xf8\x88\x80\x80\x80"][draw(5) as usize];
            let i = draw(b.len() as u32 + 1) as usize;
            b.splice(i..i, bad.iter().copied());
            (b, None)
        }
    }
}
fn read_check(kind: &str, base: &Opened, o: &Opened, hard: u32) {
    eval();
    match (base, o) {
        (_, Opened::Panic(p)) => violation("panic", &format!("opening a {} file under storage faults panicked: {}", kind, p)),
        (Opened::Cat(a), Opened::Cat(b)) => {
            if a != b {
                violation("altered", &format!("after {} storage errors the open returned another catalogue: {}", hard, diff(b, a, 78).unwrap_or("comments differ".into())));
            }
        }
        (Opened::Err(e), Opened::Cat(_)) => violation("altered", &format!("after {} storage errors the open returned a catalogue, without errors it gives {}", hard, brief(e))),
        (Opened::Cat(_), Opened::Err(e)) => {
            if hard == 0 {
                violation("failed_without_error", &format!("partial or interrupted reads alone made the open fail: {}", e));
            }
        }
        (Opened::Err(a), Opened::Err(b)) => {
            if hard == 0 && a != b {
                violation("other_error", &format!("partial or interrupted reads changed the error from {} to {}", a, b));
            }
        }
        _ => {}
    }
}

pub fn p04() {
    let (b, known) = process(po_content);
    let utf8 = std::str::from_utf8(&b).is_ok();
    w().fs.put("/sim/c.po", &b);
    let base = process(|| open_po("/sim/c.po").0);
    eval();
    match &base {
        Opened::Panic(p) => violation("panic", &format!("opening a PO file panicked: {}", p)),
        Opened::Cat(g) => {
            if !utf8 {
                nontrivial();
                violation("invalid_utf8_accepted", &format!("the stored bytes are not UTF-8 but the open returned a catalogue with {}", g.brief()));
            }
            if let Some(x) = &known {
                if let Some(d) = diff(g, x, 78) {
                    violation("not_what_is_stored", &d);
                }
            }
        }
        Opened::Err(e) => {
            if known.is_some() {
                violation("not_what_is_stored", &format!("a well-formed file gives {}", e));
            }
        }
    }
    if !utf8 {
        nontrivial();
    }
    let n = 1 + draw(3);
    for _ in 0..n {
        let base = base.clone();
        let b = b.clone();
        process(move || {
            let path = a_path("c.po");
            w().fs.put(path, &b);
            draw_read_faults();
            let o = open_po(path).0;
            let (hard, soft) = (w().f.hard_fired, w().f.soft_fired);
            w().clear_faults();
            read_check("PO", &base, &o, hard);
            if hard + soft > 0 {
                nontrivial();
                sample(&format!("file of {} bytes, {} hard and {} soft faults: {}", b.len(), hard, soft, o.brief()));
            }
        });
    }
}

fn mo_content() -> (Vec<u8>, MC) {
    let m = gen_mo(8);
    let style = draw(16);
    let (big, rev) = (chance(1, 2), draw(2));
    let b = if chance(1, 2) {
        must("rendering MO data", || m.to_mo().as_bytes_with(if big { rspolib::MAGIC_SWAPPED } else { rspolib::MAGIC }, rev).into_owned())
    } else {
        encode_mo(&m, big, rev, style)
    };
    (b, m.mo_all())
}
fn norm_mo(o: Opened) -> Opened {
    match o {
        Opened::Cat(mut g) => {
            g.e = g.e.iter().map(|e| e.mo_part()).collect();
            Opened::Cat(g)
        }
        x => x,
    }
}
pub fn p05() {
    let (b, known) = process(mo_content);
    w().fs.put("/sim/c.mo", &b);
    let base = process(|| norm_mo(open_mo("/sim/c.mo").0));
    eval();
    match &base {
        Opened::Cat(g) => {
            let mut g = g.clone();
            g.sort_keys();
            if let Some(d) = diff(&g, &known, 78) {
                violation("not_what_is_stored", &d);
            }
        }
        x => violation("not_what_is_stored", &format!("a well-formed MO file gives {}", x.brief())),
    }
    let n = 1 + draw(3);
    for _ in 0..n {
        let base = base.clone();
        let b = b.clone();
        process(move || {
            let path = a_path("c.mo");
            w().fs.put(path, &b);
            draw_read_faults();
            let o = norm_mo(open_mo(path).0);
            let (hard, soft) = (w().f.hard_fired, w().f.soft_fired);
            w().clear_faults();
            read_check("MO", &base, &o, hard);
            if hard + soft > 0 {
                nontrivial();
                sample(&format!("file of {} bytes, {} messages, {} hard and {} soft faults: {}", b.len(), known_len(&base), hard, soft, o.brief()));
            }
        });
    }
}
fn known_len(o: &Opened) -> usize {
    match o {
        Opened::Cat(m) => m.e.len(),
        _ => 0,
    }
}

pub fn p13() {
    let po = !chance(1, 3);
    let b = process(move || {
        if po {
            po_content().0
        } else {
            let mut b = mo_content().0;
            if chance(1, 2) {
                super::damage::damage(&mut b, b"\xde\x12\x04\x95", 1 + draw(2));
            }
            b
        }
    });
    let path = a_path("c");
    w().fs.put(path, &b);
    let width = draw(200) as usize;
    let len = b.len();
    let text = String::from_utf8(b.clone()).ok();
    let mut res: Vec<(&str, Opened)> = Vec::new();
    // What the forms that take a wrap width render.
    let texts: Arc<Mutex<Vec<(&str, String)>>> = Default::default();
    let wide = |what: &'static str, o: FileOptions| {
        let t = texts.clone();
        process(move || {
            let (o, f) = if po {
                let (o, f) = open_po_opt(o, what);
                (o, f.map(|f| must("rendering a PO catalogue", || f.to_string())))
            } else {
                let (o, f) = open_mo_opt(o, what);
                (o, f.map(|f| must("rendering a MO catalogue", || f.to_string())))
            };
            t.lock().unwrap().extend(f.map(|f| (what, f)));
            o
        })
    };
    w().draw_soft(true);
    if po {
        res.push(("path", process(|| open_po(path).0)));
        res.push(("path with width", wide("path with width", FileOptions::from((path, width)))));
        let b1 = b.clone();
        res.push(("bytes", process(move || open_po_opt(FileOptions::from(b1), "bytes").0)));
        res.push(("bytes with width", wide("bytes with width", FileOptions::from((b.clone(), width)))));
        if let Some(t) = text.clone() {
            let t1 = t.clone();
            res.push(("text", process(move || open_po_opt(FileOptions::from(t1.as_str()), "text").0)));
            res.push(("text with width", wide("text with width", FileOptions::from((t.as_str(), width)))));
            res.push((
                "conversion of text",
                process(move || match lib(|| POFile::from(t.as_str())) {
                    Ok(f) => Opened::Cat(MC::of_po(&f).canon()),
                    // This form has no error value; it can only panic.
                    Err(_) => Opened::Err(String::new()),
                }),
            ));
        }
    } else {
        res.push(("path", process(|| open_mo(path).0)));
        res.push(("path object", process(|| open_mo_opt(FileOptions::from(std::path::Path::new(path)), "path object").0)));
        let b1 = b.clone();
        res.push(("bytes", process(move || open_mo_opt(FileOptions::from(b1), "bytes").0)));
        res.push(("path with width", wide("path with width", FileOptions::from((path, width)))));
        res.push(("bytes with width", wide("bytes with width", FileOptions::from((b.clone(), width)))));
    }
    let soft = w().f.soft_fired;
    let (n0, r0) = res[0].clone();
    for (n, r) in &res {
        eval();
        if let Opened::Panic(p) = r {
            violation("panic", &format!("opening from {} panicked: {}", n, p));
        }
        let bad = match (&r0, r) {
            (Opened::Err(_), Opened::Err(b)) if b.is_empty() => false,
            (a, b) => a != b,
        };
        if bad {
            let d = match (&r0, r) {
                (Opened::Cat(a), Opened::Cat(b)) => diff(b, a, 78).unwrap_or("comments differ".into()),
                _ => String::new(),
            };
            violation("forms_differ", &format!("{} content of {} bytes: from {}: {}, from {}: {} {}", if po { "PO" } else { "MO" }, len, n0, r0.brief(), n, r.brief(), d));
        }
    }
    let texts = texts.lock().unwrap();
    for (n, t) in texts.iter().skip(1) {
        eval();
        if *t != texts[0].1 {
            violation("width_differs", &format!("opened with wrap width {}, the catalogue from {} renders as {} bytes, the one from {} as {}", width, texts[0].0, texts[0].1.len(), n, t.len()));
        }
    }
    if soft > 0 {
        nontrivial();
        sample(&format!("{} content of {} bytes (hash {:08x}) in {} forms, {} partial or interrupted reads: {}", if po { "PO" } else { "MO" }, len, hash_bytes(&b) as u32, res.len(), soft, r0.brief()));
    }
}
