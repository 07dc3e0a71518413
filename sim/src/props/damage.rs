//! P08: damaged files.
use super::*;
use crate::engine::{eval, nontrivial, sample};
use crate::gen::foreign;
use crate::sim::{alloc, w, K};
use rspolib::{AsBytes, MOFile, Merge, POFile};

const TOK: &[&[u8]] = &[
    b"msgid", b"msgstr", b"msgctxt", b"msgid_plural", b"msgstr[0]", b"msgstr[1]", b"msgstr[999999999]", b"msgstr[18446744073709551615]", b"msgstr[", b"\"", b"\\", b"#", b"#~", b"#|", b"#:", b"#,",
    b"#.", b"#~|", b"\n", b"\r", b"\n\"\n", b"\nmsgid \"\n", b"\n#| msgid \"\n", b" ", b"\0", b"\x04", b"\xc3", b"\xef\xbb\xbf", b"[", b"]", b"msgid \"\"\n", b"msgstr \"\"\n", b"\xe2\x80\xa8", b"\xc2\xa0", b":", b"##",
    b"\nmsgid x\"\n", b"\nmsgid \xc3\xa9\"\n", b"\nmsgstr[0] \"\n", b"\n#| \"x\"\n", b"\n#|\n", b"\n#~ \"\n", b"\nmsgstr[0]\n",
];

/// Apply `n` drawn damages.
pub fn damage(b: &mut Vec<u8>, other: &[u8], n: u32) {
    for _ in 0..n {
        let len = b.len();
        if len == 0 {
            b.extend_from_slice(TOK[draw(TOK.len() as u32) as usize]);
            continue;
        }
        let at = draw(len as u32) as usize;
        let bs = [1usize, 4, 16, 64, 512][draw(5) as usize];
        let end = (at + bs).min(len);
        let k = match w().tape.weighted(&[3, 2, 2, 2, 3, 2, 2, 4, 4, 3]) {
            0 => {
                b[at] ^= 1 << draw(8);
                K::DmgFlip
            }
            1 => {
                b[at..end].fill(0);
                K::DmgZero
            }
            2 => {
                let to = draw(len as u32) as usize;
                for i in 0..bs {
                    if at + i < len && to + i < len {
                        b.swap(at + i, to + i);
                    }
                }
                K::DmgSwap
            }
            3 => {
                let piece = b[at..end].to_vec();
                let to = draw(len as u32) as usize;
                b.splice(to..to, piece);
                K::DmgDup
            }
            4 => {
                b.truncate(at);
                K::DmgTrunc
            }
            5 => {
                for i in at..end {
                    if let Some(x) = other.get(i) {
                        b[i] = *x;
                    }
                }
                K::DmgStale
            }
            6 => {
                let c = b[at];
                let n = 1 + draw(300) as usize;
                b.splice(at..at, std::iter::repeat(c).take(n));
                K::DmgRepeat
            }
            7 => {
                // A word of a table.
                let v = match draw(6) {
                    0 => 0u32,
                    1 => u32::MAX,
                    2 => 1 << draw(32),
                    3 => draw(len as u32 * 2 + 1),
                    4 => len as u32,
                    _ => w().tape.draw_raw(),
                };
                let o = (if chance(1, 2) { 4 * draw(7) as usize } else { at & !3 }).min(len);
                let bytes = if chance(1, 2) { v.to_le_bytes() } else { v.to_be_bytes() };
                for i in 0..4 {
                    if o + i < len {
                        b[o + i] = bytes[i];
                    }
                }
                K::DmgWord
            }
            8 => {
                let t = TOK[draw(TOK.len() as u32) as usize];
                // Half the time at the start of a line.
                let p = if chance(1, 2) { at } else { b[..at].iter().rposition(|c| *c == b'\n').map_or(0, |x| x + 1) };
                let del = draw(3) as usize * t.len() / 2;
                let e = (p + del).min(len);
                b.splice(p..e, t.iter().copied());
                K::DmgTok
            }
            _ => {
                // Lose, repeat or move a line.
                let mut ls: Vec<Vec<u8>> = b.split(|c| *c == b'\n').map(|x| x.to_vec()).collect();
                let i = draw(ls.len() as u32) as usize;
                let l = ls.remove(i);
                match draw(3) {
                    0 => {}
                    1 => {
                        ls.insert(i, l.clone());
                        ls.insert(i, l);
                    }
                    _ => {
                        let j = draw(ls.len() as u32 + 1) as usize;
                        ls.insert(j, l);
                    }
                }
                *b = ls.join(&b'\n');
                K::DmgLine
            }
        };
        w().fault(k, &format!("near byte {} of {}", at, len));
    }
}

pub fn p08() {
    let po_file = !chance(2, 5);
    let mut hits = 0;
    // A version written completely, a second one lost in part by a power failure.
    let other = process(move || {
        let m = gen_po(4, true);
        if po_file {
            render(&m).into_bytes()
        } else {
            expected(&Cat::Po(m.to_po()), SaveKind::PoAsMo)
        }
    });
    let kind = w().tape.weighted(&[3, 4, 1]);
    if chance(1, 2) {
        w().fs.put("/sim/c", &other);
    }
    process(move || {
        let m = if po_file { gen_po(6, false) } else { gen_po(6, true) };
        w().draw_soft(false);
        match draw(3) {
            0 if po_file => {
                let s = render(&m);
                let b = foreign(&mut w().tape, &s);
                w().fs.put("/sim/c", &b);
            }
            1 if !po_file => {
                let b = encode_mo(&m.mo_messages(), chance(1, 2), draw(2), draw(16));
                w().fs.put("/sim/c", &b);
            }
            _ => {
                let k = if po_file { SaveKind::PoSave } else { SaveKind::PoAsMo };
                let _ = save(&Cat::Po(m.to_po()), k, "/sim/c");
            }
        }
        w().clear_faults();
    });
    if kind != 1 {
        w().power_loss();
        hits += 1;
    }
    let mut b = w().fs.get("/sim/c").cloned().unwrap_or_default();
    if kind != 0 {
        let n = 1 + draw(5);
        damage(&mut b, &other, n);
        hits += n;
    }
    w().fs.put("/sim/c", &b);
    let cross = chance(1, 10);
    if cross {
        w().fault(K::DmgCross, "");
    }
    let as_po = po_file != cross;
    let n = b.len() as i64;
    let chunked = chance(1, 4);
    let o = process(move || {
        if chunked {
            w().draw_soft(true);
        } else {
            w().op_limit = w().ops + 200 + 2 * n as u64;
        }
        let mark = alloc::mark();
        let (o, p, m) = if as_po {
            let (o, f) = open_po("/sim/c");
            (o, f, None)
        } else {
            let (o, f) = open_mo("/sim/c");
            (o, None, f)
        };
        let peak = alloc::peak_since(mark);
        w().op_limit = u64::MAX;
        w().clear_faults();
        eval();
        if let Opened::Panic(x) = &o {
            violation("panic", &format!("opening a damaged {} file of {} bytes panicked: {}", if as_po { "PO" } else { "MO" }, n, x));
        }
        let bound = (2 << 20) + 200 * n + n * n / 2;
        if peak > bound {
            violation("memory", &format!("opening a damaged file of {} bytes needed {} bytes of memory", n, peak));
        }
        if let Some(f) = p {
            use_po(f);
        }
        if let Some(f) = m {
            use_mo(f);
        }
        o
    });
    if hits > 0 {
        nontrivial();
        sample(&format!("{} damages, {} bytes opened as {}: {}", hits, n, if as_po { "PO" } else { "MO" }, o.brief()));
    }
}
fn ok<R>(what: &str, r: Result<R, String>) -> R {
    eval();
    match r {
        Ok(x) => x,
        Err(p) => violation("panic_using", &format!("{} a catalogue read from a damaged file panicked: {}", what, p)),
    }
}
fn use_po(f: POFile) {
    ok(
        "querying",
        lib(|| {
            let _ = (f.percent_translated(), f.translated_entries().len(), f.untranslated_entries().len(), f.fuzzy_entries().len(), f.obsolete_entries().len());
            for by in ["msgid", "msgstr", "msgctxt", "msgid_plural", "previous_msgid", "previous_msgctxt"] {
                let _ = f.find("a", by, None, true).len();
            }
            let _ = f.find_by_msgid("a");
            let _ = f.find_by_msgid_msgctxt("a", "b");
        }),
    );
    ok("rendering", lib(|| f.to_string().len()));
    ok("rendering entries of", lib(|| f.entries.iter().map(|e| e.to_string_with_wrapwidth(10).len()).sum::<usize>()));
    let m = ok("converting", lib(|| MOFile::from(&f)));
    ok("rendering as MO", lib(|| (m.as_bytes_le().len(), m.as_bytes_be().len())));
    ok(
        "merging",
        lib(|| {
            let mut g = f.clone();
            g.merge(f.clone());
            let mut h = POFile::new("".into());
            h.merge(f.clone());
        }),
    );
    if let Err(e) = save(&Cat::Po(f), SaveKind::PoSave, "/sim/again.po") {
        ok::<()>("saving", Err(e));
    }
}
fn use_mo(f: MOFile) {
    ok(
        "querying",
        lib(|| {
            let _ = f.find("a", "msgid", None).len();
            let _ = f.find_by_msgid("a").is_some();
            let _ = f.find_by_msgid_msgctxt("a", "b").is_some();
        }),
    );
    ok("rendering", lib(|| f.to_string().len()));
    ok("rendering as MO", lib(|| (f.as_bytes_le().len(), f.as_bytes_be().len())));
    if let Err(e) = save(&Cat::Mo(f), SaveKind::MoAsPo, "/sim/again.po") {
        ok::<()>("saving", Err(e));
    }
}
