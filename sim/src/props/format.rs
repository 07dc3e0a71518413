//! P20: files of other programs; P21: files for other programs.
use super::*;
use crate::engine::{eval, finding, nontrivial, sample};
use crate::po::{self, Role, Writer};
use crate::sim::w;
use rspolib::{FileOptions, POFile};

/// Change the characters of every string, not of comments.
fn map_texts(m: &MC, f: impl Fn(char) -> char) -> MC {
    let g = |s: &String| s.chars().map(&f).collect::<String>();
    let mut x = m.clone();
    for (k, v) in &mut x.meta {
        *k = g(k);
        *v = g(v);
    }
    for e in &mut x.e {
        e.id = g(&e.id);
        for o in [&mut e.ctx, &mut e.tr, &mut e.pl, &mut e.pctx, &mut e.pid, &mut e.ppl] {
            *o = o.as_ref().map(&g);
        }
        for t in &mut e.trs {
            *t = g(t);
        }
    }
    x
}
struct Foreign {
    bytes: Vec<u8>,
    want: MC,
    /// The same with the recorded finding about `\v` and `\f`.
    found: MC,
    /// First line of each entry.
    first: Vec<usize>,
    /// Kind, line and column of an error put in on purpose.
    bad: Option<(&'static str, Option<usize>, Option<usize>)>,
    style: String,
}
/// Place inside an escaped string where no escape sequence is cut.
fn spot(body: &str) -> usize {
    let cs: Vec<char> = body.chars().collect();
    let mut p = draw(cs.len().min(5000) as u32 + 1) as usize;
    while p > 0 && cs[..p].iter().rev().take_while(|c| **c == '\\').count() % 2 == 1 {
        p -= 1;
    }
    p
}
fn insert_at(body: &str, p: usize, x: &str) -> String {
    let a: String = body.chars().take(p).collect();
    let b: String = body.chars().skip(p).collect();
    format!("{}{}{}", a, x, b)
}
fn foreign_po() -> Foreign {
    let mut m = gen_po(7, false);
    // A leading comment would be the header's.
    let bare = chance(1, 6) && m.e.first().map_or(false, |e| e.tcom.is_none());
    if bare {
        m.header = None;
        m.meta.clear();
        m.fuzzy = false;
    }
    let mut want = m.canon();
    for e in want.e.iter_mut().filter(|e| e.obs) {
        e.pctx = None;
        e.pid = None;
        e.ppl = None;
    }
    let spoil = chance(1, 4);
    let mut wr = Writer::new(&mut w().tape);
    wr.catalogue(&m, !bare);
    if chance(1, 8) {
        wr.remark();
    }
    let found = if wr.raw() { want.clone() } else { map_texts(&want, |c| po::VF.iter().position(|x| *x == c).map_or(c, |i| po::VF_FOUND[i])) };
    let lines = wr.lines;
    let mut texts: Vec<String> = lines.iter().map(|l| l.text()).collect();
    let first = (0..m.e.len())
        .map(|i| lines.iter().position(|l| l.entry == i && !l.head.starts_with("#~|")).unwrap() + 1)
        .collect();
    let mut bad = None;
    if spoil {
        let kind = draw(11);
        let fit: Vec<usize> = (0..lines.len())
            .filter(|i| {
                let l = &lines[*i];
                let kw = l.head.trim_end();
                !l.head.starts_with("#~|")
                    && match kind {
                        2 | 7 => l.role == Role::Key,
                        9 => l.role == Role::Key && !kw.starts_with("#|") && (kw.ends_with("msgid") || kw.ends_with("msgid_plural")),
                        10 => l.role == Role::Key && kw.ends_with("msgstr"),
                        5 => l.role == Role::Key && kw.contains("msgstr["),
                        6 => l.role == Role::Key && (kw == "msgid" || kw == "#~ msgid"),
                        _ => l.role == Role::Key || l.role == Role::Cont,
                    }
            })
            .collect();
        if !fit.is_empty() {
            let i = fit[draw(fit.len() as u32) as usize];
            let mut l = lines[i].clone();
            let no = Some(i + 1);
            bad = Some(match kind {
                0 => {
                    texts[i] = format!("{}{}\"{}", l.indent, l.head, l.body);
                    ("a string without its closing quote", no, None)
                }
                1 => {
                    let p = spot(&l.body);
                    l.body = insert_at(&l.body, p, "\"");
                    texts[i] = l.text();
                    let plain = !l.head.starts_with('#') && !l.head.contains("  ") && !l.head.contains('\t');
                    ("a quote inside a string", no, if plain { Some(l.head.chars().count() + p + 2) } else { None })
                }
                2 => {
                    texts[i] = texts[i].replacen("msg", "xmsg", 1);
                    ("an unknown keyword", no, None)
                }
                3 => {
                    texts[i] = format!("{}{}text", l.indent, l.head);
                    ("a string without quotes", no, None)
                }
                4 => {
                    let p = spot(&l.body);
                    l.body = insert_at(&l.body, p, "\\q");
                    texts[i] = l.text();
                    ("an unknown escape sequence", None, None)
                }
                5 => {
                    texts[i] = texts[i].replacen('[', "[x", 1);
                    ("a wrong plural index", no, None)
                }
                7 => {
                    texts[i] = format!("{}{}", l.indent, l.head.trim_end());
                    ("a keyword without a string", no, None)
                }
                8 => {
                    texts[i] = format!("{}x", l.text().trim_end());
                    ("text behind the closing quote", no, None)
                }
                9 | 10 => {
                    // Behind the last line of the string.
                    let mut j = i + 1;
                    while j < lines.len() && lines[j].role == Role::Cont {
                        j += 1;
                    }
                    let o = if l.head.starts_with('#') { "#~ " } else { "" };
                    let kw = if kind == 9 { "msgctxt" } else { ["msgstr", "msgid_plural"][draw(2) as usize] };
                    texts.insert(j, format!("{}{} \"x\"", o, kw));
                    ("a keyword out of place", Some(j + 1), None)
                }
                _ => {
                    let t = texts[i].clone();
                    texts.insert(i, t);
                    ("a second msgid in one message", Some(i + 2), None)
                }
            });
        }
    }
    let nl = if chance(1, 3) { "\r\n" } else { "\n" };
    let mut s = texts.join(nl);
    let end = !chance(1, 4);
    if end {
        s.push_str(nl);
    }
    let bom = chance(1, 6);
    if bom {
        s.insert(0, '\u{feff}');
    }
    let style = format!("PO file of {} lines, {} line ends{}{}", texts.len(), if nl.len() == 2 { "CRLF" } else { "LF" }, if end { "" } else { ", no final line end" }, if bom { ", byte-order mark" } else { "" });
    Foreign { bytes: s.into_bytes(), want, found, first, bad, style }
}
/// Line and column named by an error, as `err_key` prints them.
fn place(e: &str) -> (Option<usize>, Option<usize>) {
    let ws: Vec<&str> = e.split(' ').collect();
    match ws.as_slice() {
        [_, "line", l, "index", i, ..] => (l.parse().ok(), i.parse().ok()),
        _ => (None, None),
    }
}

pub fn p20() {
    if chance(1, 4) {
        return p20_mo();
    }
    let x = process(foreign_po);
    let path = a_path("o.po");
    w().fs.put(path, &x.bytes);
    let (soft, style, entries, bad) = process(move || {
        w().draw_soft(false);
        let (o, f) = open_po(path);
        eval();
        match (&x.bad, o) {
            (_, Opened::Panic(p)) => violation("panic", &format!("opening panicked: {}", p)),
            (None, Opened::Err(e)) => violation("refused", &format!("a well-formed file is refused: {}", e)),
            (None, Opened::Cat(g)) => {
                if let Some(d) = diff(&g, &x.want, 1 << 20) {
                    let msg = format!("{}: {}", x.style, d);
                    if diff(&g, &x.found, 1 << 20).is_some() {
                        violation("misread", &msg);
                    }
                    finding("P20", "escapes", "misread", &msg);
                }
                for (i, (e, l)) in f.unwrap().entries.iter().zip(&x.first).enumerate() {
                    eval();
                    if e.linenum != *l {
                        violation("line_number", &format!("entry {} is said to start at line {} instead of {}", i, e.linenum, l));
                    }
                }
            }
            (Some((k, ..)), Opened::Cat(g)) => violation("accepted", &format!("{} was read without complaint as catalogue with {}", k, g.brief())),
            (Some((k, line, col)), Opened::Err(e)) => {
                let (l, c) = place(&e);
                if line.is_some() && l != *line {
                    violation("error_line", &format!("{} in line {} is reported as {}", k, line.unwrap(), brief(&e)));
                }
                if col.is_some() && c != *col {
                    violation("error_column", &format!("{} in line {:?} column {} is reported as {}", k, line, col.unwrap(), brief(&e)));
                }
            }
        }
        (w().f.soft_fired, x.style, x.want.e.len(), x.bad.map(|b| b.0))
    });
    nontrivial();
    sample(&format!("{}, {} entries, {}, {} partial or interrupted reads", style, entries, bad.unwrap_or("well-formed"), soft));
}
fn p20_mo() {
    let (b, want, big, rev, style, bad) = process(|| {
        let m = gen_mo(7).mo_all();
        let (big, rev, style) = (chance(1, 2), draw(2), draw(64));
        let mut b = encode_mo(&m, big, rev, style);
        // Another kind of file, or a revision nobody knows yet.
        let bad = match draw(12) {
            10 => {
                b[draw(4) as usize] ^= 1 << draw(8);
                true
            }
            11 => {
                let v = [2u32, 3, 255, 256, 65535, 1 << 24, u32::MAX][draw(7) as usize];
                b[4..8].copy_from_slice(&if big { v.to_be_bytes() } else { v.to_le_bytes() });
                true
            }
            _ => false,
        };
        (b, m, big, rev, style, bad)
    });
    let path = a_path("o.mo");
    w().fs.put(path, &b);
    let soft = process({
        let want = want.clone();
        move || {
            w().draw_soft(false);
            let (o, f) = open_mo(path);
            eval();
            match o {
                Opened::Cat(g) if bad => violation("accepted", &format!("a MO file with a foreign magic or revision number gives {}", g.brief())),
                Opened::Err(_) if bad => {}
                Opened::Cat(mut g) => {
                    g.e = g.e.iter().map(|e| e.mo_part()).collect();
                    g.sort_keys();
                    if let Some(d) = diff(&g, &want, 78) {
                        violation("misread", &format!("MO file of style {}: {}", style, d));
                    }
                    let f = f.unwrap();
                    if f.entries.len() != want.e.len() {
                        violation("misread", "another number of messages");
                    }
                    let magic: u32 = if big { 0xde120495 } else { 0x950412de };
                    if f.magic_number != Some(magic) || f.version != Some(rev) {
                        violation("misread", &format!("magic number {:x?} and revision {:?} instead of {:x} and {}", f.magic_number, f.version, magic, rev));
                    }
                }
                x => violation("refused", &format!("a well-formed MO file of style {} gives {}", style, x.brief())),
            }
            w().f.soft_fired
        }
    });
    nontrivial();
    sample(&format!("MO file of {} bytes, {}, style {}, {}{}, {} partial or interrupted reads", b.len(), want.brief(), style, if big { "big-endian" } else { "little-endian" }, if bad { ", unknown magic or revision" } else { "" }, soft));
}

/// Customary order of the well-known metadata fields.
const KNOWN: [&str; 11] = [
    "Project-Id-Version", "Report-Msgid-Bugs-To", "POT-Creation-Date", "PO-Revision-Date", "Last-Translator", "Language-Team", "Language", "MIME-Version",
    "Content-Type", "Content-Transfer-Encoding", "Plural-Forms",
];
/// A line that is too wide although it could be broken at a blank.
fn breakable(s: &str, width: usize) -> bool {
    if s.len() <= width || !s.is_ascii() || s.contains('\\') || s.bytes().any(|b| b < 32 || b == 127) {
        return false;
    }
    let b = s.as_bytes();
    (1..b.len() - 1).any(|i| b[i] == b' ' && b[i - 1].is_ascii_alphabetic() && b[i + 1].is_ascii_alphabetic())
}
fn check_stored(b: &[u8], want: &MC, width: usize, what: &str) {
    eval();
    let read = |vf| match po::read(b, vf) {
        Ok(r) => r,
        Err(e) => violation("malformed_po", &format!("{}: {}", what, e)),
    };
    let r = read(po::VF);
    if let Some(d) = diff(&r.m.canon(), want, width) {
        let msg = format!("{}: another reader sees: {}", what, d);
        if diff(&read(po::VF_FOUND).m.canon(), want, width).is_some() {
            violation("stored_differs", &msg);
        }
        finding("P21", "escapes", "stored_differs", &msg);
    }
    for s in r.pieces.iter().flatten() {
        eval();
        if breakable(s, width) {
            violation("too_wide", &format!("{}: a line of {} characters could be broken at width {}: {}", what, s.len(), width, brief(s)));
        }
    }
    for s in &r.comment_lines {
        if breakable(s, width) {
            violation("too_wide", &format!("{}: a comment line of {} characters could be broken at width {}: {}", what, s.len(), width, brief(s)));
        }
    }
    for o in &r.occ_lines {
        let s = o.join(" ");
        if o.len() > 1 && s.is_ascii() && s.len() + 3 > width {
            violation("too_wide", &format!("{}: a line of {} occurrences is wider than {}", what, o.len(), width));
        }
    }
    let pos: Vec<usize> = r.meta_keys.iter().map(|k| KNOWN.iter().position(|x| x == k).unwrap_or(KNOWN.len())).collect();
    if pos.windows(2).any(|p| p[0] > p[1]) {
        violation("metadata_order", &format!("{}: the metadata fields are not in the customary order: {:?}", what, r.meta_keys));
    }
}

pub fn p21() {
    let (m, width, mo) = process(|| {
        let mo = chance(1, 4);
        let m = if mo { gen_mo(8) } else { gen_po(8, false) };
        let width = if mo || chance(1, 3) { 78 } else { draw(201) as usize };
        (m, width, mo)
    });
    let cycles = 1 + draw(2);
    // What a file keeps: obsolete entries last, without occurrences.
    let mut want = m.reopened();
    let obs: Vec<ME> = m.e.iter().filter(|e| e.obs).cloned().collect();
    let n = want.e.len() - obs.len();
    for (x, o) in want.e[n..].iter_mut().zip(obs) {
        x.pctx = o.pctx;
        x.pid = o.pid;
        x.ppl = o.ppl;
    }
    if mo {
        want.e = want.e.iter().map(|e| e.mo_part()).collect();
    }
    let mut soft = 0;
    for c in 0..cycles {
        let (m2, want2) = (m.clone(), want.clone());
        soft += process(move || {
            w().clear_faults();
            w().draw_soft(false);
            let (cat, kind) = if mo && c == 0 {
                (Cat::Mo(m2.to_mo()), SaveKind::MoAsPo)
            } else if c == 0 {
                let mut f = POFile::new(FileOptions::from(("", width)));
                m2.fill_po(&mut f);
                (Cat::Po(f), if chance(1, 2) { SaveKind::PoSave } else { SaveKind::PoAsPo })
            } else {
                match open_po_opt(FileOptions::from(("/sim/t.po", width)), "/sim/t.po") {
                    (Opened::Cat(_), Some(f)) => (Cat::Po(f), SaveKind::PoSave),
                    (x, _) => violation("unreadable", &format!("reopening gives {}", x.brief())),
                }
            };
            if let Err(e) = save(&cat, kind, "/sim/t.po") {
                violation("save_failed", &format!("saving on healthy storage failed: {}", e));
            }
            // Entries rendered on their own.
            for (i, e) in want2.e.iter().enumerate().take(4) {
                let one = MC { e: vec![e.clone()], ..Default::default() };
                let (t, wd) = must("rendering an entry", || {
                    if mo {
                        (one.to_mo().entries[0].to_string(), 78)
                    } else if c == 0 {
                        (one.to_po().entries[0].to_string_with_wrapwidth(width), width)
                    } else {
                        (one.to_po().entries[0].to_string(), 78)
                    }
                });
                check_stored(format!("msgid \"\"\nmsgstr \"\"\n\n{}", t).as_bytes(), &one, wd, &format!("entry {} rendered at width {}", i, wd));
            }
            let b = w().fs.get("/sim/t.po").cloned().unwrap_or_default();
            check_stored(&b, &want2, width, &format!("file saved at width {} in cycle {}", width, c + 1));
            w().f.soft_fired
        });
        w().restart();
        for x in want.e.iter_mut().filter(|x| x.obs) {
            x.pctx = None;
            x.pid = None;
            x.ppl = None;
        }
    }
    if !m.e.is_empty() {
        nontrivial();
        sample(&format!("{}{}, width {}, {} saves, {} partial or interrupted calls", m.brief(), if mo { " from MO" } else { "" }, width, cycles, soft));
    }
}
