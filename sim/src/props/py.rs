//! P15: the Python module, used through the interpreter it is loaded in.
use super::*;
use crate::capi::{self as py, Exc, Gil, Py, R};
use crate::engine::{eval, nontrivial, sample};
use crate::sim::{hash_bytes, Op};
use rspolib::prelude::*;
use rspolib::{EntryCmpByOptions, MOFile, MAGIC, MAGIC_SWAPPED};

const IDS: &[&str] = &["a", "b", "file", "Open %s", "line\nbreak", "quote \" and \\", "中文 é", " lead", "trail ", "A", "nul\0in", "x"];
const CTX: &[&str] = &["menu", "a", "c\\d", ""];
const FIELDS: [&str; 7] = ["msgid", "msgctxt", "msgstr", "msgid_plural", "previous_msgid", "previous_msgid_plural", "previous_msgctxt"];

fn bad(rule: &str, msg: String) -> ! {
    violation(rule, &msg)
}
/// A call that has no reason to fail.
fn ok<T>(what: &str, r: R<T>) -> T {
    match r {
        Ok(x) => x,
        Err(e) => bad("exception", format!("{} raised {}", what, e)),
    }
}
fn me(o: &Py, mo: bool) -> R<ME> {
    let t = |n: &str| o.get(n)?.opt();
    let mut e = ME { ctx: t("msgctxt")?, id: o.get("msgid")?.text()?, tr: t("msgstr")?, pl: t("msgid_plural")?, trs: o.call("get_msgstr_plural", vec![])?.texts()?, ..Default::default() };
    if mo {
        // A plural message has no translation of its own.
        if e.pl.is_some() {
            e.tr = None;
        } else {
            e.trs.clear();
        }
        return Ok(e);
    }
    e.obs = o.get("obsolete")?.truth()?;
    e.com = t("comment")?;
    e.tcom = t("tcomment")?;
    e.occ = o.call("get_occurrences", vec![])?.pairs()?;
    e.flags = o.call("get_flags", vec![])?.texts()?;
    e.pctx = t("previous_msgctxt")?;
    e.pid = t("previous_msgid")?;
    e.ppl = t("previous_msgid_plural")?;
    Ok(e)
}
fn list(o: Py, mo: bool) -> R<Vec<ME>> {
    o.items()?.iter().map(|x| me(x, mo)).collect()
}
fn state(f: &Py, mo: bool) -> R<MC> {
    let mut meta = f.call("get_metadata", vec![])?.dict_pairs()?;
    meta.sort();
    let e = list(f.call("get_entries", vec![])?, mo)?;
    Ok(if mo {
        MC { header: None, meta, fuzzy: false, e }
    } else {
        MC { header: Some(f.get("header")?.text()?).filter(|h| !h.is_empty()), meta, fuzzy: f.get("metadata_is_fuzzy")?.truth()?, e }
    })
}
/// Build an entry, each field by constructor or by setter.
fn make(m: &Py, e: &ME, mo: bool) -> R<Py> {
    let mut ctor = vec![];
    let mut later = vec![];
    let mut put = |n: &'static str, v: Py, both: bool| {
        if both && chance(1, 2) {
            ctor.push((n, v));
        } else {
            later.push((n, v));
        }
    };
    put("msgid", py::text(&e.id), true);
    put("msgstr", py::opt(&e.tr), true);
    put("msgid_plural", py::opt(&e.pl), true);
    put("msgstr_plural", py::texts(&e.trs), true);
    put("msgctxt", py::opt(&e.ctx), true);
    if !mo {
        put("tcomment", py::opt(&e.tcom), true);
        put("comment", py::opt(&e.com), true);
        put("flags", py::texts(&e.flags), true);
        put("obsolete", py::boolean(e.obs), false);
        put("occurrences", py::list(e.occ.iter().map(|o| py::tuple(vec![py::text(&o.0), py::text(&o.1)])).collect()), false);
        put("previous_msgid", py::opt(&e.pid), false);
        put("previous_msgid_plural", py::opt(&e.ppl), false);
        put("previous_msgctxt", py::opt(&e.pctx), false);
    }
    let o = m.call_kw(if mo { "MOEntry" } else { "POEntry" }, vec![], &ctor)?;
    for (n, v) in later {
        o.set(n, v)?;
    }
    Ok(o)
}
fn open(m: &Py, path: &str, mo: bool, width: usize) -> R<Py> {
    let f = match (mo, chance(1, 2)) {
        (false, false) => "pofile",
        (false, true) => "POFile",
        (true, false) => "mofile",
        (true, true) => "MOFile",
    };
    w().note(|| format!("=> {}({:?}, {})", f, path, width), 1);
    let r = if width == 78 && chance(1, 2) {
        m.call(f, vec![py::text(path)])
    } else if chance(1, 2) {
        m.call(f, vec![py::text(path), py::int(width)])
    } else {
        m.call_kw(f, vec![py::text(path)], &[("wrapwidth", py::int(width))])
    };
    told("open", &r);
    r
}
fn told<T>(what: &str, r: &R<T>) {
    let e = r.as_ref().err().cloned();
    let h = e.as_ref().map_or(0, |e| hash_bytes(e.class.as_bytes()));
    w().note(|| format!("<= {} {}", what, e.map_or("returned".into(), |e| e.to_string())), h);
}
fn call_save(f: &Py, how: &str, path: &str) -> R<()> {
    w().note(|| format!("=> {}({:?})", how, path), 3);
    let r = f.call(how, vec![py::text(path)]).map(|_| ());
    told(how, &r);
    r
}
fn expect_class(e: &Exc, mo: bool) {
    let want = if mo { "rspolib.IOError" } else { "rspolib.SyntaxError" };
    if e.class != want {
        bad("exception_class", format!("a failing open raised {} instead of {}", e, want));
    }
}

pub fn p15() {
    match w().tape.weighted(&[3, 2, 2]) {
        0 => history(),
        1 => reads(),
        _ => saves(),
    }
}

/// One open under storage faults.
fn reads() {
    let mo = chance(1, 2);
    let path = a_path(if mo { "r.mo" } else { "r.po" });
    let (bytes, want) = if mo {
        let m = gen_mo(6);
        let (big, rev, style) = (chance(1, 3), draw(2), draw(16));
        (encode_mo(&m, big, rev, style), m.mo_all())
    } else {
        let m = gen_po(6, false);
        (render(&m).into_bytes(), m.reopened())
    };
    w().fs.put(path, &bytes);
    let hard = chance(2, 3);
    w().clear_faults();
    w().draw_soft(false);
    if hard {
        w().draw_hard(&[Op::Stat, Op::Open, Op::Read, Op::Seek], 2);
    }
    process(move || {
        let _g = Gil::new();
        let m = py::module();
        let r = open(&m, path, mo, 78);
        let fired = w().f.hard_fired;
        eval();
        match r {
            Ok(f) => {
                let mut g = ok("reading the catalogue", state(&f, mo)).canon();
                if mo {
                    g.e = g.e.iter().map(|e| e.mo_part()).collect();
                    g.sort_keys();
                }
                if let Some(d) = diff(&g, &want, 78) {
                    bad("altered", format!("an open with {} storage errors returned another catalogue: {}", fired, d));
                }
            }
            Err(e) => {
                if fired == 0 {
                    bad("refused", format!("an open without storage errors raised {}", e));
                }
                expect_class(&e, mo);
            }
        }
        // The same file on healthy storage, through Python and through Rust.
        w().clear_faults();
        w().fs.put(path, &bytes);
        let f = ok("an open on healthy storage", open(&m, path, mo, 78));
        let int = |o: &Py, n: &str| ok(n, o.get(n).and_then(|x| x.int()));
        let same = if mo {
            let r = open_mo(path).1.unwrap();
            int(&f, "magic_number") == r.magic_number.unwrap_or(MAGIC) as i64 && int(&f, "version") == r.version.unwrap_or(0) as i64
        } else {
            let r = open_po(path).1.unwrap();
            let es = ok("get_entries", f.call("get_entries", vec![]).and_then(|x| x.items()));
            es.iter().map(|e| int(e, "linenum")).eq(r.entries.iter().map(|e| e.linenum as i64))
        };
        if !same || int(&f, "wrapwidth") != 78 || ok("path", f.get("path_or_content").and_then(|x| x.text())) != path {
            bad("differs_from_rust", "the opened file has another magic number, version, line numbers, width or path".into());
        }
        if fired > 0 {
            nontrivial();
            sample(&format!("open of a {} file of {} bytes through Python with {} storage errors", if mo { "MO" } else { "PO" }, bytes.len(), fired));
        }
    });
}

/// One save under storage faults.
fn saves() {
    let mo = chance(1, 3);
    let cat = if mo { gen_mo(6) } else { gen_po(6, true) };
    let width = if chance(1, 2) { 78 } else { 20 + draw(100) as usize };
    let how = ["save", "save_as_pofile", "save_as_mofile"][draw(3) as usize];
    let to_mo = how == "save_as_mofile" || (mo && how == "save");
    let path = a_path("w.out");
    if chance(1, 2) {
        let old = vec![b'o'; draw(4000) as usize];
        w().fs.put(path, &old);
    }
    w().clear_faults();
    process(move || {
        let _g = Gil::new();
        let m = py::module();
        let f = build(&m, &cat, mo, width);
        let want = if to_mo { ok("as_bytes", f.call("as_bytes", vec![]).and_then(|b| b.bytes())) } else { ok("str", f.str()).into_bytes() };
        let rust = rust_bytes(&cat, mo, to_mo, width);
        eval();
        if want != rust {
            bad("differs_from_rust", format!("the catalogue renders as {} bytes through Python and as {} through Rust", want.len(), rust.len()));
        }
        w().draw_soft(false);
        let n = draw(4);
        match n {
            0 => {}
            1 => w().draw_disk_free(),
            _ => w().draw_hard(&[Op::Create, Op::Write], n),
        }
        let r = call_save(&f, how, path);
        let fired = w().f.hard_fired;
        let full = w().fs.free.is_some();
        w().clear_faults();
        eval();
        let got = w().fs.get(path);
        match r {
            Ok(()) => {
                if got != Some(&want) {
                    bad("short_save", format!("{} returned but the file holds {:?} of {} bytes", how, got.map(|b| b.len()), want.len()));
                }
            }
            Err(e) => {
                if fired == 0 && !full {
                    bad("refused", format!("a save without storage errors raised {}", e));
                }
            }
        }
        let g = ok("reading the catalogue", state(&f, mo));
        let mut x = cat.clone();
        x.meta.sort();
        if g != x {
            bad("memory_changed", format!("the catalogue changed in memory: {}", diff(&g.canon(), &x.canon(), 78).unwrap_or_default()));
        }
        if let Err(e) = call_save(&f, how, path) {
            bad("retry", format!("the save raised {} on healthy storage", e));
        }
        if w().fs.get(path) != Some(&want) {
            bad("short_save", "a save on healthy storage is incomplete".into());
        }
        if fired > 0 || full {
            nontrivial();
            sample(&format!("{} of {} bytes through Python with {} storage errors", how, want.len(), fired));
        }
    });
}
fn rust_bytes(m: &MC, mo: bool, to_mo: bool, width: usize) -> Vec<u8> {
    let k = match (mo, to_mo) {
        (true, true) => SaveKind::MoSave,
        (true, false) => SaveKind::MoAsPo,
        (false, true) => SaveKind::PoAsMo,
        (false, false) => SaveKind::PoSave,
    };
    let c = if mo {
        let mut f = m.to_mo();
        f.options.wrapwidth = width;
        Cat::Mo(f)
    } else {
        let mut f = m.to_po();
        f.options.wrapwidth = width;
        Cat::Po(f)
    };
    expected(&c, k)
}
fn build(m: &Py, x: &MC, mo: bool, width: usize) -> Py {
    ok("building a catalogue", (|| {
        let f = m.call(if mo { "MOFile" } else { "POFile" }, vec![])?;
        if width != 78 {
            f.set("wrapwidth", py::int(width))?;
        }
        if f.get("wrapwidth")?.int()? != width as i64 {
            bad("state", "wrapwidth is not the one set".into());
        }
        if !mo {
            f.set("header", py::opt(&x.header))?;
            f.set("metadata_is_fuzzy", py::boolean(x.fuzzy))?;
        }
        let md: Vec<(&str, Py)> = x.meta.iter().map(|(k, v)| (k.as_str(), py::text(v))).collect();
        if chance(1, 2) {
            f.set("metadata", py::dict(&md))?;
        } else {
            f.call("update_metadata", vec![py::dict(&md)])?;
        }
        let es: Vec<Py> = x.e.iter().map(|e| make(m, e, mo)).collect::<R<_>>()?;
        if chance(1, 2) {
            f.set("entries", py::list(es))?;
        } else {
            for e in es {
                f.call("append", vec![e])?;
            }
        }
        Ok(f)
    })())
}

struct Tally {
    ops: u32,
    saves: u32,
    failed: u32,
    crashes: u32,
    reopen: u32,
}
/// A history over several processes.
fn history() {
    let mo = chance(1, 3);
    let path = a_path(if mo { "s.mo" } else { "s.po" });
    let width = if chance(2, 3) { 78 } else { 10 + draw(120) as usize };
    let mut left = 1 + draw(20);
    let mut disk: Option<MC> = None;
    let mut t = Tally { ops: 0, saves: 0, failed: 0, crashes: 0, reopen: 0 };
    while left > 0 {
        let (l, d, t2) = process(move || {
            let _g = Gil::new();
            session(path, left, disk, t, mo, width)
        });
        left = l;
        disk = d;
        t = t2;
        w().clear_faults();
        w().restart();
    }
    if t.ops > 0 {
        nontrivial();
        sample(&format!("{} Python calls on a {} catalogue, {} saves, {} failed saves, {} crashes, {} reopenings", t.ops, if mo { "MO" } else { "PO" }, t.saves, t.failed, t.crashes, t.reopen));
    }
}
fn short(o: &mut Option<String>, width: usize) {
    if let Some(s) = o {
        let n = width.saturating_sub(4).min(30).max(3);
        let t: Vec<String> = s.lines().map(|l| l.chars().take(n).collect::<String>().trim_end().to_string()).filter(|l| !l.is_empty()).collect();
        *s = t.join("\n");
        if s.is_empty() {
            *o = None;
        }
    }
}
fn entry(mo: bool, width: usize) -> ME {
    let mut g = G::new(&mut w().tape);
    g.mo = true;
    let mut e = g.entry(mo);
    e.id = IDS[draw(if mo { 10 } else { IDS.len() as u32 }) as usize].into();
    e.ctx = if chance(1, 3) { Some(CTX[draw(4) as usize].into()) } else { None };
    if e.pl.as_deref() == Some("") {
        e.pl = Some("things".into());
    }
    short(&mut e.com, width);
    short(&mut e.tcom, width);
    e
}
fn field<'a>(e: &'a ME, by: &str) -> Option<&'a str> {
    match by {
        "msgid" => Some(&e.id),
        "msgctxt" => e.ctx.as_deref(),
        "msgstr" => e.tr.as_deref(),
        "msgid_plural" => e.pl.as_deref(),
        "previous_msgid" => e.pid.as_deref(),
        "previous_msgid_plural" => e.ppl.as_deref(),
        _ => e.pctx.as_deref(),
    }
}
fn needle(m: &MC, by: &str) -> String {
    let vs: Vec<&str> = m.e.iter().filter_map(|e| field(e, by)).filter(|s| !s.is_empty()).collect();
    if vs.is_empty() || chance(1, 4) {
        IDS[draw(IDS.len() as u32) as usize].into()
    } else {
        vs[draw(vs.len() as u32) as usize].to_string()
    }
}
fn same(what: &str, got: R<Vec<ME>>, want: Vec<&ME>) {
    eval();
    let got = ok(what, got);
    if got.iter().collect::<Vec<_>>() != want {
        let ids = |v: Vec<&ME>| format!("{:?}", v.iter().map(|e| (&e.id, &e.ctx)).collect::<Vec<_>>());
        bad("lookup", format!("{} gives {} instead of {}", what, ids(got.iter().collect()), ids(want)));
    }
}
fn verify(f: &Py, m: &MC, mo: bool, width: usize, what: &str) {
    eval();
    let g = ok("reading the catalogue", state(f, mo));
    let mut x = m.clone();
    x.meta.sort();
    if g != x {
        bad("state", format!("after {}: {}", what, diff(&g.canon(), &x.canon(), 78).unwrap_or_else(|| format!("{:?} instead of {:?}", g, x))));
    }
    if ok("len", f.len()) != m.e.len() {
        bad("state", format!("after {}: another length", what));
    }
    same("iteration", list(f.clone(), mo), m.e.iter().collect());
    let s = ok("str", f.str());
    if s.as_bytes() != rust_bytes(m, mo, false, width) {
        bad("differs_from_rust", format!("after {}: str() differs from what Rust renders", what));
    }
    if mo {
        return;
    }
    let n = m.e.len();
    let tr = m.e.iter().filter(|e| e.translated()).count();
    let p = ok("percent_translated", f.call("percent_translated", vec![]).and_then(|x| x.float()));
    if n > 0 && (p - tr as f64 / n as f64 * 100.0).abs() > 0.01 {
        bad("statistics", format!("{}% translated with {} of {}", p, tr, n));
    }
    let l = |n: &str| f.call(n, vec![]).and_then(|x| list(x, mo));
    same("translated_entries", l("translated_entries"), m.e.iter().filter(|e| e.translated()).collect());
    same("untranslated_entries", l("untranslated_entries"), m.e.iter().filter(|e| !e.translated()).collect());
    same("obsolete_entries", l("obsolete_entries"), m.e.iter().filter(|e| e.obs).collect());
    same("fuzzy_entries", l("fuzzy_entries"), m.e.iter().filter(|e| e.is_fuzzy() && !e.obs).collect());
}
fn lookups(md: &Py, f: &Py, m: &MC, mo: bool) {
    let by = FIELDS[draw(if mo { 4 } else { 7 }) as usize];
    let v = needle(m, by);
    let obs = !mo && chance(1, 2);
    let ctx = if chance(1, 3) { Some(needle(m, "msgctxt")) } else { None };
    w().note(|| format!("=> find({}, by={}, msgctxt={:?}, obsolete={})", brief(&v), by, ctx, obs), 4);
    if !(mo && by == "msgstr") {
        let mut kw = vec![("by", py::text(by))];
        if obs {
            kw.push(("include_obsolete_entries", py::boolean(true)));
        }
        if ctx.is_some() {
            kw.push(("msgctxt", py::opt(&ctx)));
        }
        let got = f.call_kw("find", vec![py::text(&v)], &kw).and_then(|x| list(x, mo));
        let want = m.e.iter().filter(|e| field(e, by) == Some(v.as_str()) && (obs || !e.obs) && ctx.as_ref().map_or(true, |c| e.ctx.as_ref() == Some(c))).collect();
        same(&format!("find by {}", by), got, want);
    }
    let one = |r: R<Py>| r.and_then(|x| if x.is_none() { Ok(vec![]) } else { me(&x, mo).map(|e| vec![e]) });
    let id = needle(m, "msgid");
    same("find_by_msgid", one(f.call("find_by_msgid", vec![py::text(&id)])), m.e.iter().find(|e| e.id == id).into_iter().collect());
    let c = needle(m, "msgctxt");
    same("find_by_msgid_msgctxt", one(f.call("find_by_msgid_msgctxt", vec![py::text(&id), py::text(&c)])), m.e.iter().find(|e| e.id == id && e.ctx.as_ref() == Some(&c)).into_iter().collect());
    // Membership goes by id, and by context where the entry has one.
    let mut e = entry(mo, 78);
    if !m.e.is_empty() && chance(1, 2) {
        e = m.e[draw(m.e.len() as u32) as usize].clone();
    }
    let has = ok("in", make(md, &e, mo).and_then(|x| f.has(&x)));
    let exact = m.e.iter().any(|x| x.key() == e.key());
    if exact && !has || has && !m.e.iter().any(|x| x.id == e.id && (e.ctx.is_none() || x.ctx.clone().unwrap_or_default() == e.ctx.clone().unwrap_or_default())) {
        bad("lookup", format!("`in` gives {} for {} in context {:?}", has, brief(&e.id), e.ctx));
    }
    let i = draw(m.e.len() as u32 + 2) as usize;
    eval();
    match f.item(i) {
        Ok(x) => same("indexing", me(&x, mo).map(|e| vec![e]), m.e.get(i).into_iter().collect()),
        Err(e) => {
            if i < m.e.len() || e.class != "builtins.IndexError" {
                bad("lookup", format!("item {} of {} raised {}", i, m.e.len(), e));
            }
        }
    }
}

/// The values Rust gives for a catalogue and for two of its entries.
fn derived(md: &Py, f: &Py, m: &MC, mo: bool, width: usize) {
    w().note(|| "=> derived values".into(), 9);
    eval();
    let agree = |what: &str, same: bool| {
        if !same {
            bad("differs_from_rust", format!("{} differs from what Rust gives", what));
        }
    };
    let rf = if mo { m.to_mo() } else { MOFile::from(&m.to_po()) };
    let b = |r: R<Py>| r.and_then(|x| x.bytes());
    let (magic, rev) = ([MAGIC, MAGIC_SWAPPED][draw(2) as usize], draw(2));
    if m.e.iter().all(|e| !mo || !e.id.contains('\0')) {
        agree("as_bytes", ok("as_bytes", b(f.call("as_bytes", vec![]))) == rf.as_bytes().to_vec());
        agree("as_bytes_le", ok("as_bytes_le", b(f.call("as_bytes_le", vec![]))) == rf.as_bytes_le().to_vec());
        agree("as_bytes_be", ok("as_bytes_be", b(f.call("as_bytes_be", vec![]))) == rf.as_bytes_be().to_vec());
        agree("as_bytes_with", ok("as_bytes_with", b(f.call("as_bytes_with", vec![py::int(magic as usize), py::int(rev as usize)]))) == rf.as_bytes_with(magic, rev).to_vec());
    }
    let me2 = ok("metadata_as_entry", f.call("metadata_as_entry", vec![]).and_then(|x| me(&x, mo)));
    let want = if mo { ME::of_mo(&rf.metadata_as_entry()) } else { ME::of_po(&m.to_po().metadata_as_entry()) };
    agree("metadata_as_entry", me2 == want);
    // Two catalogues are equal when they render equally.
    let mut y = m.clone();
    let change = draw(3);
    match change {
        1 if !y.e.is_empty() => {
            y.e.pop();
        }
        2 => y.meta.push(("X-Other".into(), "1".into())),
        _ => {}
    }
    let g = build(md, &y, mo, width);
    let same = rust_bytes(m, mo, false, width) == rust_bytes(&y, mo, false, width);
    agree("== of catalogues", ok("==", f.compare(&g, 2)) == same && ok("!=", f.compare(&g, 3)) != same);
    // Entries.
    let pick = |other: bool| -> ME {
        if m.e.is_empty() || other && chance(1, 3) {
            entry(mo, width)
        } else {
            m.e[draw(m.e.len() as u32) as usize].clone()
        }
    };
    let a = pick(true);
    let mut c = pick(true);
    if chance(1, 2) {
        c = a.clone();
        let v = Some(["", "x", "y"][draw(3) as usize].to_string());
        match draw(9) {
            0 => {}
            1 => c.id.push('z'),
            2 => c.tr = v,
            3 => c.ctx = v,
            4 => c.pl = v,
            5 => c.trs.push("t".into()),
            6 => c.obs = !c.obs,
            7 => c.flags.push("z".into()),
            _ => c.occ.push(("f".into(), "1".into())),
        }
    }
    let (pa, pc) = (ok("entry", make(md, &a, mo)), ok("entry", make(md, &c, mo)));
    let fields: &[&str] = if mo { &["msgid", "msgstr", "msgctxt", "msgid_plural", "msgstr_plural"] } else { &["msgid", "msgstr", "msgctxt", "obsolete", "msgid_plural", "msgstr_plural", "occurrences", "flags"] };
    let chosen: Vec<(String, bool)> = fields.iter().map(|k| (k.to_string(), chance(1, 2))).collect();
    let opt = EntryCmpByOptions::from(&chosen);
    let all = EntryCmpByOptions::default();
    let (full, part) = if mo { (a.to_mo().cmp_by(&c.to_mo(), &all), a.to_mo().cmp_by(&c.to_mo(), &opt)) } else { (a.to_po().cmp_by(&c.to_po(), &all), a.to_po().cmp_by(&c.to_po(), &opt)) };
    for (op, want) in [full.is_lt(), full.is_le(), full.is_eq(), full.is_ne(), full.is_gt(), full.is_ge()].into_iter().enumerate() {
        agree("comparison of entries", ok("comparison", pa.compare(&pc, op as i32)) == want);
    }
    let kw: Vec<(&str, Py)> = chosen.iter().filter(|x| !x.1 || chance(1, 2)).map(|x| (x.0.as_str(), py::boolean(x.1))).collect();
    agree("cmp_by", ok("cmp_by", pa.call_kw("cmp_by", vec![pc.clone()], &kw).and_then(|x| x.int())) == part as i64);
    agree("__cmp__", ok("__cmp__", pa.call("__cmp__", vec![pc.clone()]).and_then(|x| x.int())) == full as i64);
    let t = |n: &str, v: Vec<Py>| ok(n, pa.call(n, v).and_then(|x| x.text()));
    let k = draw(150) as usize;
    let (tr, key, s, sk) = if mo {
        let e = a.to_mo();
        (e.translated(), e.msgid_eot_msgctxt(), e.to_string(), e.to_string_with_wrapwidth(k))
    } else {
        let e = a.to_po();
        agree("fuzzy", ok("fuzzy", pa.get("fuzzy").and_then(|x| x.truth())) == e.fuzzy());
        (e.translated(), e.msgid_eot_msgctxt(), e.to_string(), e.to_string_with_wrapwidth(k))
    };
    agree("translated", ok("translated", pa.call("translated", vec![]).and_then(|x| x.truth())) == tr);
    agree("msgid_eot_msgctxt", t("msgid_eot_msgctxt", vec![]) == key);
    agree("str() of an entry", ok("str", pa.str()) == s);
    agree("to_string_with_wrapwidth", t("to_string_with_wrapwidth", vec![py::int(k)]) == sk);
    // Merging an entry replaces it by the other.
    ok("merge", pa.call("merge", vec![pc.clone()]));
    agree("merge", ok("entry", me(&pa, mo)) == ok("entry", me(&pc, mo)));
    let x = a.tr.clone().unwrap_or_default();
    let esc = rspolib::escaping::escape(&x).to_string();
    agree("escape", ok("escape", md.call("escape", vec![py::text(&x)]).and_then(|x| x.text())) == esc);
    agree("unescape", ok("unescape", md.call("unescape", vec![py::text(&esc)]).and_then(|x| x.text())) == x);
    match md.call("unescape", vec![py::text("a\\")]) {
        Err(e) if e.class == "rspolib.EscapingError" => {}
        _ => agree("unescape of a lone backslash", false),
    }
}

fn session(path: &str, mut left: u32, mut disk: Option<MC>, mut t: Tally, mo: bool, width: usize) -> (u32, Option<MC>, Tally) {
    let md = py::module();
    let (f, mut m) = match &disk {
        Some(x) => {
            w().draw_soft(false);
            t.reopen += 1;
            let f = match open(&md, path, mo, width) {
                Ok(f) => f,
                Err(e) => bad("reopened", format!("the catalogue last saved cannot be reopened: {}", e)),
            };
            let g = ok("reading the catalogue", state(&f, mo));
            eval();
            let mut y = g.canon();
            if mo {
                y.e = y.e.iter().map(|e| e.mo_part()).collect();
                y.sort_keys();
            }
            if let Some(d) = diff(&y, x, width) {
                bad("reopened", format!("the reopened catalogue is not the one last saved: {}", d));
            }
            (f, g)
        }
        None => (build(&md, &MC::default(), mo, width), MC::default()),
    };
    w().clear_faults();
    while left > 0 {
        left -= 1;
        t.ops += 1;
        let what;
        match w().tape.weighted(&[6, 4, 3, 2, 2, 4, 2, 4, 2, 2, 2, 2, 3]) {
            0 => {
                let e = entry(mo, width);
                if m.e.len() >= 10 || m.e.iter().any(|x| x.key() == e.key()) {
                    continue;
                }
                ok("append", make(&md, &e, mo).and_then(|x| f.call("append", vec![x])));
                m.e.push(e);
                what = "append";
            }
            1 => {
                // Entries are handed out as copies.
                if m.e.is_empty() {
                    continue;
                }
                let i = draw(m.e.len() as u32) as usize;
                let es = ok("get_entries", f.call("get_entries", vec![]).and_then(|x| x.items()));
                let e = &mut m.e[i];
                let x = &es[i];
                let r = match draw(if mo { 1 } else { 4 }) {
                    0 => {
                        let v = ["", "x", "new\ntext "][draw(3) as usize].to_string();
                        if e.pl.is_none() {
                            e.tr = Some(v.clone());
                            x.set("msgstr", py::text(&v))
                        } else {
                            e.trs[0] = v;
                            x.set("msgstr_plural", py::texts(&e.trs))
                        }
                    }
                    1 => {
                        e.flags = if e.is_fuzzy() { vec![] } else { vec!["fuzzy".to_string(), "c-format".into()] };
                        x.set("flags", py::texts(&e.flags))
                    }
                    2 => {
                        e.obs = !e.obs;
                        x.set("obsolete", py::boolean(e.obs))
                    }
                    _ => {
                        e.tcom = Some("ed".into());
                        x.set("tcomment", py::text("ed"))
                    }
                };
                ok("setting a field", r);
                ok("setting the entries", f.set("entries", py::list(es)));
                what = "an edit";
            }
            2 => {
                if m.e.is_empty() {
                    continue;
                }
                let i = draw(m.e.len() as u32) as usize;
                let e = m.e[i].clone();
                w().note(|| format!("=> remove {}", brief(&e.id)), 5);
                let alone = m.e.iter().filter(|x| x.id == e.id).count() == 1;
                let r = match draw(3) {
                    1 if alone => f.call("remove_by_msgid", vec![py::text(&e.id)]),
                    2 if e.ctx.as_deref().is_some_and(|c| !c.is_empty()) => f.call("remove_by_msgid_msgctxt", vec![py::text(&e.id), py::opt(&e.ctx)]),
                    _ => f.item(i).and_then(|x| f.call("remove", vec![x])),
                };
                ok("removal", r);
                m.e.remove(i);
                what = "removing an entry";
            }
            3 => {
                ok("removal", f.call("remove_by_msgid", vec![py::text("no such id")]));
                ok("removal", f.call("remove_by_msgid_msgctxt", vec![py::text("a"), py::text("no such context")]));
                what = "removing an absent entry";
            }
            4 => {
                let k = ["Language", "X-A", "Project-Id-Version", "X-10"][draw(4) as usize].to_string();
                let v = ["de", "1", "v 中"][draw(3) as usize].to_string();
                let r = match draw(3) {
                    0 => {
                        m.meta.retain(|x| x.0 != k);
                        m.meta.push((k.clone(), v.clone()));
                        f.call("update_metadata", vec![py::dict(&[(&k, py::text(&v))])]).map(|_| ())
                    }
                    1 => {
                        m.meta.retain(|x| x.0 != k);
                        f.call("remove_metadata_field", vec![py::text(&k)]).map(|_| ())
                    }
                    _ => {
                        m.meta = vec![(k.clone(), v.clone())];
                        f.set("metadata", py::dict(&[(&k, py::text(&v))]))
                    }
                };
                ok("changing metadata", r);
                what = "changing metadata";
            }
            5 => {
                lookups(&md, &f, &m, mo);
                what = "looking up";
            }
            6 => {
                if mo {
                    continue;
                }
                if chance(1, 2) {
                    m.header = [Some("Head".to_string()), Some("Two\nlines".into()), None][draw(3) as usize].clone();
                    ok("setting the header", f.set("header", py::opt(&m.header)));
                } else {
                    m.fuzzy = !m.fuzzy;
                    ok("setting the fuzzy mark", f.set("metadata_is_fuzzy", py::boolean(m.fuzzy)));
                }
                what = "changing the header";
            }
            7 => {
                w().clear_faults();
                let mode = w().tape.weighted(&[4, 2, 2]);
                w().draw_soft(false);
                match mode {
                    1 => w().draw_hard(&[Op::Create, Op::Write], 2),
                    2 => w().draw_crash(6),
                    _ => {}
                }
                let how = if chance(1, 2) { "save" } else if mo { "save_as_mofile" } else { "save_as_pofile" };
                let r = call_save(&f, how, path);
                let hard = w().f.hard_fired;
                if w().crashed_once {
                    t.crashes += 1;
                    w().crashed_once = false;
                    return (left, None, t);
                }
                w().crash_in = None;
                w().clear_faults();
                match r {
                    Ok(()) => {
                        t.saves += 1;
                        disk = Some(if mo { m.mo_all() } else { m.reopened() });
                    }
                    Err(e) => {
                        if hard == 0 {
                            bad("refused", format!("a save on healthy storage raised {}", e));
                        }
                        t.failed += 1;
                        disk = None;
                    }
                }
                what = "a save";
            }
            8 => {
                if let Err(e) = call_save(&f, "save", path) {
                    bad("refused", format!("a save on healthy storage raised {}", e));
                }
                t.saves += 1;
                verify(&f, &m, mo, width, "a save");
                return (left, Some(if mo { m.mo_all() } else { m.reopened() }), t);
            }
            9 => {
                w().note(|| "=> process ends without saving".into(), 8);
                return (left, disk, t);
            }
            10 => {
                // To the other format and back.
                if m.e.iter().any(|e| e.id.contains('\0')) {
                    continue;
                }
                let (how, p) = if mo { ("save_as_pofile", "/sim/c.po") } else { ("save_as_mofile", "/sim/c.mo") };
                ok("conversion", call_save(&f, how, p));
                let g = ok("opening the conversion", open(&md, p, !mo, width));
                let mut y = ok("reading the conversion", state(&g, !mo)).canon();
                eval();
                let want = if mo { m.reopened() } else { m.mo_messages() };
                if !mo {
                    y.e = y.e.iter().map(|e| e.mo_part()).collect();
                    y.sort_keys();
                }
                if let Some(d) = diff(&y, &want, width) {
                    bad("conversion", format!("{} and reopening gives another catalogue: {}", how, d));
                }
                what = "a conversion";
            }
            12 => {
                derived(&md, &f, &m, mo, width);
                what = "asking for derived values";
            }
            _ => {
                // An open that fails while this catalogue is in memory.
                w().fs.put("/sim/o.po", b"msgid \"a\"\nmsgstr \"b\"\n");
                w().fs.put("/sim/o.mo", &encode_mo(&MC::default(), false, 0, 0));
                w().draw_hard(&[Op::Open, Op::Read, Op::Seek], 2);
                let other = chance(1, 2);
                if let Err(e) = open(&md, if other { "/sim/o.mo" } else { "/sim/o.po" }, other, 78) {
                    if w().f.hard_fired == 0 {
                        bad("refused", format!("an open without storage errors raised {}", e));
                    }
                    expect_class(&e, other);
                }
                w().clear_faults();
                what = "opening another file";
            }
        }
        verify(&f, &m, mo, width, what);
    }
    (0, disk, t)
}
