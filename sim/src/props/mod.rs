//! One scenario per property.
use crate::api::*;
use crate::engine::{violation, Scenario};
use crate::gen::G;
use crate::model::*;
use crate::sim::w;

mod crash;
mod damage;
mod format;
mod history;
#[cfg(feature = "py")]
mod py;
mod reads;
mod roundtrip;
mod saves;
mod threads;

macro_rules! sc {
    ($id:literal, $f:path, $q:expr, $t:expr, $lvl:literal, $rule:literal) => {
        Scenario { id: $id, run: $f, quick: $q, thorough: $t, level: $lvl, rule: $rule, assumptions: ASSUME }
    };
}
const ASSUME: &[&str] = &[
    "the simulated storage answers as POSIX files do; its answers are limited to the fault kinds listed",
    "texts, sizes and histories stay within the bounds given in DESIGN.md",
];

pub fn all() -> Vec<Scenario> {
    vec![
        sc!("P01", saves::p01, 200_000, 2_400_000, "exploration", "a save during which at least one storage fault was injected"),
        sc!("P02", roundtrip::p02, 150_000, 1_800_000, "exploration", "a non-empty catalogue saved and reopened with partial or interrupted calls, a width other than the default, or more than one cycle"),
        sc!("P03", roundtrip::p03, 200_000, 2_400_000, "exploration", "a catalogue with at least one message stored as MO and decoded independently"),
        sc!("P04", reads::p04, 150_000, 1_800_000, "exploration", "an open of a stored PO file during which at least one storage fault was injected, or of bytes that are not UTF-8"),
        sc!("P05", reads::p05, 200_000, 2_400_000, "exploration", "an open of a stored MO file during which at least one storage fault was injected"),
        sc!("P06", crash::p06, 150_000, 1_800_000, "exploration", "a save of a PO file in which the process died"),
        sc!("P07", crash::p07, 200_000, 2_400_000, "exploration", "a save of a MO file in which the process died"),
        sc!("P08", damage::p08, 200_000, 2_400_000, "exploration", "an open of a file changed by power loss or damage"),
        sc!("P09", roundtrip::p09, 60_000, 720_000, "exploration", "a catalogue with at least two metadata fields rendered under different hash seeds or insertion orders"),
        sc!("P10", threads::p10, 70_000, 840_000, "exploration", "an execution with at least one preemption"),
        sc!("P11", saves::p11, 150_000, 1_800_000, "exploration", "a history with at least one injected storage fault or one save"),
        sc!("P12", history::p12, 150_000, 1_800_000, "exploration", "a history with at least one save and reopening, failed save or crash"),
        sc!("P13", reads::p13, 150_000, 1_800_000, "exploration", "a content read in at least two forms, the path form with partial or interrupted reads"),
        sc!("P14", saves::p14, 100_000, 1_200_000, "exploration", "a storm in which at least one operation failed"),
        #[cfg(feature = "py")]
        sc!("P15", py::p15, 150_000, 1_800_000, "exploration", "a call into the Python module during which a storage fault was injected, or a history of calls compared with the list of messages"),
        sc!("P20", format::p20, 150_000, 1_800_000, "exploration", "a file made by the independent writer, well-formed or with one error put in, opened by path"),
        sc!("P21", format::p21, 150_000, 1_800_000, "exploration", "a non-empty catalogue saved as PO and read by the independent reader"),
        sc!("P22", threads::p22, 60_000, 720_000, "exploration", "an open that overlapped a save of the same path"),
    ]
}

fn draw(n: u32) -> u32 {
    w().tape.draw(n)
}
fn chance(a: u32, b: u32) -> bool {
    w().tape.chance(a, b)
}
fn gen_po(max: u32, mo_safe: bool) -> MC {
    let mut g = G::new(&mut w().tape);
    g.mo = mo_safe;
    g.catalogue(max)
}
fn gen_mo(max: u32) -> MC {
    G::new(&mut w().tape).mo_catalogue(max)
}
/// Render with library code that must not fail.
fn must<R>(what: &str, f: impl FnOnce() -> R) -> R {
    match lib(f) {
        Ok(r) => r,
        Err(p) => violation("panic", &format!("{} panicked: {}", what, p)),
    }
}
fn render(m: &MC) -> String {
    must("rendering a PO catalogue", || m.to_po().to_string())
}
/// MO bytes as another program could have written them.
fn encode_mo(m: &MC, big: bool, rev: u32, style: u32) -> Vec<u8> {
    let mut ps: Vec<(Vec<u8>, Vec<u8>)> = m.e.iter().map(encode_pair).collect();
    let meta: Vec<String> = m.meta.iter().map(|(k, v)| format!("{}: {}\n", k, v)).collect();
    // style bit 4: no header entry where there is nothing to put into it
    if style & 16 == 0 || !m.meta.is_empty() {
        ps.push((vec![], meta.concat().into_bytes()));
    }
    ps.sort_by(|a, b| a.0.split(|c| *c == 0).next().cmp(&b.0.split(|c| *c == 0).next()));
    let n = ps.len();
    let u = |x: usize| if big { (x as u32).to_be_bytes() } else { (x as u32).to_le_bytes() };
    // style bit 0: hash table, bit 1: values table first, bit 2: strings interleaved, bit 3: gap after the header
    let gap = if style & 8 != 0 { 20 } else { 0 };
    let hs = if style & 1 != 0 { n + 3 } else { 0 };
    let t1 = 28 + gap;
    let t2 = t1 + 8 * n;
    let (ko, vo) = if style & 2 != 0 { (t2, t1) } else { (t1, t2) };
    let ho = t2 + 8 * n;
    let data = ho + 4 * hs;
    let mut pool = Vec::new();
    let mut kt = vec![(0, 0); n];
    let mut vt = vec![(0, 0); n];
    let mut seen: std::collections::BTreeMap<Vec<u8>, usize> = Default::default();
    let mut add = |s: &[u8]| {
        // style bit 5: equal strings are stored once
        if style & 32 != 0 {
            if let Some(o) = seen.get(s) {
                return (s.len(), *o);
            }
        }
        let o = data + pool.len();
        seen.insert(s.to_vec(), o);
        pool.extend_from_slice(s);
        pool.push(0);
        (s.len(), o)
    };
    if style & 4 != 0 {
        for (i, (k, v)) in ps.iter().enumerate() {
            vt[i] = add(v);
            kt[i] = add(k);
        }
    } else {
        for (i, (k, _)) in ps.iter().enumerate() {
            kt[i] = add(k);
        }
        for (i, (_, v)) in ps.iter().enumerate() {
            vt[i] = add(v);
        }
    }
    let mut out = Vec::new();
    for x in [0x950412de, rev as usize, n, ko, vo, hs, ho] {
        out.extend_from_slice(&u(x));
    }
    out.resize(28 + gap, 0);
    let tables = if style & 2 != 0 { [&vt, &kt] } else { [&kt, &vt] };
    for t in tables {
        for (l, o) in t {
            out.extend_from_slice(&u(*l));
            out.extend_from_slice(&u(*o));
        }
    }
    for i in 0..hs {
        out.extend_from_slice(&u(i % (n + 1)));
    }
    out.extend_from_slice(&pool);
    out
}

const NAMES: &[&str] = &[
    "with space.po", " lead.po", "trail.po ", "ünï—中.po", "a%20b.po", "C:x.po", "#1.po", "-x", "msgid", "msgid \"a\"", "noext", "X.PO", "a.b.c.mo",
    "x.po~", ".hidden", "~x.po", "two\nlines.po", "tab\t.po", "\\back.po", "$HOME.po", "*.po", "[1].mo", "x.mo", "x.po", "...", "\u{feff}.po",
];
/// A path to one file, mostly a plain one.
pub fn a_path(name: &str) -> &'static str {
    let p = match w().tape.weighted(&[24, 3, 2, 3, 2, 1]) {
        0 => format!("/sim/{}", name),
        1 => name.to_string(),
        2 => format!("{}x/../{}", "./".repeat(draw(600) as usize), name),
        3 => {
            let n = NAMES[draw(NAMES.len() as u32) as usize];
            // Not a path that is content as well.
            let dir = ["/sim/", "//sim//", ""][draw(if n.starts_with(['#', 'm']) { 2 } else { 3 }) as usize];
            format!("{}{}", dir, n)
        }
        4 => {
            // Deep, up to the limits of a path.
            let mut p = "/sim".to_string();
            let part = "d".repeat(1 + draw(60) as usize);
            for _ in 0..1 + draw(40) {
                p = format!("{}/{}", p, part);
                w().fs.add_dir(&p);
            }
            format!("{}/{}", p, name)
        }
        _ => format!("/sim/{}.{}", "n".repeat(1 + draw(180) as usize), name),
    };
    Box::leak(p.into_boxed_str())
}
