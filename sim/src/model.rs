//! Catalogues as plain data, conversion to and from rspolib, comparison.
use crate::sim::{hash_bytes, mix};
use rspolib::{MOEntry, MOFile, POEntry, POFile};
use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Debug, Default)]
pub struct ME {
    pub ctx: Option<String>,
    pub id: String,
    pub tr: Option<String>,
    pub pl: Option<String>,
    pub trs: Vec<String>,
    pub obs: bool,
    pub com: Option<String>,
    pub tcom: Option<String>,
    pub occ: Vec<(String, String)>,
    pub flags: Vec<String>,
    pub pctx: Option<String>,
    pub pid: Option<String>,
    pub ppl: Option<String>,
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct MC {
    pub header: Option<String>,
    pub meta: Vec<(String, String)>,
    pub fuzzy: bool,
    pub e: Vec<ME>,
}

fn some(o: &Option<String>) -> Option<String> {
    o.clone().filter(|x| !x.is_empty())
}

impl ME {
    pub fn key(&self) -> (Option<String>, String) {
        (self.ctx.clone(), self.id.clone())
    }
    pub fn is_fuzzy(&self) -> bool {
        self.flags.iter().any(|f| f == "fuzzy")
    }
    pub fn translated(&self) -> bool {
        if self.obs || self.is_fuzzy() {
            return false;
        }
        match &self.tr {
            Some(t) => !t.is_empty(),
            None => !self.trs.is_empty() && self.trs.iter().all(|t| !t.is_empty()),
        }
    }
    pub fn to_po(&self) -> POEntry {
        let mut e = POEntry::new(0);
        e.msgid = self.id.clone();
        e.msgctxt = self.ctx.clone();
        e.msgstr = self.tr.clone();
        e.msgid_plural = self.pl.clone();
        e.msgstr_plural = self.trs.clone();
        e.obsolete = self.obs;
        e.comment = self.com.clone();
        e.tcomment = self.tcom.clone();
        e.occurrences = self.occ.clone();
        e.flags = self.flags.clone();
        e.previous_msgctxt = self.pctx.clone();
        e.previous_msgid = self.pid.clone();
        e.previous_msgid_plural = self.ppl.clone();
        e
    }
    pub fn to_mo(&self) -> MOEntry {
        MOEntry::new(self.id.clone(), self.tr.clone(), self.pl.clone(), self.trs.clone(), self.ctx.clone())
    }
    pub fn of_po(e: &POEntry) -> ME {
        ME {
            ctx: e.msgctxt.clone(),
            id: e.msgid.clone(),
            tr: e.msgstr.clone(),
            pl: e.msgid_plural.clone(),
            trs: e.msgstr_plural.clone(),
            obs: e.obsolete,
            com: e.comment.clone(),
            tcom: e.tcomment.clone(),
            occ: e.occurrences.clone(),
            flags: e.flags.clone(),
            pctx: e.previous_msgctxt.clone(),
            pid: e.previous_msgid.clone(),
            ppl: e.previous_msgid_plural.clone(),
        }
    }
    pub fn of_mo(e: &MOEntry) -> ME {
        let plural = e.msgid_plural.is_some();
        ME {
            ctx: e.msgctxt.clone(),
            id: e.msgid.clone(),
            tr: if plural { None } else { e.msgstr.clone() },
            pl: e.msgid_plural.clone(),
            trs: if plural { e.msgstr_plural.clone() } else { vec![] },
            ..Default::default()
        }
    }
    /// Only what MO keeps, an absent translation counting as an empty one.
    pub fn mo_part(&self) -> ME {
        ME {
            ctx: self.ctx.clone(),
            id: self.id.clone(),
            tr: if self.pl.is_some() { None } else { Some(self.tr.clone().unwrap_or_default()) },
            pl: self.pl.clone(),
            trs: if self.pl.is_some() { self.trs.clone() } else { vec![] },
            ..Default::default()
        }
    }
    /// What is equal for a reader: absent and empty comments, absent and empty
    /// translation of a message without plural.
    pub fn canon(&self) -> ME {
        let mut m = self.clone();
        m.com = some(&self.com);
        m.tcom = some(&self.tcom);
        if m.trs.is_empty() {
            m.tr = Some(m.tr.unwrap_or_default());
        }
        m
    }
}

impl MC {
    pub fn to_po(&self) -> POFile {
        let mut f = POFile::new("".into());
        self.fill_po(&mut f);
        f
    }
    pub fn fill_po(&self, f: &mut POFile) {
        f.header = self.header.clone();
        for (k, v) in &self.meta {
            f.metadata.insert(k.clone(), v.clone());
        }
        f.metadata_is_fuzzy = self.fuzzy;
        f.entries = self.e.iter().map(|e| e.to_po()).collect();
    }
    pub fn to_mo(&self) -> MOFile {
        let mut f = MOFile::new("".into());
        for (k, v) in &self.meta {
            f.metadata.insert(k.clone(), v.clone());
        }
        f.entries = self.e.iter().map(|e| e.to_mo()).collect();
        f
    }
    pub fn of_po(f: &POFile) -> MC {
        let meta: BTreeMap<_, _> = f.metadata.iter().collect();
        MC {
            header: f.header.clone(),
            meta: meta.into_iter().map(|(a, b)| (a.clone(), b.clone())).collect(),
            fuzzy: f.metadata_is_fuzzy,
            e: f.entries.iter().map(ME::of_po).collect(),
        }
    }
    pub fn of_mo(f: &MOFile) -> MC {
        let meta: BTreeMap<_, _> = f.metadata.iter().collect();
        MC {
            header: None,
            meta: meta.into_iter().map(|(a, b)| (a.clone(), b.clone())).collect(),
            fuzzy: false,
            e: f.entries.iter().map(ME::of_mo).collect(),
        }
    }
    /// The catalogue a reader of the saved PO file must see.
    pub fn reopened(&self) -> MC {
        let mut m = self.clone();
        m.header = some(&m.header);
        m.meta.sort();
        let (a, b): (Vec<ME>, Vec<ME>) = self.e.iter().map(|x| x.canon()).partition(|x| !x.obs);
        m.e = a;
        for mut x in b {
            x.occ.clear();
            x.pctx = None;
            x.pid = None;
            x.ppl = None;
            m.e.push(x);
        }
        m
    }
    pub fn canon(&self) -> MC {
        let mut m = self.clone();
        m.header = some(&m.header);
        m.meta.sort();
        m.e = self.e.iter().map(|x| x.canon()).collect();
        m
    }
    /// The messages an MO file made of this PO catalogue must hold.
    pub fn mo_messages(&self) -> MC {
        let mut m = MC { header: None, meta: self.meta.clone(), fuzzy: false, e: vec![] };
        m.meta.sort();
        m.e = self.e.iter().filter(|x| x.translated()).map(|x| x.mo_part()).collect();
        m.sort_keys();
        m
    }
    /// The messages an MO catalogue built by hand holds.
    pub fn mo_all(&self) -> MC {
        let mut m = MC { header: None, meta: self.meta.clone(), fuzzy: false, e: vec![] };
        m.meta.sort();
        m.e = self.e.iter().map(|x| x.mo_part()).collect();
        m.sort_keys();
        m
    }
    pub fn sort_keys(&mut self) {
        self.e.sort_by(|a, b| mo_key(a).cmp(&mo_key(b)));
    }
    pub fn hash(&self) -> u64 {
        hash_bytes(format!("{:?}", self).as_bytes())
    }
    pub fn brief(&self) -> String {
        format!("{} entries, {} metadata fields", self.e.len(), self.meta.len())
    }
}
pub fn mo_key(e: &ME) -> String {
    match &e.ctx {
        Some(c) => format!("{}\u{4}{}", c, e.id),
        None => e.id.clone(),
    }
}
#[allow(dead_code)]
pub fn mix2(a: u64, b: u64) -> u64 {
    mix(a ^ mix(b))
}

pub fn brief(s: &str) -> String {
    let t: String = s.chars().take(80).collect();
    if t.len() < s.len() {
        format!("{:?}...({} bytes)", t, s.len())
    } else {
        format!("{:?}", t)
    }
}
fn bo(s: &Option<String>) -> String {
    match s {
        None => "None".into(),
        Some(x) => brief(x),
    }
}
fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
/// Comments wider than the wrap width may be re-broken; anything surely
/// narrower must be unchanged.
fn comment_eq(got: &Option<String>, want: &Option<String>, width: usize) -> bool {
    if got == want {
        return true;
    }
    let (g, x) = match (got, want) {
        (Some(g), Some(x)) => (g, x),
        _ => return false,
    };
    let narrow = x.lines().all(|l| 2 * l.chars().count() + 3 <= width);
    !narrow && squeeze(g) == squeeze(x)
}
fn first_diff<T: PartialEq + std::fmt::Debug>(what: &str, g: &[T], x: &[T]) -> Option<String> {
    if g == x {
        return None;
    }
    let i = g.iter().zip(x).position(|(a, b)| a != b).unwrap_or(g.len().min(x.len()));
    let f = |v: Option<&T>| v.map_or("nothing".to_string(), |v| brief(&format!("{:?}", v)));
    Some(format!("{}: {} instead of {} items, item {} is {} instead of {}", what, g.len(), x.len(), i, f(g.get(i)), f(x.get(i))))
}
pub fn diff_entry(g: &ME, x: &ME, width: usize) -> Option<String> {
    macro_rules! f {
        ($n:literal, $a:ident) => {
            if g.$a != x.$a {
                return Some(format!("{} is {} instead of {}", $n, bo(&g.$a), bo(&x.$a)));
            }
        };
    }
    if g.id != x.id {
        return Some(format!("msgid is {} instead of {}", brief(&g.id), brief(&x.id)));
    }
    f!("msgctxt", ctx);
    f!("msgid_plural", pl);
    f!("msgstr", tr);
    f!("previous msgctxt", pctx);
    f!("previous msgid", pid);
    f!("previous msgid_plural", ppl);
    if let Some(d) = first_diff("plural translations", &g.trs, &x.trs) {
        return Some(d);
    }
    if g.obs != x.obs {
        return Some(format!("obsolete is {} instead of {}", g.obs, x.obs));
    }
    if let Some(d) = first_diff("occurrences", &g.occ, &x.occ) {
        return Some(d);
    }
    if let Some(d) = first_diff("flags", &g.flags, &x.flags) {
        return Some(d);
    }
    if !comment_eq(&g.com, &x.com, width) {
        return Some(format!("extracted comment is {} instead of {}", bo(&g.com), bo(&x.com)));
    }
    if !comment_eq(&g.tcom, &x.tcom, width) {
        return Some(format!("translator comment is {} instead of {}", bo(&g.tcom), bo(&x.tcom)));
    }
    None
}
/// `g` must already be in canonical form, like `x`.
pub fn diff(g: &MC, x: &MC, width: usize) -> Option<String> {
    if g.header != x.header {
        return Some(format!("header is {} instead of {}", bo(&g.header), bo(&x.header)));
    }
    if let Some(d) = first_diff("metadata", &g.meta, &x.meta) {
        return Some(d);
    }
    if g.fuzzy != x.fuzzy {
        return Some(format!("metadata fuzzy mark is {} instead of {}", g.fuzzy, x.fuzzy));
    }
    for (i, (a, b)) in g.e.iter().zip(&x.e).enumerate() {
        if let Some(d) = diff_entry(a, b, width) {
            return Some(format!("entry {} of {}: {}", i, x.e.len(), d));
        }
    }
    if g.e.len() != x.e.len() {
        return Some(format!("{} entries instead of {}", g.e.len(), x.e.len()));
    }
    None
}

// ---- independent MO decoder, from the GNU description of the format ----
pub struct MoRaw {
    pub big: bool,
    pub rev: u32,
    pub pairs: Vec<(Vec<u8>, Vec<u8>)>,
}
pub fn decode_mo(b: &[u8]) -> Result<MoRaw, String> {
    if b.len() < 28 {
        return Err(format!("file of {} bytes is shorter than a header", b.len()));
    }
    let big = match b[..4] {
        [0xde, 0x12, 0x04, 0x95] => false,
        [0x95, 0x04, 0x12, 0xde] => true,
        _ => return Err("wrong magic number".into()),
    };
    let u = |o: usize| -> Result<usize, String> {
        let x: [u8; 4] = b.get(o..o + 4).ok_or("table outside the file")?.try_into().unwrap();
        Ok(if big { u32::from_be_bytes(x) } else { u32::from_le_bytes(x) } as usize)
    };
    let (rev, n, ko, vo, hs, ho) = (u(4)?, u(8)?, u(12)?, u(16)?, u(20)?, u(24)?);
    if hs != 0 && ho + 4 * hs > b.len() {
        return Err("hash table outside the file".into());
    }
    if n > b.len() / 16 {
        return Err(format!("{} strings do not fit in {} bytes", n, b.len()));
    }
    let mut pairs: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
    for i in 0..n {
        let mut kv = [Vec::new(), Vec::new()];
        for (j, t) in [ko, vo].iter().enumerate() {
            let (l, o) = (u(t + 8 * i)?, u(t + 8 * i + 4)?);
            let s = b.get(o..o + l).ok_or(format!("string {} outside the file", i))?;
            if b.get(o + l) != Some(&0) {
                return Err(format!("string {} is not terminated by NUL", i));
            }
            kv[j] = s.to_vec();
        }
        let [k, v] = kv;
        if let Some((p, _)) = pairs.last() {
            if cstr(p) >= cstr(&k) {
                return Err(format!("keys {} and {} are not in ascending order", i - 1, i));
            }
        }
        pairs.push((k, v));
    }
    Ok(MoRaw { big, rev: rev as u32, pairs })
}
fn cstr(b: &[u8]) -> &[u8] {
    b.split(|c| *c == 0).next().unwrap()
}
/// Key and value the format prescribes for a message.
pub fn encode_pair(e: &ME) -> (Vec<u8>, Vec<u8>) {
    let mut k = mo_key(e).into_bytes();
    let v = match &e.pl {
        Some(p) => {
            k.push(0);
            k.extend_from_slice(p.as_bytes());
            e.trs.join("\0").into_bytes()
        }
        None => e.tr.clone().unwrap_or_default().into_bytes(),
    };
    (k, v)
}
