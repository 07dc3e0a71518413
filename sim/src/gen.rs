//! Generators: every choice comes from the tape, 0 is the simplest.
use crate::model::{MC, ME};
use crate::sim::tape::Tape;
use std::collections::BTreeSet;

pub struct G<'a> {
    pub t: &'a mut Tape,
    /// Texts without NUL and EOT.
    pub mo: bool,
}

const WORDS: &[&str] = &[
    "a", "file", "Open", "x", "Save", "the", "message", "%d", "%s", "internationalization", "http://example.org/path?a=b",
    "msgid", "C:\\dir\\file", "50%", "e-mail", "--option", "foo/bar", "(see", "below)", "{name}", "$HOME", "<b>", "&amp;", "TRANSLATORS:", "xgettext:no-c-format", "%1$s", "translator-credits", "fuzzy",
    "donaudampfschifffahrtselektrizitaetenhauptbetriebswerkbauunterbeamtengesellschaft",
];
const UNI: &[char] = &[
    'é', 'ß', 'ñ', 'Ж', 'я', '中', '文', '日', 'ﾊ', '한', '😀', '\u{301}', '\u{200b}', '\u{a0}', '\u{2028}', '\u{2029}', '\u{85}',
    '\u{feff}', '\u{200d}', '\u{202e}', 'ا', 'ب', '𝒳', '\u{10ffff}', '\u{3000}', '“', '…', '—', '\u{ad}', '\u{2060}', '\u{fffd}',
];
const CTRL: &[char] = &['\t', '\r', '\\', '"', '\u{8}', '\u{b}', '\u{c}', '\u{11}', '\u{12}', '\u{7f}', '\u{1}', '\u{1b}', '\u{7}', '\0', '\u{4}'];
const SYNTAX: &[&str] = &[
    "msgid \"", "msgstr \"x\"", "#~ ", "#: a:1", "#, fuzzy", "#| msgid", "msgstr[0]", "\"", "\\\"", "\\", "\\\\", "\\n", "\\x", "# ", "#. ", "##",
    "Key: value", ": ", "\n\n", "\"\n\"", "[0]",
];

/// Values as the gettext tools write them, templates among them.
const VALUES: &[&str] = &[
    "nplurals=2; plural=(n != 1);", "nplurals=INTEGER; plural=EXPRESSION;", "YEAR-MO-DA HO:MI+ZONE", "PACKAGE VERSION", "FULL NAME <EMAIL@ADDRESS>",
    "LANGUAGE <LL@li.org>", "text/plain; charset=CHARSET", "text/plain; charset=UTF-8", "text/plain; charset=iso-8859-1", "8bit", "1.0", "2013-02-28 12:30+0100",
    "Poedit 3.0", "de", "none", "Yes", "",
];

const HUGE: u32 = 40;

impl<'a> G<'a> {
    pub fn new(t: &'a mut Tape) -> G<'a> {
        G { t, mo: false }
    }
    fn keep(&self, c: char) -> bool {
        !(self.mo && (c == '\0' || c == '\u{4}'))
    }
    fn count(&mut self, max: u32) -> u32 {
        let scale = [2u32, 4, max / 2 + 1, max + 1][self.t.draw(4) as usize].min(max + 1);
        self.t.draw(scale)
    }
    fn piece(&mut self, out: &mut String) {
        let start = out.len();
        match self.t.weighted(&[8, 8, 3, 3, 3, 3, 2, 2]) {
            0 => {
                let i = self.t.draw(WORDS.len() as u32) as usize;
                out.push_str(WORDS[i]);
            }
            1 => {
                let i = self.t.draw(WORDS.len() as u32) as usize;
                out.push(' ');
                out.push_str(WORDS[i]);
            }
            2 => out.push('\n'),
            3 => {
                let i = self.t.draw(CTRL.len() as u32) as usize;
                if self.keep(CTRL[i]) {
                    out.push(CTRL[i]);
                }
            }
            4 => {
                for _ in 0..1 + self.t.draw(4) {
                    let i = self.t.draw(UNI.len() as u32) as usize;
                    out.push(UNI[i]);
                }
            }
            5 => {
                let i = self.t.draw(SYNTAX.len() as u32) as usize;
                out.push_str(SYNTAX[i]);
            }
            6 => {
                // A run of one character, sized around the wrap width.
                let c = [' ', 'a', '\\', '"', '中', '\n', '-', '\t', 'é'][self.t.draw(9) as usize];
                let n = 1 + self.t.draw(90);
                for _ in 0..n {
                    out.push(c);
                }
            }
            _ => {
                let v = self.t.draw(0x3000);
                if let Some(c) = char::from_u32(v) {
                    if self.keep(c) {
                        out.push(c);
                    }
                }
            }
        }
        let _ = start;
    }
    pub fn text(&mut self) -> String {
        let mut s = String::new();
        match self.t.weighted(&[10, 6, 4, 1]) {
            0 => {
                let i = self.t.draw(WORDS.len() as u32) as usize;
                s.push_str(WORDS[i]);
            }
            1 => {
                for _ in 0..self.count(8) {
                    self.piece(&mut s);
                }
            }
            2 => {
                for _ in 0..self.count(40) {
                    self.piece(&mut s);
                }
            }
            _ => {
                // Longer than the buffers below, with a drawn phase.
                let unit = ["word ", "é", "中文 ", "a\\b ", "x\n", "\"q\" ", "unbroken", "\\"][self.t.draw(8) as usize];
                // Rarely beyond 16-bit lengths.
                let size = if self.t.chance(1, 40) { 60_000 + self.t.draw(90_000) } else { 4000 + self.t.draw(6000) };
                let n = size as usize / unit.len();
                let pad = self.t.draw(8);
                for _ in 0..pad {
                    s.push('p');
                }
                for _ in 0..n {
                    s.push_str(unit);
                }
            }
        }
        s
    }
    fn line(&mut self, max: u32) -> String {
        let mut s = String::new();
        for _ in 0..1 + self.count(max) {
            self.piece(&mut s);
        }
        let s: String = s.chars().map(|c| if c == '\n' || c == '\r' { ' ' } else { c }).collect();
        s.trim_end().to_string()
    }
    /// Lines without trailing blanks; blank ones only inside.
    pub fn comment(&mut self, blank_inside: bool) -> String {
        let n = 1 + self.count(4);
        let mut ls: Vec<String> = Vec::new();
        for _ in 0..n {
            ls.push(self.line(8));
        }
        if !blank_inside {
            ls.retain(|l| !l.is_empty());
        }
        while ls.last().map_or(false, |l| l.is_empty()) {
            ls.pop();
        }
        if ls.is_empty() {
            ls.push("note".into());
        }
        ls.join("\n")
    }
    pub fn header(&mut self) -> Option<String> {
        if !self.t.chance(1, 2) {
            return None;
        }
        let mut h = self.comment(true);
        while h.lines().next().map_or(false, |l| l.is_empty()) {
            h = h.split_once('\n').map(|x| x.1.to_string()).unwrap_or_default();
        }
        Some(h).filter(|h| !h.is_empty())
    }
    pub fn meta(&mut self) -> Vec<(String, String)> {
        const KEYS: &[&str] = &[
            "Project-Id-Version", "Language", "Content-Type", "Plural-Forms", "X-Generator", "X-Poedit-Basepath", "X-1", "X-01", "X-10", "X-2",
            "X-A B", "X-AB", "X- A", "x-ab", "Last-Translator", "Report-Msgid-Bugs-To", "POT-Creation-Date", "Language-Team", "MIME-Version", "Content-Transfer-Encoding", "PO-Revision-Date", "X-é", "X-\u{3000}Y",
        ];
        let n = self.count(14);
        let mut out: Vec<(String, String)> = Vec::new();
        for _ in 0..n {
            let k = if self.t.chance(1, 5) {
                let l = self.line(2);
                l.chars().filter(|c| *c != ':' && self.keep(*c)).collect::<String>().trim().to_string()
            } else {
                KEYS[self.t.draw(KEYS.len() as u32) as usize].to_string()
            };
            if k.is_empty() || out.iter().any(|(x, _)| *x == k) {
                continue;
            }
            let v = match self.t.draw(4) {
                0 => "1.0".to_string(),
                1 => "text/plain; charset=UTF-8".to_string(),
                2 => VALUES[self.t.draw(VALUES.len() as u32) as usize].to_string(),
                _ => self.line(5).trim().to_string(),
            };
            out.push((k, v));
        }
        out
    }
    fn word_of(&mut self, bad: fn(char) -> bool, dflt: &str) -> String {
        let s = self.line(2);
        let s: String = s.chars().filter(|c| !bad(*c) && self.keep(*c)).collect();
        let s = s.trim().to_string();
        if s.is_empty() {
            dflt.into()
        } else {
            s
        }
    }
    pub fn occurrence(&mut self) -> (String, String) {
        let f = match self.t.draw(4) {
            0 => "src/main.c".to_string(),
            1 => format!("lib/{}.rs", "deep/".repeat(self.t.draw(12) as usize)),
            2 => self.word_of(|c| c == ':' || c.is_whitespace(), "f"),
            _ => "a".repeat(1 + self.t.draw(90) as usize),
        };
        let l = match self.t.draw(4) {
            0 => self.t.draw(2000).to_string(),
            1 => String::new(),
            2 => "90817263544536271809"[..self.t.draw(20) as usize].to_string(),
            _ => format!("{:04}", self.t.draw(100)),
        };
        (f, l)
    }
    pub fn flag(&mut self) -> String {
        match self.t.weighted(&[4, 2, 2, 1, 1]) {
            0 => "fuzzy".into(),
            1 => "c-format".into(),
            2 => "no-wrap".into(),
            3 => ["python-brace-format", "no-c-format", "range: 0..10", "Fuzzy", "possible-c-format", "nofuzzy"][self.t.draw(6) as usize].into(),
            _ => self.word_of(|c| c == ',', "f"),
        }
    }
    fn opt(&mut self, num: u32, den: u32, f: impl FnOnce(&mut Self) -> String) -> Option<String> {
        if self.t.chance(num, den) {
            Some(f(self))
        } else {
            None
        }
    }
    pub fn entry(&mut self, plain: bool) -> ME {
        let mut e = ME { id: self.text(), ..Default::default() };
        if e.id.is_empty() {
            e.id = "id".into();
        }
        if self.t.chance(1, 40) {
            e.id = [" ", "\n", "\t", "  ", "\u{a0}", "\n\n"][self.t.draw(6) as usize].into();
        }
        e.ctx = self.opt(1, 4, |g| g.text());
        if e.ctx.is_some() && self.t.chance(1, 8) {
            e.id = String::new();
        }
        if self.t.chance(1, 4) {
            e.pl = Some(self.text());
            let n = 1 + if self.t.chance(1, 12) { self.t.draw(24) } else { self.t.draw(4) };
            for _ in 0..n {
                let s = if self.t.chance(1, 8) { String::new() } else { self.text() };
                e.trs.push(s);
            }
        } else {
            e.tr = match self.t.draw(8) {
                7 => None,
                6 => Some(String::new()),
                _ => Some(self.text()),
            };
        }
        if plain {
            return e;
        }
        e.obs = self.t.chance(1, 8);
        e.com = self.opt(1, 4, |g| g.comment(false));
        e.tcom = self.opt(1, 4, |g| g.comment(true));
        if self.t.chance(1, 3) {
            for _ in 0..1 + self.count(10) {
                let o = self.occurrence();
                e.occ.push(o);
            }
        }
        if self.t.chance(1, 4) {
            for _ in 0..1 + self.count(3) {
                let f = self.flag();
                e.flags.push(f);
            }
        }
        if self.t.chance(1, 6) {
            e.pctx = self.opt(1, 2, |g| g.text());
            e.pid = self.opt(1, 2, |g| g.text());
            e.ppl = self.opt(1, 2, |g| g.text());
        }
        e
    }
    pub fn catalogue(&mut self, max: u32) -> MC {
        let mut m = MC { header: self.header(), meta: self.meta(), fuzzy: self.t.chance(1, 5), e: vec![] };
        let n = self.count(max);
        for _ in 0..n {
            let mut e = self.entry(false);
            self.relate(&mut e, &m);
            m.e.push(e);
        }
        if max > 4 {
            self.many(&mut m, max >= 8);
        }
        distinct(&mut m);
        m
    }
    /// Sometimes texts much like those of another message or field.
    fn relate(&mut self, e: &mut ME, m: &MC) {
        if !m.e.is_empty() && self.t.chance(1, 5) {
            let o = &m.e[self.t.draw(m.e.len() as u32) as usize];
            match self.t.draw(7) {
                0 => e.id = o.id.clone(),
                1 => {
                    e.id = o.id.clone();
                    e.ctx = None;
                }
                2 => {
                    e.ctx = Some(o.ctx.clone().unwrap_or_else(|| o.id.clone()));
                }
                3 => e.id = format!("{}{}", o.id, [" ", "\n", "x", "\t", "0"][self.t.draw(5) as usize]),
                4 => e.id = format!("{}{}", [" ", "\n", "X", "_"][self.t.draw(4) as usize], o.id),
                5 => e.id = if self.t.chance(1, 2) { o.id.to_uppercase() } else { o.id.to_lowercase() },
                _ => {
                    let n = o.id.chars().count() / 2;
                    e.id = o.id.chars().take(n).collect();
                }
            }
            if e.id.is_empty() && e.ctx.is_none() {
                e.id = "id".into();
            }
        }
        if self.t.chance(1, 12) {
            match self.t.draw(4) {
                0 if e.pl.is_none() => e.tr = Some(e.id.clone()),
                1 if e.pl.is_some() => e.pl = Some(e.id.clone()),
                2 if e.pl.is_some() => {
                    let x = e.trs[0].clone();
                    e.trs.iter_mut().for_each(|t| *t = x.clone());
                }
                _ => e.ctx = Some(if e.id.is_empty() { "ctx".into() } else { e.id.clone() }),
            }
        }
    }
    /// Rarely more messages than fit an 8-bit count, very rarely more lines
    /// or messages than fit a 16-bit one.
    fn many(&mut self, m: &mut MC, huge: bool) {
        if !self.t.chance(1, 100) {
            return;
        }
        let n = if huge && self.t.chance(1, HUGE) { 22_000 + self.t.draw(2) * 43_500 + self.t.draw(2000) } else { 240 + self.t.draw(300) };
        let with_ctx = self.t.chance(1, 3);
        for i in 0..n {
            let ctx = if with_ctx && i % 3 == 0 { Some(format!("c{}", i % 7)) } else { None };
            m.e.push(ME { id: format!("k{}", i), ctx, tr: Some(format!("v {}", i)), ..Default::default() });
        }
    }
    /// A catalogue to be put into an MO file directly.
    pub fn mo_catalogue(&mut self, max: u32) -> MC {
        self.mo = true;
        let mut m = MC { header: None, meta: self.meta(), fuzzy: false, e: vec![] };
        let n = self.count(max);
        for _ in 0..n {
            let mut e = self.entry(true);
            self.relate(&mut e, &m);
            m.e.push(e);
        }
        if max > 4 {
            self.many(&mut m, max >= 8);
        }
        distinct(&mut m);
        m
    }
}
/// Make the pairs of context and id distinct.
pub fn distinct(m: &mut MC) {
    let mut seen = BTreeSet::new();
    for (i, e) in m.e.iter_mut().enumerate() {
        while !seen.insert(e.key()) {
            e.id.push_str(&format!("_{}", i));
        }
    }
}

/// Rewrite PO text the way other writers would have stored it.
pub fn foreign(t: &mut Tape, s: &str) -> Vec<u8> {
    let mut out: Vec<String> = Vec::new();
    let indent = t.chance(1, 4);
    let blank = t.chance(1, 4);
    for l in s.lines() {
        let mut l = l.to_string();
        if indent && t.chance(1, 4) {
            l = format!("{}{}{}", ["  ", "\t", " \t "][t.draw(3) as usize], l, ["", " ", "\t"][t.draw(3) as usize]);
        }
        if blank && t.chance(1, 4) {
            out.push(["", "   ", "\t"][t.draw(3) as usize].into());
        }
        out.push(l);
    }
    let nl = if t.chance(1, 3) { "\r\n" } else { "\n" };
    let mut r = out.join(nl);
    if !t.chance(1, 3) {
        r.push_str(nl);
    }
    if t.chance(1, 4) {
        r.insert(0, '\u{feff}');
    }
    r.into_bytes()
}
