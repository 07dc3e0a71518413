//! PO text as the format describes it: a strict reader and a free writer,
//! both independent of rspolib.
use crate::model::{MC, ME};
use crate::sim::tape::Tape;

// ---------------------------------------------------------------- reader

/// A stored PO file as another program understands it.
pub struct Read {
    pub m: MC,
    /// Order of the metadata fields in the file.
    pub meta_keys: Vec<String>,
    /// Contents of the strings, line by line, as they stand in the file.
    pub pieces: Vec<Vec<String>>,
    /// Lines listing occurrences.
    pub occ_lines: Vec<Vec<String>>,
    /// Lines of comments of messages.
    pub comment_lines: Vec<String>,
}
#[derive(Default)]
struct Block {
    first: usize,
    e: ME,
    tcom: Vec<String>,
    com: Vec<String>,
    has_id: bool,
    has_str: bool,
    stage: u32,
    obs: Option<bool>,
}
fn unquote(s: &str, n: usize, vf: [char; 2]) -> Result<(String, String), String> {
    let b = s.strip_prefix('"').and_then(|x| x.strip_suffix('"')).filter(|_| s.len() >= 2).ok_or(format!("line {}: string without quotes: {:?}", n, s))?;
    let mut out = String::new();
    let mut it = b.chars().peekable();
    while let Some(c) = it.next() {
        if c == '"' {
            return Err(format!("line {}: unescaped quote inside a string", n));
        }
        if c != '\\' {
            out.push(c);
            continue;
        }
        out.push(match it.next() {
            Some('n') => '\n',
            Some('t') => '\t',
            Some('r') => '\r',
            Some('b') => '\u{8}',
            Some('v') => vf[0],
            Some('f') => vf[1],
            Some('a') => '\u{7}',
            Some('"') => '"',
            Some('\\') => '\\',
            c => return Err(format!("line {}: unknown escape {:?}", n, c)),
        });
    }
    Ok((out, b.to_string()))
}
fn comment_rest<'a>(l: &'a str, mark: &str, n: usize) -> Result<&'a str, String> {
    let r = &l[mark.len()..];
    if r.is_empty() {
        return Ok(r);
    }
    r.strip_prefix(' ').ok_or(format!("line {}: no blank after {}", n, mark))
}
/// Positions of the fields of an entry, in the order the format asks for.
const FIELDS: [&str; 4] = ["msgctxt", "msgid", "msgid_plural", "msgstr"];

/// Characters that `\v` and `\f` stand for.
pub const VF: [char; 2] = ['\u{b}', '\u{c}'];
/// What rspolib takes them for (recorded finding).
pub const VF_FOUND: [char; 2] = ['\u{11}', '\u{12}'];

pub fn read(bytes: &[u8], vf: [char; 2]) -> Result<Read, String> {
    let text = std::str::from_utf8(bytes).map_err(|e| format!("not UTF-8: {}", e))?;
    let body = text.strip_suffix('\n').ok_or("the last line is not terminated")?;
    let mut r = Read { m: MC::default(), meta_keys: vec![], pieces: vec![], occ_lines: vec![], comment_lines: vec![] };
    let lines: Vec<&str> = body.split('\n').collect();
    let mut blocks: Vec<Block> = Vec::new();
    let mut cur: Option<Block> = None;
    // Field the next continuation line belongs to: prefix, name, index.
    let mut open: Option<(String, String, usize)> = None;
    for (i, l) in lines.iter().enumerate() {
        let n = i + 1;
        if l.is_empty() {
            blocks.extend(cur.take());
            open = None;
            continue;
        }
        let b = cur.get_or_insert_with(|| Block { first: n, ..Default::default() });
        let (prefix, rest) = if let Some(x) = l.strip_prefix("#~| ") {
            ("#~| ", x)
        } else if let Some(x) = l.strip_prefix("#~ ") {
            ("#~ ", x)
        } else if let Some(x) = l.strip_prefix("#| ") {
            ("#| ", x)
        } else {
            ("", *l)
        };
        if prefix.is_empty() && l.starts_with('#') {
            open = None;
            if b.stage > 0 {
                return Err(format!("line {}: comment inside an entry", n));
            }
            if l.starts_with("#,") {
                b.e.flags.extend(comment_rest(l, "#,", n)?.split(',').map(|x| x.trim().to_string()));
            } else if l.starts_with("#:") {
                let os: Vec<String> = comment_rest(l, "#:", n)?.split_whitespace().map(|x| x.to_string()).collect();
                for o in &os {
                    b.e.occ.push(match o.rsplit_once(':') {
                        Some((f, d)) if !d.is_empty() && d.chars().all(|c| c.is_ascii_digit()) => (f.to_string(), d.to_string()),
                        _ => (o.clone(), String::new()),
                    });
                }
                r.occ_lines.push(os);
            } else if l.starts_with("#.") {
                let c = comment_rest(l, "#.", n)?;
                b.com.push(c.to_string());
                r.comment_lines.push(c.to_string());
            } else {
                let c = comment_rest(l, "#", n)?;
                b.tcom.push(c.to_string());
                if !blocks.is_empty() {
                    r.comment_lines.push(c.to_string());
                }
            }
            continue;
        }
        if rest.starts_with('"') {
            let (p, name, idx) = open.clone().ok_or(format!("line {}: continuation of nothing", n))?;
            if p != prefix {
                return Err(format!("line {}: continuation with another prefix", n));
            }
            let (s, raw) = unquote(rest, n, vf)?;
            r.pieces.last_mut().unwrap().push(raw);
            let e = &mut b.e;
            let t: &mut String = match (p.ends_with("| "), name.as_str()) {
                (true, "msgctxt") => e.pctx.as_mut().unwrap(),
                (true, "msgid") => e.pid.as_mut().unwrap(),
                (true, _) => e.ppl.as_mut().unwrap(),
                (_, "msgctxt") => e.ctx.as_mut().unwrap(),
                (_, "msgid") => &mut e.id,
                (_, "msgid_plural") => e.pl.as_mut().unwrap(),
                _ if e.pl.is_some() => &mut e.trs[idx],
                _ => e.tr.as_mut().unwrap(),
            };
            t.push_str(&s);
            continue;
        }
        let (kw, val) = rest.split_once(' ').ok_or(format!("line {}: neither comment nor field: {:?}", n, l))?;
        let (s, raw) = unquote(val, n, vf)?;
        r.pieces.push(vec![raw]);
        let prev = prefix.ends_with("| ");
        let (name, idx) = match kw.strip_prefix("msgstr[").and_then(|x| x.strip_suffix(']')) {
            Some(d) => ("msgstr", Some(d.parse::<usize>().map_err(|_| format!("line {}: bad index", n))?)),
            None => (kw, None),
        };
        let at = FIELDS.iter().position(|f| *f == name).ok_or(format!("line {}: unknown keyword {:?}", n, kw))? as u32;
        let stage = if prev { 1 + at } else { 10 + at };
        if stage < b.stage || (stage == b.stage && idx.is_none()) || (prev && at == 3) {
            return Err(format!("line {}: {} out of order", n, kw));
        }
        b.stage = stage;
        let o = prefix.starts_with("#~");
        if b.obs.map_or(false, |x| x != o) {
            return Err(format!("line {}: entry obsolete in part", n));
        }
        b.obs = Some(o);
        let e = &mut b.e;
        match (prev, name, idx) {
            (true, "msgctxt", _) => e.pctx = Some(s),
            (true, "msgid", _) => e.pid = Some(s),
            (true, _, _) => e.ppl = Some(s),
            (_, "msgctxt", _) => e.ctx = Some(s),
            (_, "msgid", _) => {
                e.id = s;
                b.has_id = true;
            }
            (_, "msgid_plural", _) => e.pl = Some(s),
            (_, _, None) => {
                if e.pl.is_some() {
                    return Err(format!("line {}: translation of a plural message without index", n));
                }
                e.tr = Some(s);
                b.has_str = true;
            }
            (_, _, Some(k)) => {
                if e.pl.is_none() || k != e.trs.len() {
                    return Err(format!("line {}: plural index {} out of order", n, k));
                }
                e.trs.push(s);
                b.has_str = true;
            }
        }
        open = Some((prefix.to_string(), name.to_string(), idx.unwrap_or(0)));
    }
    blocks.extend(cur.take());
    for (i, b) in blocks.into_iter().enumerate() {
        if !b.has_id || !b.has_str {
            return Err(format!("line {}: entry without msgid or msgstr", b.first));
        }
        let mut e = b.e;
        e.obs = b.obs == Some(true);
        e.com = Some(b.com.join("\n")).filter(|_| !b.com.is_empty());
        if i == 0 {
            if !e.id.is_empty() || e.ctx.is_some() || e.obs {
                return Err("the first entry is not the header entry".into());
            }
            r.m.header = Some(b.tcom.join("\n")).filter(|x| !x.is_empty());
            r.m.fuzzy = e.is_fuzzy();
            for l in e.tr.clone().unwrap_or_default().split('\n').filter(|l| !l.is_empty()) {
                let (k, v) = l.split_once(':').ok_or(format!("metadata line without colon: {:?}", l))?;
                r.m.meta.push((k.to_string(), v.trim().to_string()));
                r.meta_keys.push(k.to_string());
            }
            continue;
        }
        e.tcom = Some(b.tcom.join("\n")).filter(|_| !b.tcom.is_empty());
        r.m.e.push(e);
    }
    Ok(r)
}

// ---------------------------------------------------------------- writer

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Role {
    Blank,
    Comment,
    /// A line `keyword "string"`.
    Key,
    /// A continuation line.
    Cont,
}
#[derive(Clone, Debug)]
pub struct Line {
    pub role: Role,
    /// Everything before the quote, without indentation.
    pub head: String,
    /// The string without quotes, still escaped.
    pub body: String,
    pub indent: String,
    pub tail: String,
    /// Number of the entry, `usize::MAX` outside of entries.
    pub entry: usize,
}
impl Line {
    pub fn text(&self) -> String {
        match self.role {
            Role::Blank => self.indent.clone(),
            Role::Comment => self.head.clone(),
            _ => format!("{}{}\"{}\"{}", self.indent, self.head, self.body, self.tail),
        }
    }
}
pub struct Style {
    order: u32,
    split: u32,
    raw: bool,
    blanks: bool,
    indent: bool,
    sep: u32,
    many: bool,
    shuffle: bool,
    mix: bool,
}
pub struct Writer<'a> {
    t: &'a mut Tape,
    s: Style,
    pub lines: Vec<Line>,
    entry: usize,
}
fn unit(c: char, raw: bool) -> String {
    match c {
        '"' => "\\\"".into(),
        '\\' => "\\\\".into(),
        '\n' => "\\n".into(),
        '\r' => "\\r".into(),
        '\t' if !raw => "\\t".into(),
        '\u{8}' if !raw => "\\b".into(),
        '\u{b}' if !raw => "\\v".into(),
        '\u{c}' if !raw => "\\f".into(),
        c => c.to_string(),
    }
}
impl<'a> Writer<'a> {
    /// Whether control characters are written as they are.
    pub fn raw(&self) -> bool {
        self.s.raw
    }
    pub fn new(t: &'a mut Tape) -> Writer<'a> {
        let s = Style {
            order: t.draw(3),
            split: t.draw(5),
            raw: t.chance(1, 3),
            blanks: t.chance(1, 4),
            indent: t.chance(1, 4),
            sep: t.draw(4),
            many: t.chance(1, 2),
            shuffle: t.chance(1, 6),
            mix: t.chance(1, 6),
        };
        Writer { t, s, lines: vec![], entry: usize::MAX }
    }
    fn comment(&mut self, head: String) {
        let entry = self.entry;
        self.lines.push(Line { role: Role::Comment, head, body: String::new(), indent: String::new(), tail: String::new(), entry });
    }
    fn blank(&mut self) {
        let indent = if self.s.indent { ["", " ", "\t"][self.t.draw(3) as usize] } else { "" };
        self.lines.push(Line { role: Role::Blank, head: String::new(), body: String::new(), indent: indent.into(), tail: String::new(), entry: usize::MAX });
    }
    fn put(&mut self, role: Role, head: String, body: String) {
        if self.s.blanks && self.t.chance(1, 8) && role == Role::Key && self.lines.last().map_or(false, |l| l.role != Role::Comment) {
            self.blank();
        }
        let (indent, tail) = if self.s.indent && !head.starts_with('#') && self.t.chance(1, 3) {
            (["  ", "\t", " "][self.t.draw(3) as usize], ["", " ", "\t"][self.t.draw(3) as usize])
        } else {
            ("", "")
        };
        let entry = self.entry;
        self.lines.push(Line { role, head, body, indent: indent.into(), tail: tail.into(), entry });
    }
    fn field(&mut self, prefix: &str, kw: &str, text: &str) {
        let sep = match self.s.sep {
            1 => "  ",
            2 => "\t",
            _ => " ",
        };
        let units: Vec<String> = text.chars().map(|c| unit(c, self.s.raw)).collect();
        let mut parts: Vec<String> = vec![String::new()];
        match self.s.split {
            0 => parts[0] = units.concat(),
            1 | 2 => {
                // After each line of the text; 2 starts with an empty string.
                if self.s.split == 2 && units.iter().any(|u| u == "\\n") {
                    parts.push(String::new());
                }
                for (i, u) in units.iter().enumerate() {
                    parts.last_mut().unwrap().push_str(u);
                    if u == "\\n" && i + 1 < units.len() {
                        parts.push(String::new());
                    }
                }
            }
            3 => {
                // At a fixed width.
                let wd = 1 + self.t.draw(80) as usize;
                for (i, u) in units.iter().enumerate() {
                    if i > 0 && i % wd == 0 && i / wd < 200 {
                        parts.push(String::new());
                    }
                    parts.last_mut().unwrap().push_str(u);
                }
            }
            _ => {
                // Anywhere, with empty strings.
                for (i, u) in units.iter().enumerate() {
                    if i < 60 && self.t.chance(1, 6) {
                        parts.push(String::new());
                    }
                    parts.last_mut().unwrap().push_str(u);
                }
            }
        }
        for (i, p) in parts.into_iter().enumerate() {
            if i == 0 {
                self.put(Role::Key, format!("{}{}{}", prefix, kw, sep), p);
            } else {
                self.put(Role::Cont, prefix.to_string(), p);
            }
        }
    }
    fn comments(&mut self, e: &ME) {
        let from = self.lines.len();
        let mut ends = vec![];
        let mut kinds = [0, 1, 2, 3];
        if self.s.order == 1 {
            kinds = [3, 2, 1, 0];
        } else if self.s.order == 2 {
            for i in (1..4).rev() {
                kinds.swap(i, self.t.draw(i as u32 + 1) as usize);
            }
        }
        for k in kinds {
            match k {
                0 => {
                    for l in e.tcom.iter().flat_map(|c| c.split('\n')) {
                        self.comment(if l.is_empty() { "#".into() } else { format!("# {}", l) });
                    }
                }
                1 => {
                    for l in e.com.iter().flat_map(|c| c.split('\n')) {
                        self.comment(format!("#. {}", l));
                    }
                }
                2 => {
                    let mut line: Vec<String> = vec![];
                    for (i, (f, n)) in e.occ.iter().enumerate() {
                        line.push(if n.is_empty() { f.clone() } else { format!("{}:{}", f, n) });
                        if !self.s.many || i + 1 == e.occ.len() || self.t.chance(1, 3) {
                            let sep = [" ", " ", "  "][self.s.sep as usize % 3];
                            self.comment(format!("#: {}", line.join(sep)));
                            line.clear();
                        }
                    }
                }
                _ => {
                    if self.s.many {
                        let sep = [", ", ",", " , "][self.s.sep as usize % 3];
                        if !e.flags.is_empty() {
                            self.comment(format!("#, {}", e.flags.join(sep)));
                        }
                    } else {
                        for f in &e.flags {
                            self.comment(format!("#, {}", f));
                        }
                    }
                }
            }
            ends.push(self.lines.len() - from);
        }
        if self.s.mix {
            // The kinds in between each other, each in its own order.
            let mut rest: Vec<Vec<Line>> = vec![];
            for i in (0..ends.len()).rev() {
                let start = from + if i == 0 { 0 } else { ends[i - 1] };
                rest.push(self.lines.drain(start..).collect());
            }
            rest.retain(|r| !r.is_empty());
            while !rest.is_empty() {
                let i = self.t.draw(rest.len() as u32) as usize;
                let l = rest[i].remove(0);
                self.lines.push(l);
                rest.retain(|r| !r.is_empty());
            }
        }
    }
    fn entry(&mut self, e: &ME) {
        self.comments(e);
        let o = if e.obs { "#~ " } else { "" };
        let p = if e.obs { "#~| " } else { "#| " };
        for (kw, v) in [("msgctxt", &e.pctx), ("msgid", &e.pid), ("msgid_plural", &e.ppl)] {
            if let Some(v) = v {
                self.field(p, kw, v);
            }
        }
        if let Some(c) = &e.ctx {
            self.field(o, "msgctxt", c);
        }
        self.field(o, "msgid", &e.id);
        match &e.pl {
            Some(pl) => {
                self.field(o, "msgid_plural", pl);
                let mut order: Vec<usize> = (0..e.trs.len()).collect();
                if self.s.shuffle {
                    for i in (1..order.len()).rev() {
                        order.swap(i, self.t.draw(i as u32 + 1) as usize);
                    }
                }
                for i in order {
                    self.field(o, &format!("msgstr[{}]", i), &e.trs[i]);
                }
            }
            None => self.field(o, "msgstr", e.tr.as_deref().unwrap_or("")),
        }
    }
    pub fn catalogue(&mut self, m: &MC, head: bool) {
        for l in m.header.iter().flat_map(|h| h.split('\n')) {
            self.comment(if l.is_empty() { "#".into() } else { format!("# {}", l) });
        }
        if m.fuzzy {
            self.comment("#, fuzzy".into());
        }
        let colon = [": ", ": ", ":", ":  "][self.t.draw(4) as usize];
        let meta: Vec<String> = m.meta.iter().map(|(k, v)| format!("{}{}{}\n", k, colon, v)).collect();
        if head {
            self.field("", "msgid", "");
            self.field("", "msgstr", &meta.concat());
        }
        for (i, e) in m.e.iter().enumerate() {
            self.entry = usize::MAX;
            for _ in 0..[1, 1, 2, 0][self.t.draw(4) as usize] {
                self.blank();
            }
            self.entry = i;
            self.entry(e);
        }
        self.entry = usize::MAX;
    }
    /// A remark at the end of the file that belongs to no message.
    pub fn remark(&mut self) {
        self.blank();
        self.comment("# end of file".into());
    }
}
