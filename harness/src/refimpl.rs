//! Independent, deliberately plain models of what the crate documents.

use crate::gen::{is_name_char, is_name_start, Cfg};
use sgmlish::SgmlEvent;

pub type Ev = SgmlEvent<'static>;

pub fn is_ws(c: char) -> bool {
    c == ' ' || c == '\t' || c == '\r' || c == '\n'
}

pub fn trim(s: &str) -> &str {
    s.trim_matches(is_ws)
}

pub fn is_blank(s: &str) -> bool {
    s.chars().all(is_ws)
}

pub fn norm_name(n: &str, mode: u8) -> String {
    match mode {
        1 => n.to_lowercase(),
        2 => n.to_uppercase(),
        _ => n.to_owned(),
    }
}

// ---------------------------------------------------------------- references

#[derive(Debug, PartialEq, Clone)]
pub struct Undefined {
    pub name: String,
    pub start: usize,
    pub end: usize,
}

/// Position after the longest name starting at `i`, if any.
fn name_end(cs: &[(usize, char)], i: usize) -> Option<usize> {
    if i < cs.len() && is_name_start(cs[i].1) {
        let mut j = i + 1;
        while j < cs.len() && is_name_char(cs[j].1) {
            j += 1;
        }
        Some(j)
    } else {
        None
    }
}

pub fn expand(
    text: &str,
    delim: char,
    chars: bool,
    lookup: &mut dyn FnMut(&str) -> Option<String>,
) -> Result<String, Undefined> {
    let cs: Vec<(usize, char)> = text.char_indices().collect();
    let at = |i: usize| cs.get(i).map_or(text.len(), |x| x.0);
    let ch = |i: usize| cs.get(i).map(|x| x.1);
    let mut out = String::new();
    let mut i = 0;
    while i < cs.len() {
        if cs[i].1 != delim {
            out.push(cs[i].1);
            i += 1;
            continue;
        }
        // What follows the delimiter: a resolved character, or the name to look up, and its end
        let mut found: Option<(Option<char>, usize)> = None;
        if chars && ch(i + 1) == Some('#') {
            let mut j = i + 2;
            while ch(j).map_or(false, |c| c.is_ascii_digit()) {
                j += 1;
            }
            if j > i + 2 {
                let digits = &text[at(i + 2)..at(j)];
                let v = digits.trim_start_matches('0');
                let code = if v.is_empty() {
                    Some(0)
                } else if v.len() > 9 {
                    None
                } else {
                    v.parse::<u32>().ok()
                };
                found = Some((code.and_then(char::from_u32), j));
            } else if ch(i + 2) == Some('x') {
                let mut j = i + 3;
                while ch(j).map_or(false, is_name_char) {
                    j += 1;
                }
                if j > i + 3 {
                    let hex = &text[at(i + 3)..at(j)];
                    let code = if hex.chars().all(|c| c.is_ascii_hexdigit()) {
                        let v = hex.trim_start_matches('0');
                        if v.len() > 8 {
                            None
                        } else {
                            let mut n = 0u64;
                            for c in v.chars() {
                                n = n * 16 + c.to_digit(16).unwrap() as u64;
                            }
                            u32::try_from(n).ok()
                        }
                    } else {
                        None
                    };
                    found = Some((code.and_then(char::from_u32), j));
                }
            }
            if found.is_none() {
                if let Some(j) = name_end(&cs, i + 2) {
                    found = Some((None, j));
                }
            }
        } else if let Some(j) = name_end(&cs, i + 1) {
            found = Some((None, j));
        } else if ch(i + 1) == Some('#') {
            // `%#name` names a function just as `&#name` does
            if let Some(j) = name_end(&cs, i + 2) {
                found = Some((None, j));
            }
        }
        match found {
            None => {
                out.push(delim);
                i += 1;
            }
            Some((c, j)) => {
                let end = if ch(j) == Some(';') { j + 1 } else { j };
                match c {
                    Some(c) => out.push(c),
                    None => {
                        let name = &text[at(i + 1)..at(j)];
                        match lookup(name) {
                            Some(v) => out.push_str(&v),
                            None => {
                                return Err(Undefined {
                                    name: name.to_owned(),
                                    start: at(i),
                                    end: at(end),
                                })
                            }
                        }
                    }
                }
                i = end;
            }
        }
    }
    Ok(out)
}

pub fn expand_text(text: &str, cfg: &Cfg) -> Result<String, Undefined> {
    expand(text, '&', true, &mut |n| cfg.ent(n))
}
pub fn expand_keywords(text: &str, cfg: &Cfg) -> Result<String, Undefined> {
    expand(text, '%', false, &mut |n| cfg.pent(n))
}

// ---------------------------------------------------------------- keywords

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Status {
    Include,
    RcData,
    CData,
    Ignore,
}

fn keyword(k: &str) -> Option<Status> {
    match k.to_ascii_uppercase().as_str() {
        "CDATA" => Some(Status::CData),
        "RCDATA" => Some(Status::RcData),
        "IGNORE" => Some(Status::Ignore),
        "INCLUDE" | "TEMP" => Some(Status::Include),
        _ => None,
    }
}

/// The resulting status, or the first unknown keyword.
pub fn status(expanded: &str) -> Result<Status, String> {
    let mut st = Status::Include;
    for k in expanded.split(|c: char| is_ws(c) || c == '\u{c}') {
        if k.is_empty() {
            continue;
        }
        match keyword(k) {
            Some(s) => {
                if s > st {
                    st = s;
                }
            }
            None => return Err(k.to_owned()),
        }
    }
    Ok(st)
}

pub fn status_for(expanded: &str, ms: u8) -> Result<Status, String> {
    if ms == 0 {
        match keyword(expanded) {
            Some(s @ (Status::CData | Status::RcData)) => Ok(s),
            _ => Err(expanded.to_owned()),
        }
    } else {
        status(expanded)
    }
}

// ---------------------------------------------------------------- parser

#[derive(Debug, PartialEq, Clone)]
pub enum Why {
    Syntax,
    Undefined(String),
    Keyword,
}
#[derive(Debug, PartialEq, Clone)]
pub struct PErr {
    pub pos: usize,
    pub end: usize,
    pub why: Why,
}

struct P<'a> {
    s: &'a str,
    i: usize,
    cfg: &'a Cfg,
    out: Vec<Ev>,
    /// Collect the byte range each text or value was read from
    depth: usize,
    /// Position and number of events after the last complete item
    done: (usize, usize),
}

type PR<T> = Result<T, PErr>;

pub fn parse(s: &str, cfg: &Cfg) -> PR<Vec<Ev>> {
    let mut p = P {
        s,
        i: 0,
        cfg,
        out: vec![],
        depth: 0,
        done: (0, 0),
    };
    p.document()?;
    Ok(p.out)
}

impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn at(&self, t: &str) -> bool {
        self.rest().starts_with(t)
    }
    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn peek_at(&self, n: usize) -> Option<char> {
        self.s.get(self.i + n..).and_then(|r| r.chars().next())
    }
    fn err<T>(&self, pos: usize) -> PR<T> {
        Err(PErr {
            pos,
            end: pos,
            why: Why::Syntax,
        })
    }
    fn skip_ws(&mut self) {
        while self.peek().map_or(false, is_ws) {
            self.i += 1;
        }
    }
    fn until(&mut self, t: &str) -> PR<&'a str> {
        match self.rest().find(t) {
            Some(n) => {
                let r = &self.rest()[..n];
                self.i += n + t.len();
                Ok(r)
            }
            None => self.err(self.s.len()),
        }
    }
    fn name(&mut self) -> Option<&'a str> {
        let r = self.rest();
        let c = r.chars().next()?;
        if !is_name_start(c) {
            return None;
        }
        let n = r.find(|c| !is_name_char(c)).unwrap_or(r.len());
        self.i += n;
        Some(&r[..n])
    }
    fn at_comment(&self) -> bool {
        self.at("<!-") || self.at("<!>")
    }
    /// `<!` ( `--` ... `--` (ws `--` ... `--`)* )? `>`
    fn comment(&mut self) -> PR<()> {
        self.i += 2;
        if self.at("--") {
            self.i += 2;
            self.until("--")?;
            loop {
                let save = self.i;
                self.skip_ws();
                if self.at("--") {
                    self.i += 2;
                    self.until("--")?;
                } else {
                    self.i = save;
                    break;
                }
            }
        }
        if self.at(">") {
            self.i += 1;
            Ok(())
        } else {
            self.err(self.i)
        }
    }
    fn comments(&mut self) -> PR<()> {
        while self.at_comment() {
            self.comment()?;
        }
        Ok(())
    }
    fn comments_and_ws(&mut self) -> PR<()> {
        loop {
            self.skip_ws();
            if self.at_comment() {
                self.comment()?;
            } else {
                return Ok(());
            }
        }
    }
    fn document(&mut self) -> PR<()> {
        self.comments_and_ws()?;
        loop {
            if self.at("<!") && self.peek_at(2).map_or(false, is_name_start) {
                self.declaration()?;
            } else if self.at("<![") {
                self.section()?;
            } else if self.at("<?") {
                self.pi()?;
            } else {
                break;
            }
            self.comments_and_ws()?;
        }
        let n = self.items(false)?;
        if n == 0 {
            return self.err(self.i);
        }
        self.skip_ws();
        if self.i < self.s.len() {
            return self.err(self.i);
        }
        Ok(())
    }
    fn declaration(&mut self) -> PR<()> {
        self.i += 2;
        let keyword = self.name().unwrap().to_owned();
        self.skip_ws();
        let start = self.i;
        let mut end = self.i;
        loop {
            self.skip_ws();
            match self.peek() {
                Some('-') if self.at("--") => {
                    self.i += 2;
                    self.until("--")?;
                }
                Some('-') => self.i += 1,
                Some('"') | Some('\'') => self.quoted().map(|_| ())?,
                Some('[') => self.subset()?,
                Some('>') => break,
                Some('<') | None => return self.err(self.i),
                Some(c) => self.i += c.len_utf8(),
            }
            end = self.i;
        }
        let body = self.s[start..end].to_owned();
        self.i += 1;
        if !self.cfg.ignore_md {
            self.out.push(SgmlEvent::MarkupDeclaration {
                keyword: keyword.into(),
                body: body.into(),
            });
        }
        Ok(())
    }
    fn quoted(&mut self) -> PR<&'a str> {
        let q = if self.at("'") { "'" } else { "\"" };
        self.i += 1;
        self.until(q)
    }
    fn subset(&mut self) -> PR<()> {
        self.i += 1;
        loop {
            match self.peek() {
                Some('-') if self.at("--") => {
                    self.i += 2;
                    self.until("--")?;
                }
                Some('"') | Some('\'') => {
                    self.quoted()?;
                }
                Some('[') => self.subset()?,
                Some('<')
                    if self.at("<!") && self.peek_at(2).map_or(false, is_name_start) =>
                {
                    let (n, keep) = (self.out.len(), self.i);
                    self.declaration()?;
                    debug_assert!(self.i > keep);
                    self.out.truncate(n);
                }
                Some(']') => {
                    self.i += 1;
                    return Ok(());
                }
                Some('<') | Some('>') | Some('-') | None => return self.err(self.i),
                Some(c) => self.i += c.len_utf8(),
            }
        }
    }
    fn pi(&mut self) -> PR<()> {
        let start = self.i;
        self.i += 2;
        self.until(">")?;
        if !self.cfg.ignore_pi {
            self.out
                .push(SgmlEvent::ProcessingInstruction(self.s[start..self.i].to_owned().into()));
        }
        Ok(())
    }
    fn undefined<T>(&self, base: usize, u: Undefined) -> PR<T> {
        Err(PErr {
            pos: base + u.start,
            end: base + u.end,
            why: Why::Undefined(u.name),
        })
    }
    fn section(&mut self) -> PR<()> {
        self.i += 3;
        let start = self.i;
        let r = self.rest();
        let n = r
            .find(|c| matches!(c, '[' | ']' | '<' | '>' | '!'))
            .unwrap_or(r.len());
        self.i += n;
        if !self.at("[") {
            return self.err(self.i);
        }
        let raw = &r[..n];
        let lead = raw.len() - raw.trim_start_matches(is_ws).len();
        let raw = trim(raw);
        let kw_at = start + lead;
        self.i += 1;
        let kws = match expand_keywords(raw, self.cfg) {
            Ok(k) => k,
            Err(u) => return self.undefined(kw_at, u),
        };
        let st = match status_for(&kws, self.cfg.ms) {
            Ok(st) => st,
            Err(_) => {
                return Err(PErr {
                    pos: kw_at,
                    end: kw_at + raw.len(),
                    why: Why::Keyword,
                })
            }
        };
        self.section_body(kws, st)
    }
    fn section_body(&mut self, kws: String, st: Status) -> PR<()> {
        let body_at = self.i;
        let n_out = self.out.len();
        let body: &str = match st {
            Status::CData | Status::RcData => self.until("]]>")?,
            Status::Ignore => {
                let mut depth = 0;
                loop {
                    let r = self.rest();
                    match (r.find("<!["), r.find("]]>")) {
                        (Some(o), Some(c)) if o < c => {
                            depth += 1;
                            self.i += o + 3;
                        }
                        (_, Some(c)) => {
                            self.i += c + 3;
                            if depth == 0 {
                                break &self.s[body_at..self.i - 3];
                            }
                            depth -= 1;
                        }
                        (_, None) => return self.err(self.s.len()),
                    }
                }
            }
            Status::Include => {
                self.depth += 1;
                self.comments()?;
                self.items(true)?;
                self.depth -= 1;
                if !self.at("]]>") {
                    return self.err(self.i);
                }
                self.i += 3;
                &self.s[body_at..self.i - 3]
            }
        };
        if self.cfg.ms == 2 {
            self.out.truncate(n_out);
            self.out.push(SgmlEvent::MarkedSection {
                status_keywords: kws.into(),
                section: body.to_owned().into(),
            });
            return Ok(());
        }
        match st {
            Status::CData => self
                .out
                .push(SgmlEvent::Character(self.trimmed(body).to_owned().into())),
            Status::RcData => {
                let t = self.trimmed(body);
                let base = t.as_ptr() as usize - self.s.as_ptr() as usize;
                match expand_text(t, self.cfg) {
                    Ok(t) => self.out.push(SgmlEvent::Character(t.into())),
                    Err(u) => return self.undefined(base, u),
                }
            }
            _ => {}
        }
        Ok(())
    }
    fn trimmed<'b>(&self, t: &'b str) -> &'b str {
        if self.cfg.trim {
            trim(t)
        } else {
            t
        }
    }
    fn starts_markup(&self) -> bool {
        let r = self.rest();
        let Some(r) = r.strip_prefix('<') else {
            return false;
        };
        let first = |t: &str| t.chars().next().map_or(false, is_name_start);
        r.starts_with('?')
            || r.starts_with('>')
            || r.starts_with("/>")
            || r.starts_with("!-")
            || r.starts_with("!>")
            || r.starts_with("![")
            || first(r)
            || r.strip_prefix('!').map_or(false, first)
            || r.strip_prefix('/').map_or(false, first)
    }
    fn items(&mut self, in_section: bool) -> PR<usize> {
        self.items_up_to(in_section, usize::MAX)
    }
    fn items_up_to(&mut self, in_section: bool, most: usize) -> PR<usize> {
        let mut n = 0;
        loop {
            if n == most || self.i >= self.s.len() || (in_section && self.at("]]>")) {
                return Ok(n);
            }
            if !self.starts_markup() {
                let start = self.i;
                while self.i < self.s.len()
                    && !self.starts_markup()
                    && !(in_section && self.at("]]>"))
                {
                    self.i += self.peek().unwrap().len_utf8();
                }
                let t = self.trimmed(&self.s[start..self.i]);
                if !t.is_empty() {
                    let base = t.as_ptr() as usize - self.s.as_ptr() as usize;
                    match expand_text(t, self.cfg) {
                        Ok(t) => self.out.push(SgmlEvent::Character(t.into())),
                        Err(u) => return self.undefined(base, u),
                    }
                }
            } else if self.at("<![") {
                self.section()?;
            } else if self.at("<!") {
                if self.at_comment() {
                    // Only reached at the very start of content, which callers skip
                    self.comment()?;
                } else {
                    // A declaration inside content
                    return if in_section { Ok(n) } else { self.err(self.i) };
                }
                continue;
            } else if self.at("<?") {
                self.pi()?;
            } else if self.at("</") {
                self.i += 2;
                let name = self.name().unwrap_or("").to_owned();
                self.skip_ws_if(!name.is_empty());
                if !self.at(">") {
                    return self.err(self.i);
                }
                self.i += 1;
                self.out.push(SgmlEvent::EndTag {
                    name: norm_name(&name, self.cfg.norm).into(),
                });
            } else {
                self.start_tag()?;
            }
            n += 1;
            self.done = (self.i, self.out.len());
            if n < most {
                self.comments()?;
                self.done = (self.i, self.out.len());
            }
        }
    }
    fn skip_ws_if(&mut self, c: bool) {
        if c {
            self.skip_ws();
        }
    }
    fn start_tag(&mut self) -> PR<()> {
        self.i += 1;
        if self.at(">") {
            self.i += 1;
            self.out.push(SgmlEvent::OpenStartTag { name: "".into() });
            self.out.push(SgmlEvent::CloseStartTag);
            return Ok(());
        }
        let name = self.name().unwrap().to_owned();
        self.out.push(SgmlEvent::OpenStartTag {
            name: norm_name(&name, self.cfg.norm).into(),
        });
        loop {
            self.skip_ws();
            if self.at("/>") {
                self.i += 2;
                self.out.push(SgmlEvent::XmlCloseEmptyElement);
                return Ok(());
            }
            if self.at(">") {
                self.i += 1;
                self.out.push(SgmlEvent::CloseStartTag);
                return Ok(());
            }
            self.attribute()?;
        }
    }
    fn attribute(&mut self) -> PR<()> {
        {
            let Some(name) = self.name() else {
                return self.err(self.i);
            };
            let save = self.i;
            self.skip_ws();
            let value = if self.at("=") {
                self.i += 1;
                self.skip_ws();
                match self.peek() {
                    Some('"') | Some('\'') => {
                        let at = self.i + 1;
                        let v = self.quoted()?;
                        match expand_text(v, self.cfg) {
                            Ok(v) => Some(v),
                            Err(u) => return self.undefined(at, u),
                        }
                    }
                    _ => {
                        let r = self.rest();
                        let n = r
                            .find(|c| is_ws(c) || matches!(c, '"' | '\'' | '>'))
                            .unwrap_or(r.len());
                        if n == 0 {
                            return self.err(self.i);
                        }
                        self.i += n;
                        Some(r[..n].to_owned())
                    }
                }
            } else {
                self.i = save;
                None
            };
            self.out.push(SgmlEvent::Attribute {
                name: norm_name(name, self.cfg.norm).into(),
                value: value.map(Into::into),
            });
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- helpers over events

/// Merges adjacent text events and drops empty ones.
pub fn merge_text(evs: &[Ev]) -> Vec<Ev> {
    let mut out: Vec<Ev> = vec![];
    for e in evs {
        if let SgmlEvent::Character(t) = e {
            if t.is_empty() {
                continue;
            }
            if let Some(SgmlEvent::Character(p)) = out.last_mut() {
                p.to_mut().push_str(t);
                continue;
            }
        }
        out.push(e.clone());
    }
    out
}

pub fn owned(evs: &[SgmlEvent]) -> Vec<Ev> {
    evs.iter().cloned().map(|e| e.into_owned()).collect()
}

pub fn show(evs: &[SgmlEvent]) -> String {
    let mut o = String::new();
    for e in evs {
        o.push_str("  ");
        o.push_str(&format!("{e:?}"));
        o.push('\n');
    }
    o
}

/// The first difference of two event lists, for messages.
pub fn diff(got: &[SgmlEvent], want: &[SgmlEvent]) -> String {
    let n = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    format!(
        "first difference at event {n}: got {:?}, expected {:?} ({} events, expected {})",
        got.get(n),
        want.get(n),
        got.len(),
        want.len()
    )
}

// ---------------------------------------------------------------- pieces of documents

#[derive(Debug, Clone, Copy, PartialEq, Hash)]
pub enum Piece {
    Declaration,
    Section,
    Body(Status),
    Pi,
    StartTag,
    OpenStartTag,
    CloseStartTag,
    XmlClose,
    EmptyStartTag,
    Attribute,
    Text,
    Item,
    Prolog,
    Content,
}

/// What a repetition of pieces takes before the piece that is malformed, if one is.
#[derive(Debug)]
pub struct Took {
    pub len: usize,
    pub events: Vec<Ev>,
    /// The next piece starts like markup but is malformed
    pub broken: bool,
}

/// The piece of a document `s` starts with: its length and events.
/// `stop`: text ends at `]]>`; `keywords`: of the section whose body this is.
pub fn piece(what: Piece, s: &str, cfg: &Cfg, stop: bool, keywords: &str) -> Option<Took> {
    let mut p = P {
        s,
        i: 0,
        cfg,
        out: vec![],
        depth: 0,
        done: (0, 0),
    };
    let starts = |t: &str| s.strip_prefix(t).and_then(|r| r.chars().next()).map_or(false, is_name_start);
    let mut broken = false;
    let tag = |p: &mut P, t: &str, evs: Vec<Ev>| {
        if s.starts_with(t) {
            p.i = t.len();
            p.out = evs;
            Some(())
        } else {
            None
        }
    };
    match what {
        Piece::Declaration => starts("<!").then(|| p.declaration().ok())??,
        Piece::Section => s.starts_with("<![").then(|| p.section().ok())??,
        Piece::Body(st) => p.section_body(keywords.to_owned(), st).ok()?,
        Piece::Pi => s.starts_with("<?").then(|| p.pi().ok())??,
        Piece::StartTag => (starts("<") || s.starts_with("<>")).then(|| p.start_tag().ok())??,
        Piece::OpenStartTag => {
            p.i = 1;
            starts("<").then_some(())?;
            let name = p.name()?;
            p.out = vec![SgmlEvent::OpenStartTag {
                name: norm_name(name, cfg.norm).into(),
            }];
        }
        Piece::CloseStartTag => tag(&mut p, ">", vec![SgmlEvent::CloseStartTag])?,
        Piece::XmlClose => tag(&mut p, "/>", vec![SgmlEvent::XmlCloseEmptyElement])?,
        Piece::EmptyStartTag => tag(
            &mut p,
            "<>",
            vec![SgmlEvent::OpenStartTag { name: "".into() }, SgmlEvent::CloseStartTag],
        )?,
        Piece::Attribute => p.attribute().ok()?,
        Piece::Text | Piece::Item => {
            if p.at_comment() || starts("<!") || (what == Piece::Text && p.starts_markup()) {
                return None;
            }
            (p.items_up_to(stop, 1).ok()? == 1).then_some(())?
        }
        Piece::Prolog => loop {
            p.done = (p.i, p.out.len());
            let r = if p.at("<!") && p.peek_at(2).map_or(false, is_name_start) {
                p.declaration()
            } else if p.at("<![") {
                p.section()
            } else if p.at("<?") {
                p.pi()
            } else {
                break;
            };
            if r.is_err() {
                broken = true;
                break;
            }
            p.done = (p.i, p.out.len());
            if p.comments_and_ws().is_err() {
                broken = true;
                break;
            }
        },
        Piece::Content => {
            if p.at_comment() || starts("<!") {
                return None;
            }
            match p.items(stop) {
                Ok(0) => return None,
                Ok(_) => {}
                Err(_) if p.done.0 > 0 => broken = true,
                Err(_) => return None,
            }
        }
    }
    if broken {
        p.i = p.done.0;
        p.out.truncate(p.done.1);
    }
    Some(Took {
        len: p.i,
        events: p.out,
        broken,
    })
}

// ---------------------------------------------------------------- single constructs

fn low<T>(s: &str, f: impl FnOnce(&mut P) -> PR<T>) -> Option<(usize, T)> {
    let cfg = Cfg::default();
    let mut p = P {
        s,
        i: 0,
        cfg: &cfg,
        out: vec![],
        depth: 0,
        done: (0, 0),
    };
    let r = f(&mut p).ok()?;
    Some((p.i, r))
}

/// Length of the comment declaration `s` starts with.
pub fn low_comment_declaration(s: &str) -> Option<usize> {
    if s.starts_with("<!-") || s.starts_with("<!>") {
        low(s, |p| p.comment()).map(|x| x.0)
    } else {
        None
    }
}

/// Length, keyword and body of the markup declaration `s` starts with.
pub fn low_markup_declaration(s: &str) -> Option<(usize, (usize, usize), (usize, usize))> {
    let r = s.strip_prefix("<!")?;
    if !r.chars().next().map_or(false, is_name_start) {
        return None;
    }
    let n = 2 + r.find(|c| !is_name_char(c)).unwrap_or(r.len());
    let (end, body) = low(s, |p| {
        p.declaration()?;
        match p.out.pop() {
            Some(SgmlEvent::MarkupDeclaration { body, .. }) => Ok(body.into_owned()),
            _ => unreachable!(),
        }
    })?;
    let from = n + s[n..].len() - s[n..].trim_start_matches(is_ws).len();
    Some((end, (2, n), (from, from + body.len())))
}

/// Length of the content of an IGNORE section, and of what it takes with its end.
pub fn low_ignore(s: &str) -> Option<(usize, usize)> {
    let mut i = 0;
    let mut depth = 0;
    loop {
        let r = &s[i..];
        if r.is_empty() {
            return None;
        }
        if r.starts_with("]]>") {
            if depth == 0 {
                return Some((i, i + 3));
            }
            depth -= 1;
            i += 3;
        } else if r.starts_with("<![") {
            depth += 1;
            i += 3;
        } else {
            i += r.chars().next().unwrap().len_utf8();
        }
    }
}

/// Length of the text run `s` starts with.
pub fn low_text(s: &str, stop: bool) -> usize {
    low(s, |p| {
        while p.i < p.s.len() && !p.starts_markup() && !(stop && p.at("]]>")) {
            p.i += p.peek().unwrap().len_utf8();
        }
        Ok(())
    })
    .unwrap()
    .0
}
