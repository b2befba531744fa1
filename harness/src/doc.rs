//! Documents built piece by piece, together with the events they spell out.

use crate::engine::Src;
use crate::gen::{self, Cfg};
use crate::refimpl::{self, Ev, Status};
use sgmlish::SgmlEvent;

#[derive(Clone, Debug, Hash, PartialEq)]
pub enum Val {
    None,
    /// Quote character and raw content
    Quoted(char, String),
    Bare(String),
}

#[derive(Clone, Debug, Hash, PartialEq)]
pub struct Attr {
    pub name: String,
    pub val: Val,
    /// Space before the name, around `=`
    pub pre: String,
    pub eq: (String, String),
}

#[derive(Clone, Debug, Hash, PartialEq)]
pub enum Item {
    Open {
        name: String,
        attrs: Vec<Attr>,
        pre_close: String,
        xml: bool,
    },
    End {
        name: String,
        ws: String,
    },
    EmptyStart,
    EmptyEnd,
    Pi(String),
    Text(String),
    Comment(String),
    Section(Section),
    /// Only in the prolog
    Decl {
        keyword: String,
        lead: String,
        body: String,
        trail: String,
    },
    /// Whitespace between prolog items
    Gap(String),
}

#[derive(Clone, Debug, Hash, PartialEq)]
pub struct Section {
    pub lead: String,
    pub kw: String,
    pub trail: String,
    pub body: Body,
}

#[derive(Clone, Debug, Hash, PartialEq)]
pub enum Body {
    Raw(String),
    Items(Vec<Item>),
}

#[derive(Clone, Debug, Hash, PartialEq)]
pub struct Doc {
    pub prolog: Vec<Item>,
    pub items: Vec<Item>,
}

// ---------------------------------------------------------------- rendering

pub fn render(d: &Doc) -> String {
    let mut o = String::new();
    for i in d.prolog.iter().chain(&d.items) {
        render_item(i, &mut o);
    }
    o
}

pub fn render_items(items: &[Item]) -> String {
    let mut o = String::new();
    for i in items {
        render_item(i, &mut o);
    }
    o
}

pub fn render_item(i: &Item, o: &mut String) {
    match i {
        Item::Open {
            name,
            attrs,
            pre_close,
            xml,
        } => {
            o.push('<');
            o.push_str(name);
            for a in attrs {
                o.push_str(&a.pre);
                o.push_str(&a.name);
                match &a.val {
                    Val::None => {}
                    Val::Quoted(q, v) => {
                        o.push_str(&a.eq.0);
                        o.push('=');
                        o.push_str(&a.eq.1);
                        o.push(*q);
                        o.push_str(v);
                        o.push(*q);
                    }
                    Val::Bare(v) => {
                        o.push_str(&a.eq.0);
                        o.push('=');
                        o.push_str(&a.eq.1);
                        o.push_str(v);
                    }
                }
            }
            o.push_str(pre_close);
            o.push_str(if *xml { "/>" } else { ">" });
        }
        Item::End { name, ws } => {
            o.push_str("</");
            o.push_str(name);
            o.push_str(ws);
            o.push('>');
        }
        Item::EmptyStart => o.push_str("<>"),
        Item::EmptyEnd => o.push_str("</>"),
        Item::Pi(s) => {
            o.push_str("<?");
            o.push_str(s);
            o.push('>');
        }
        Item::Text(t) | Item::Comment(t) | Item::Gap(t) => o.push_str(t),
        Item::Section(s) => {
            o.push_str("<![");
            o.push_str(&s.lead);
            o.push_str(&s.kw);
            o.push_str(&s.trail);
            o.push('[');
            match &s.body {
                Body::Raw(b) => o.push_str(b),
                Body::Items(it) => o.push_str(&render_items(it)),
            }
            o.push_str("]]>");
        }
        Item::Decl {
            keyword,
            lead,
            body,
            trail,
        } => {
            o.push_str("<!");
            o.push_str(keyword);
            o.push_str(lead);
            o.push_str(body);
            o.push_str(trail);
            o.push('>');
        }
    }
}

// ---------------------------------------------------------------- expected events

/// The events the document spells out, or `None` when it has to be rejected (an undefined
/// reference, or keywords the configuration does not accept).
pub fn expected(d: &Doc, cfg: &Cfg) -> Option<Vec<Ev>> {
    let mut out = vec![];
    for i in &d.prolog {
        expect_item(i, cfg, &mut out)?;
    }
    expect_items(&d.items, cfg, &mut out)?;
    Some(out)
}

fn trimmed<'a>(t: &'a str, cfg: &Cfg) -> &'a str {
    if cfg.trim {
        refimpl::trim(t)
    } else {
        t
    }
}

pub fn expect_items(items: &[Item], cfg: &Cfg, out: &mut Vec<Ev>) -> Option<()> {
    for i in items {
        expect_item(i, cfg, out)?;
    }
    Some(())
}

fn expect_item(i: &Item, cfg: &Cfg, out: &mut Vec<Ev>) -> Option<()> {
    match i {
        Item::Open {
            name, attrs, xml, ..
        } => {
            out.push(SgmlEvent::OpenStartTag {
                name: refimpl::norm_name(name, cfg.norm).into(),
            });
            for a in attrs {
                out.push(SgmlEvent::Attribute {
                    name: refimpl::norm_name(&a.name, cfg.norm).into(),
                    value: match &a.val {
                        Val::None => None,
                        Val::Bare(v) => Some(v.clone().into()),
                        Val::Quoted(_, v) => Some(refimpl::expand_text(v, cfg).ok()?.into()),
                    },
                });
            }
            out.push(if *xml {
                SgmlEvent::XmlCloseEmptyElement
            } else {
                SgmlEvent::CloseStartTag
            });
        }
        Item::End { name, .. } => out.push(SgmlEvent::EndTag {
            name: refimpl::norm_name(name, cfg.norm).into(),
        }),
        Item::EmptyStart => {
            out.push(SgmlEvent::OpenStartTag { name: "".into() });
            out.push(SgmlEvent::CloseStartTag);
        }
        Item::EmptyEnd => out.push(SgmlEvent::EndTag { name: "".into() }),
        Item::Pi(s) => {
            if !cfg.ignore_pi {
                out.push(SgmlEvent::ProcessingInstruction(format!("<?{s}>").into()));
            }
        }
        Item::Text(t) => {
            let t = trimmed(t, cfg);
            if !t.is_empty() {
                out.push(SgmlEvent::Character(refimpl::expand_text(t, cfg).ok()?.into()));
            }
        }
        Item::Comment(_) | Item::Gap(_) => {}
        Item::Decl { keyword, body, .. } => {
            if !cfg.ignore_md {
                out.push(SgmlEvent::MarkupDeclaration {
                    keyword: keyword.clone().into(),
                    body: body.clone().into(),
                });
            }
        }
        Item::Section(s) => {
            let kws = refimpl::expand_keywords(&s.kw, cfg).ok()?;
            let st = refimpl::status_for(&kws, cfg.ms).ok()?;
            if cfg.ms == 2 {
                let mut raw = String::new();
                match &s.body {
                    Body::Raw(b) => raw.push_str(b),
                    Body::Items(it) => {
                        // Still has to be valid content
                        expect_items(it, cfg, &mut vec![])?;
                        raw = render_items(it)
                    }
                }
                out.push(SgmlEvent::MarkedSection {
                    status_keywords: kws.into(),
                    section: raw.into(),
                });
                return Some(());
            }
            match (st, &s.body) {
                (Status::Include, Body::Items(it)) => expect_items(it, cfg, out)?,
                (Status::CData, Body::Raw(b)) => {
                    out.push(SgmlEvent::Character(trimmed(b, cfg).to_owned().into()))
                }
                (Status::RcData, Body::Raw(b)) => out.push(SgmlEvent::Character(
                    refimpl::expand_text(trimmed(b, cfg), cfg).ok()?.into(),
                )),
                (Status::Ignore, Body::Raw(_)) => {}
                // The body was built for the status the keywords resolve to
                x => panic!("section body mismatch: {x:?}"),
            }
        }
    }
    Some(())
}

// ---------------------------------------------------------------- generation

#[derive(Clone)]
pub struct Opts {
    pub max_items: usize,
    pub max_depth: usize,
    pub sections: bool,
    pub comments: bool,
    pub pis: bool,
    pub decls: bool,
    pub empty_tags: bool,
    pub refs: bool,
    /// Allow references and keywords the configuration rejects
    pub invalid: bool,
    pub long: usize,
    /// Weight of whitespace and marked sections among items
    pub heavy_sections: bool,
    pub heavy_ws: bool,
    pub heavy_refs: bool,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            max_items: 14,
            max_depth: 3,
            sections: true,
            comments: true,
            pis: true,
            decls: true,
            empty_tags: true,
            refs: true,
            invalid: false,
            long: 300,
            heavy_sections: false,
            heavy_ws: false,
            heavy_refs: false,
        }
    }
}

pub struct G<'a> {
    pub cfg: &'a Cfg,
    pub o: &'a Opts,
}

pub fn doc(s: &mut Src, cfg: &Cfg, o: &Opts) -> Doc {
    let g = G { cfg, o };
    let mut prolog = vec![];
    if s.coin() {
        let many = gen::many(s, 150);
        let n = s.size(4);
        for _ in 0..n {
            let it = match s.weighted(&[5, 3, 3, 2, 2]) {
                0 if o.decls => g.decl(s),
                1 if o.pis => Item::Pi(g.pi_body(s)),
                2 if o.comments => Item::Comment(g.comment(s)),
                3 if o.sections => Item::Section(g.section(s, 0)),
                _ => Item::Gap(gen::ws(s, 3)),
            };
            prolog.push(it);
        }
        if let Some(m) = many {
            repeat(&mut prolog, m);
        }
    }
    let mut items = g.items(s, 0, false);
    // Content starts with a tag, or with text that whitespace or prolog constructs do not precede
    let first_ok = match items.first() {
        Some(Item::Open { .. } | Item::End { .. } | Item::EmptyStart | Item::EmptyEnd) => true,
        Some(Item::Text(t)) => !t.starts_with(refimpl::is_ws),
        _ => false,
    };
    if !first_ok {
        let open = g.open(s);
        items.insert(0, open);
    }
    Doc { prolog, items }
}

/// Repeats what is there until there are `n` of it.
pub fn repeat<T: Clone>(v: &mut Vec<T>, n: usize) {
    if !v.is_empty() {
        let unit = v.clone();
        v.extend(unit.iter().cycle().take(n.saturating_sub(unit.len())).cloned());
    }
}

impl<'a> G<'a> {
    pub fn items(&self, s: &mut Src, depth: usize, in_section: bool) -> Vec<Item> {
        let max = if depth == 0 { self.o.max_items } else { 5 };
        let many = gen::many(s, 200);
        let n = if many.is_some() {
            s.range(1, 4.min(max))
        } else if depth == 0 && s.one_in(50) {
            s.range(0, max * 6)
        } else {
            s.range(0, max)
        };
        let mut out: Vec<Item> = vec![];
        for _ in 0..n {
            let mut w = [24, 14, 26, 8, 6, 10, 2, 2];
            if self.o.heavy_sections {
                w[5] = 40;
            }
            if !self.o.sections {
                w[5] = 0;
            }
            if !self.o.comments {
                w[3] = 0;
            }
            if !self.o.pis {
                w[4] = 0;
            }
            if !self.o.empty_tags {
                w[6] = 0;
                w[7] = 0;
            }
            let it = match s.weighted(&w) {
                0 => self.open(s),
                1 => Item::End {
                    name: gen::name(s),
                    ws: if s.one_in(4) {
                        gen::ws(s, 3)
                    } else {
                        String::new()
                    },
                },
                2 => Item::Text(self.text(s, in_section)),
                3 => Item::Comment(self.comment(s)),
                4 => Item::Pi(self.pi_body(s)),
                5 => Item::Section(self.section(s, depth + 1)),
                6 => Item::EmptyStart,
                _ => Item::EmptyEnd,
            };
            push_item(&mut out, it, in_section);
        }
        if let Some(m) = many {
            let unit = std::mem::take(&mut out);
            for it in unit.iter().cycle().take(if unit.is_empty() { 0 } else { m }) {
                push_item(&mut out, it.clone(), in_section);
            }
        }
        // Runs that were joined may have grown other references
        for i in &mut out {
            if let Item::Text(t) = i {
                *t = self.fix_refs(std::mem::take(t));
            }
        }
        out
    }

    pub fn open(&self, s: &mut Src) -> Item {
        let many = gen::many(s, 300);
        let n = match many {
            Some(_) => s.range(1, 5),
            None if s.one_in(40) => s.range(0, 30),
            None => s.size(4),
        };
        let mut attrs: Vec<Attr> = (0..n).map(|_| self.attr(s)).collect();
        if let Some(m) = many {
            repeat(&mut attrs, m);
            if s.coin() {
                for (i, a) in attrs.iter_mut().enumerate() {
                    a.name.push_str(&i.to_string());
                }
            }
        }
        // The space before an attribute can only be left out after a quoted value
        let mut prev_quoted = false;
        for a in &mut attrs {
            if a.pre.is_empty() && !prev_quoted {
                a.pre = " ".into();
            }
            prev_quoted = matches!(a.val, Val::Quoted(..));
        }
        let xml = s.one_in(6);
        let mut pre_close = if s.one_in(3) {
            gen::ws(s, 3)
        } else {
            String::new()
        };
        if xml && pre_close.is_empty() && matches!(attrs.last().map(|a| &a.val), Some(Val::Bare(_)))
        {
            pre_close = " ".into();
        }
        Item::Open {
            name: gen::name(s),
            attrs,
            pre_close,
            xml,
        }
    }

    pub fn attr(&self, s: &mut Src) -> Attr {
        let val = match s.weighted(&[4, 4, 3, 2]) {
            0 => Val::Quoted('"', self.value(s, '"')),
            1 => Val::Quoted('\'', self.value(s, '\'')),
            2 => Val::Bare(self.bare(s)),
            _ => Val::None,
        };
        let sp = |s: &mut Src| {
            if s.one_in(4) {
                gen::ws(s, 2)
            } else {
                String::new()
            }
        };
        Attr {
            name: gen::name(s),
            val,
            pre: if s.one_in(8) {
                String::new()
            } else {
                gen::ws1(s, 2)
            },
            eq: (sp(s), sp(s)),
        }
    }

    fn value(&self, s: &mut Src, q: char) -> String {
        let t = self.pieces(s, false);
        t.chars().filter(|c| *c != q).collect::<String>()
            .pipe(|t| self.fix_refs(t))
    }

    pub fn bare(&self, s: &mut Src) -> String {
        let t: String = match s.below(4) {
            0 => gen::name(s),
            1 => s.pick(&["1", "-12.5", "http://x.y/z?a=b&c=d", "a/", "/", "&amp;", "<b", "a=b", "]]", "100%"])
                .to_string(),
            _ => gen::any_string(s, 60),
        };
        let t: String = t
            .chars()
            .filter(|c| !refimpl::is_ws(*c) && !matches!(c, '"' | '\'' | '>'))
            .collect();
        if t.is_empty() {
            "v".into()
        } else {
            t
        }
    }

    /// Free-form character data with references, stray delimiters and odd characters.
    pub fn pieces(&self, s: &mut Src, ws_edges: bool) -> String {
        let mut o = String::new();
        if ws_edges && (self.o.heavy_ws || s.one_in(3)) {
            o.push_str(&gen::ws(s, 4));
        }
        let many = gen::many(s, 400);
        let n = s.size(10);
        for _ in 0..n {
            let wref = if !self.o.refs {
                0
            } else if self.o.heavy_refs {
                30
            } else {
                10
            };
            match s.weighted(&[12, 6, wref, 8, 6, 4, 2]) {
                0 => o.push_str(s.pick(&[
                    "text", "a", "Hello", "b c", "42", "é", "x\ny", "0", "日本", "true", "end.",
                ])),
                1 => o.push_str(&if self.o.heavy_ws {
                    gen::ws(s, 5)
                } else {
                    gen::ws(s, 2)
                }),
                2 => o.push_str(&self.reference(s)),
                3 => o.push_str(s.pick(&[
                    "<", ">", "&", "\"", "'", "< ", "<3", "<<", "&&", "& ", "&;", "&#", "&#;", "<=", "/>",
                    "<!", "<! ", "</ ", "</", "]]", "]]>", "]", "--", "-->", "=", "%", "%pinc;", "&.", "<-",
                    "</3", "<!3", "<!\"", ";", "#", "/", "!", "[", "<[", "<&", "&<", "</\n>", "&#x", "&#x;",
                    "&#xg", "<_", "<:",
                ])),
                4 => o.push_str(&gen::any_string(s, self.o.long)),
                5 => {
                    let c = *s.pick(&gen::OTHER_WS);
                    o.push(c);
                }
                _ => o.push_str(s.pick(&gen::dict().words)),
            }
        }
        if let Some(m) = many {
            let unit = self.fix_refs(o.chars().take(200).collect());
            o = unit.repeat(m);
        }
        if ws_edges && (self.o.heavy_ws || s.one_in(3)) {
            o.push_str(&gen::ws(s, 4));
        }
        o
    }

    pub fn reference(&self, s: &mut Src) -> String {
        let end = *s.pick(&[";", ";", ";", "", " "]);
        match s.below(8) {
            0..=2 => {
                let code = match s.below(6) {
                    0 => *s.pick(&[60, 62, 38, 34, 39, 93, 91]),
                    1 => *s.pick(&[32, 9, 10, 13, 160]),
                    2 => s.range(33, 126),
                    3 => *s.pick(&[233, 0x1f600, 0x10ffff, 0xfffd, 0xd7ff, 0xe000, 0]),
                    4 => gen::any_char(s) as usize,
                    _ => 65,
                };
                let z = *s.pick(&["", "", "0", "000", "00000000000"]);
                if s.coin() {
                    format!("&#{z}{code}{end}")
                } else if s.coin() {
                    format!("&#x{z}{code:x}{end}")
                } else {
                    format!("&#x{z}{code:X}{end}")
                }
            }
            3 if self.o.invalid => {
                format!(
                    "&{}{end}",
                    s.pick(&["undefined", "nope.x", "#FUNC", "#1114112", "#xD800", "#x110000", "#99999999999", "#xZZ"])
                )
            }
            _ => {
                // One of the configured entities, by preference
                match &self.cfg.ents {
                    Some(m) if !m.is_empty() => format!("&{}{end}", s.pick(m).0),
                    _ => format!("&#65{end}"),
                }
            }
        }
    }

    /// Rewrites references the configuration does not define, unless they are wanted.
    pub fn fix_refs(&self, mut t: String) -> String {
        if self.o.invalid {
            return t;
        }
        for _ in 0..400 {
            match refimpl::expand_text(&t, self.cfg) {
                Ok(_) => return t,
                Err(u) => {
                    // A space after the `&` makes it an ordinary character
                    t.insert(u.start + 1, ' ');
                }
            }
        }
        // (taking them out could make markup of what is around them)
        t.replace('&', "+")
    }

    pub fn text(&self, s: &mut Src, in_section: bool) -> String {
        let t = self.pieces(s, true);
        let t = safe_text(&t, in_section);
        let t = self.fix_refs(t);
        // Fixing references only adds spaces after `&`, which opens no markup
        if t.is_empty() {
            "t".into()
        } else {
            t
        }
    }

    pub fn comment(&self, s: &mut Src) -> String {
        let one = |s: &mut Src| {
            let t = match s.below(3) {
                0 => s
                    .pick(&["", " x ", "<b>", "</a>", "&undefined;", "]]>", "<![CDATA[", "-", ">", "a -b", "<!", "\"", "'"])
                    .to_string(),
                1 => gen::any_string(s, 80),
                _ => self.pieces(s, false),
            };
            let mut t = t.replace("--", "- ");
            if t.ends_with('-') {
                t.push('x');
            }
            format!("--{t}--")
        };
        if let Some(m) = gen::many(s, 200) {
            let mut parts: Vec<String> = (0..s.range(1, 3))
                .map(|_| {
                    let sp = gen::ws(s, 2);
                    sp + &one(s)
                })
                .collect();
            repeat(&mut parts, m);
            return format!("<!{}>", refimpl::trim(&parts.concat()));
        }
        match s.below(8) {
            0 => "<!>".into(),
            1 | 2 => {
                let mut o = format!("<!{}", one(s));
                for _ in 0..s.range(1, 3) {
                    o.push_str(&gen::ws(s, 2));
                    o.push_str(&one(s));
                }
                o.push('>');
                o
            }
            _ => format!("<!{}>", one(s)),
        }
    }

    pub fn pi_body(&self, s: &mut Src) -> String {
        let t = match s.below(4) {
            0 => s
                .pick(&["", "xml version=\"1.0\"?", "IS10744 FSIDR x", "php echo 1 ?", " &undefined; ", "<b", "]]", "?"])
                .to_string(),
            1 => gen::any_string(s, 80),
            _ => self.pieces(s, true),
        };
        t.chars().filter(|c| *c != '>').collect()
    }

    pub fn decl(&self, s: &mut Src) -> Item {
        let mut body = String::new();
        let many = gen::many(s, 200);
        let n = s.size(6).max(many.is_some() as usize);
        let mut parts = vec![];
        for _ in 0..n {
            parts.push(self.decl_piece(s, 0, false));
            if s.coin() {
                parts.push(gen::ws(s, 2));
            }
        }
        match many {
            // Many pieces, or one many brackets deep
            Some(m) if s.coin() => repeat(&mut parts, m),
            Some(m) => {
                let inner = self.decl_piece(s, 4, true);
                parts.extend([" ".into(), "[".repeat(m), inner, "]".repeat(m)]);
            }
            None => {}
        }
        for p in &parts {
            push_decl(&mut body, p);
        }
        let body = refimpl::trim(&body).to_owned();
        let keyword = if s.coin() {
            s.pick(&["DOCTYPE", "SGML", "ENTITY", "ELEMENT", "ATTLIST", "NOTATION", "doctype"])
                .to_string()
        } else {
            gen::name(s)
        };
        // A body that starts with a name character needs space to be told from the keyword
        let need = body.chars().next().map_or(false, gen::is_name_char);
        let lead = if need {
            gen::ws1(s, 2)
        } else {
            gen::ws(s, 2)
        };
        let trail = if s.coin() {
            gen::ws(s, 2)
        } else {
            String::new()
        };
        Item::Decl {
            keyword,
            lead,
            body,
            trail,
        }
    }

    fn decl_piece(&self, s: &mut Src, depth: usize, in_subset: bool) -> String {
        match s.weighted(&[8, 5, 4, 4, 2, 2]) {
            0 => {
                let mut t = match s.below(3) {
                    0 => gen::name(s),
                    1 => s.pick(&["HTML", "PUBLIC", "%", "(a|b)*", "#PCDATA", "&x;", "SYSTEM", "é", "+", "!", "?", "1.0", "]"])
                        .to_string(),
                    _ => gen::any_string(s, 30),
                };
                t.retain(|c| !matches!(c, '<' | '>' | '"' | '\'' | '[' | '-'));
                if in_subset {
                    t.retain(|c| c != ']');
                }
                t
            }
            1 => {
                let q = *s.pick(&['"', '\'']);
                let t = match s.below(3) {
                    0 => "-//W3C//DTD HTML 4.01//EN".to_owned(),
                    1 => s.pick(&["a>b", "<!x", "]", "--", "]]>", "&u;", ""]).to_string(),
                    _ => gen::any_string(s, 60),
                };
                let t: String = t.chars().filter(|c| *c != q).collect();
                format!("{q}{t}{q}")
            }
            2 => {
                let t = gen::any_string(s, 40).replace("--", "- ");
                let t = if t.ends_with('-') { format!("{t}x") } else { t };
                format!("--{t}--")
            }
            3 if depth < 4 => {
                let mut o = String::from("[");
                for _ in 0..s.size(4) {
                    let p = self.decl_piece(s, depth + 1, true);
                    push_decl(&mut o, &p);
                    if s.one_in(3) {
                        o.push_str(&gen::ws(s, 2));
                    }
                }
                o.push(']');
                o
            }
            4 if in_subset && depth < 4 => {
                let mut o = String::from("<!");
                o.push_str(&gen::name(s));
                o.push(' ');
                for _ in 0..s.size(3) {
                    let p = self.decl_piece(s, depth + 1, false);
                    push_decl(&mut o, &p);
                    o.push(' ');
                }
                o.push('>');
                o
            }
            _ if !in_subset => "-".into(),
            _ => "x".into(),
        }
    }

    // ------------------------------------------------------------ sections

    pub fn keyword_list(&self, s: &mut Src) -> String {
        if self.cfg.ms == 0 && !self.o.invalid {
            let k = *s.pick(&["CDATA", "RCDATA"]);
            if let (Some(m), true) = (&self.cfg.pents, s.one_in(4)) {
                for (n, v) in m {
                    if v.eq_ignore_ascii_case(k) {
                        return format!("%{n}{}", s.pick(&[";", ""]));
                    }
                }
            }
            return odd_case(s, k);
        }
        let many = gen::many(s, 200);
        let n = match many {
            Some(_) => s.range(1, 4),
            None => *s.pick(&[1, 1, 1, 1, 0, 2, 2, 3, 5]),
        };
        let mut o = String::new();
        for i in 0..n {
            if i > 0 {
                o.push_str(&gen::ws1(s, 2));
            }
            match &self.cfg.pents {
                Some(m) if !m.is_empty() && s.one_in(4) => {
                    o.push('%');
                    o.push_str(&s.pick(m).0);
                    o.push_str(if s.coin() { ";" } else { " " });
                }
                _ if self.o.invalid && s.one_in(16) => o.extend(
                    gen::no_keyword(s).chars().filter(|c| !"[]<>!%&".contains(*c)),
                ),
                _ if self.o.invalid && s.one_in(8) => o.push_str(s.pick(&[
                    "CDATA2", "FOO", "%undefined;", "INCLUDEX", "C DATA", "%", "&amp;", "é", "CDATAE", "TEMPRCDATA",
                    "IGNORED", "TEM", "CDAT", "DATA", "E", "INCLUD", "ignor", "cdata",
                ])),
                _ => {
                    let k = *s.pick(&gen::KEYWORDS);
                    o.push_str(&odd_case(s, k));
                }
            }
        }
        if let Some(m) = many {
            // The first keywords many times, and the others at the end
            let k = refimpl::trim(&o).to_owned();
            let first = k.split(refimpl::is_ws).next().unwrap_or("TEMP");
            let first = if first.is_empty() { "TEMP" } else { first };
            let sep = gen::ws1(s, 2);
            return [&format!("{first}{sep}").repeat(m), &k[..]].concat().pipe(|t| refimpl::trim(&t).to_owned());
        }
        refimpl::trim(&o).to_owned()
    }

    pub fn section(&self, s: &mut Src, depth: usize) -> Section {
        let kw = self.keyword_list(s);
        let st = refimpl::expand_keywords(&kw, self.cfg)
            .ok()
            .and_then(|k| refimpl::status_for(&k, self.cfg.ms).ok());
        self.section_with(s, kw, st, depth)
    }

    pub fn section_with(&self, s: &mut Src, kw: String, st: Option<Status>, depth: usize) -> Section {
        let body = match st {
            Some(Status::Include) if depth < self.o.max_depth => {
                let many = gen::many(s, 100);
                let mut items = self.items(s, depth + 1, true);
                for _ in 0..many.unwrap_or(0) {
                    items = vec![Item::Section(Section {
                        lead: "".into(),
                        kw: kw.clone(),
                        trail: "".into(),
                        body: Body::Items(items),
                    })];
                }
                Body::Items(items)
            }
            Some(Status::Include) => Body::Items(vec![]),
            Some(Status::Ignore) => {
                let many = gen::many(s, 100);
                let t = ignored(s, 0);
                Body::Raw(match many {
                    // Nested, or side by side
                    Some(m) if s.coin() => ["<![ x [".repeat(m), t, "]]>".repeat(m)].concat(),
                    Some(m) => format!("<![{t}]]>").repeat(m),
                    None => t,
                })
            }
            Some(Status::RcData) => {
                let t = raw_until_end(&self.pieces(s, true));
                let t = self.fix_refs(t);
                Body::Raw(raw_until_end(&t))
            }
            _ => {
                let t = match s.below(3) {
                    0 => self.pieces(s, true),
                    1 => gen::any_string(s, self.o.long),
                    _ => s
                        .pick(&["", " ", "<b>", "</a>", "&undefined;", "]]", "]", "]] >", "<![CDATA[", "<!-- ", "\n a \n", "<![IGNORE["])
                        .to_string(),
                };
                Body::Raw(raw_until_end(&t))
            }
        };
        Section {
            lead: if s.one_in(4) { gen::ws(s, 2) } else { String::new() },
            trail: if s.one_in(4) { gen::ws(s, 2) } else { String::new() },
            kw,
            body,
        }
    }
}

trait Pipe: Sized {
    fn pipe<T>(self, f: impl FnOnce(Self) -> T) -> T {
        f(self)
    }
}
impl Pipe for String {}

pub fn odd_case(s: &mut Src, k: &str) -> String {
    match s.below(5) {
        0 => k.to_lowercase(),
        1 => k
            .chars()
            .map(|c| if s.coin() { c.to_ascii_lowercase() } else { c })
            .collect(),
        _ => k.to_owned(),
    }
}

fn push_decl(o: &mut String, p: &str) {
    // Two pieces that would join into a comment delimiter are kept apart
    if o.ends_with('-') && p.starts_with('-') {
        o.push(' ');
    }
    o.push_str(p);
}

/// Adds an item, keeping text runs apart: adjacent runs would be a single one.
pub fn push_item(out: &mut Vec<Item>, it: Item, in_section: bool) {
    if let (Some(Item::Text(p)), Item::Text(t)) = (out.last_mut(), &it) {
        let joined = format!("{p}{t}");
        *p = safe_text(&joined, in_section);
        return;
    }
    out.push(it);
}

/// Separates every `<` that would open markup from what follows it (and breaks up `]]>`
/// inside sections).
pub fn safe_text(t: &str, in_section: bool) -> String {
    let mut o = String::new();
    let mut rest = t;
    while let Some(c) = rest.chars().next() {
        if in_section && rest.starts_with("]]>") {
            o.push_str("]] >");
            rest = &rest[3..];
            continue;
        }
        o.push(c);
        rest = &rest[c.len_utf8()..];
        if c == '<' {
            let name = |t: &str| t.chars().next().map_or(false, gen::is_name_start);
            let opens = rest.starts_with('?')
                || rest.starts_with("!-")
                || rest.starts_with("!>")
                || rest.starts_with("![")
                || rest.starts_with('>')
                || rest.starts_with("/>")
                || name(rest)
                || rest.strip_prefix('!').map_or(false, name)
                || rest.strip_prefix('/').map_or(false, name);
            if opens {
                o.push(' ');
            }
        }
    }
    o
}

fn raw_until_end(t: &str) -> String {
    let mut t = t.to_owned();
    while let Some(n) = t.find("]]>") {
        t.replace_range(n..n + 3, "]] >");
    }
    t
}

/// Content of an IGNORE section, with balanced nested pairs.
pub fn ignored(s: &mut Src, depth: usize) -> String {
    let mut o = String::new();
    let n = if s.one_in(30) { s.range(0, 40) } else { s.size(5) };
    for _ in 0..n {
        match s.weighted(&[6, 5, 6]) {
            0 => {
                let t = match s.below(3) {
                    0 => s
                        .pick(&["x", "<a", "<!-- ", "&undef;", "]]", "<!", "\"", "<![".trim_end_matches("<!["), "]] >", "< ![", "> ", "[", "CDATA["])
                        .to_string(),
                    1 => gen::any_string(s, 60),
                    _ => gen::ws(s, 3),
                };
                o.push_str(&t);
            }
            1 if depth < 6 => {
                o.push_str("<![");
                o.push_str(s.pick(&["CDATA[", "IGNORE[", "", "[", " x ", "INCLUDE["]));
                o.push_str(&ignored(s, depth + 1));
                o.push_str("]]>");
            }
            _ => o.push_str(s.pick(&["text ", "<b>", "</b>", "é", "-"])),
        }
        // Pieces must not join into a delimiter that is not meant
        balance(&mut o, depth);
    }
    o
}

/// Breaks up unbalanced `<![` and `]]>` so that what is left is balanced.
fn balance(o: &mut String, _depth: usize) {
    loop {
        let mut opens: Vec<usize> = vec![];
        let mut bad: Option<usize> = None;
        let b = o.as_bytes();
        let mut i = 0;
        while i + 3 <= b.len() {
            if &b[i..i + 3] == b"<![" {
                opens.push(i);
                i += 3;
            } else if &b[i..i + 3] == b"]]>" {
                if opens.pop().is_none() {
                    bad = Some(i);
                    break;
                }
                i += 3;
            } else {
                i += 1;
            }
        }
        match bad.or(opens.pop()) {
            Some(n) => o.insert(n + 2, ' '),
            None => return,
        }
    }
}

// ---------------------------------------------------------------- soup and mutations

pub const TOKENS: [&str; 72] = [
    "<", ">", "</", "/>", "<a", "<b>", "</a>", "<a>", "</b>", "<>", "</>", "<!", "<!>", "<!--", "-->", "--", "-",
    "<!DOCTYPE", "<!ELEMENT x>", "<!DOCTYPE a [", "[", "]", "]]", "]]>", "<![", "<![CDATA[", "<![RCDATA[",
    "<![INCLUDE[", "<![IGNORE[", "<![ TEMP [", "<![%pinc;[", "<![ %pign [", "<![[", "<?", "<?pi>", "?>", "&", "&amp;",
    "&#65;", "&#x3c;", "&undefined;", "&#", "&#38", "%", "%pinc;", "=", "\"", "'", "\"v\"", "'v'", "a", "b", "x=1",
    " y = \"2\"", " z='&lt;'", "text", " ", "\n", "\t", "\r", "é", "日", "😀", "\u{a0}", "1", ";", "#", "!", "/",
    "<!-- c -->", "<!-- c ---- d -->", "CDATA",
];

pub fn soup(s: &mut Src) -> String {
    let n = match s.below(12) {
        0..=7 => s.range(1, 8),
        8..=10 => s.range(1, 20),
        _ => s.range(1, 90),
    };
    let mut o = String::new();
    if s.coin() {
        o.push_str("<a>");
    }
    for _ in 0..n {
        match s.below(16) {
            0 => {
                let c = gen::any_char(s);
                o.push(c);
            }
            1 => o.push_str(s.pick(&gen::dict().words)),
            2 => o.push_str(&gen::ws(s, 2)),
            _ => o.push_str(s.pick(&TOKENS)),
        }
    }
    o
}

/// Edits a document: deletions, duplications, truncations, insertions, splices, swaps.
pub fn mutate(s: &mut Src, d: &str) -> String {
    let mut t: Vec<char> = d.chars().collect();
    let k = *s.pick(&[1, 1, 1, 2, 2, 3, 6]);
    for _ in 0..k {
        let n = t.len();
        if n == 0 {
            t.extend(s.pick(&TOKENS).chars());
            continue;
        }
        let i = point(s, &t);
        match s.below(10) {
            0 | 1 => {
                t.remove(i.min(n - 1));
            }
            2 => {
                let j = (i + s.range(1, 12)).min(n);
                t.drain(i..j);
            }
            3 => t.truncate(i),
            4 => {
                let j = (i + s.range(1, 12)).min(n);
                let c: Vec<char> = t[i..j].to_vec();
                let at = s.range(0, n);
                t.splice(at..at, c);
            }
            5 | 6 => {
                let c: Vec<char> = s.pick(&TOKENS).chars().collect();
                t.splice(i..i, c);
            }
            7 => {
                let c = gen::any_char(s);
                t.insert(i, c);
            }
            8 => {
                let i = i.min(n - 1);
                t[i] = gen::any_char(s);
            }
            _ => {
                let j = s.us(n);
                t.swap(i.min(n - 1), j);
            }
        }
    }
    t.into_iter().collect()
}

/// A position, preferably next to a delimiter.
fn point(s: &mut Src, t: &[char]) -> usize {
    if s.coin() {
        return s.range(0, t.len());
    }
    let ds: Vec<usize> = t
        .iter()
        .enumerate()
        .filter(|(_, c)| "<>&[]!-?/=\"';%#".contains(**c))
        .map(|(i, _)| i)
        .collect();
    if ds.is_empty() {
        return s.range(0, t.len());
    }
    let i = *s.pick(&ds);
    if s.coin() {
        i
    } else {
        (i + 1).min(t.len())
    }
}
