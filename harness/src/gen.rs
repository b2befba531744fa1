//! Generators of characters, strings, names and configurations.

use crate::engine::Src;
use sgmlish::parser::{MarkedSectionHandling, NameNormalization, ParserBuilder, ParserConfig};
use sgmlish::Parser;
use std::sync::OnceLock;

// ---------------------------------------------------------------- dictionary

/// String and character literals of the code under test, read from its current source: words it
/// treats specially are more likely among its own literals than anywhere else. Only guides
/// generation; no oracle depends on it.
pub struct Dict {
    pub words: Vec<String>,
    pub sizes: Vec<usize>,
    /// Sizes beyond what most generated texts have
    pub big: Vec<usize>,
    /// Numbers of things beyond what most generated documents have
    pub counts: Vec<usize>,
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let root = std::env::var("VERIF_REPO").unwrap_or("/repo".into());
        let mut files = vec![];
        walk(&std::path::Path::new(&root).join("src"), &mut files);
        files.sort();
        let mut words = vec![];
        let mut sizes = vec![];
        let mut big = vec![];
        for f in files {
            let Ok(t) = std::fs::read_to_string(&f) else {
                continue;
            };
            literals(&t, &mut words, &mut sizes, &mut big);
        }
        words.sort();
        words.dedup();
        sizes.sort();
        sizes.dedup();
        if words.is_empty() {
            words.push("x".into());
        }
        if sizes.is_empty() {
            sizes.push(1);
        }
        for n in [256, 1000, 1024, 4096, 8192, 16384, 32768, 65536] {
            big.extend([n - 1, n, n + 1]);
        }
        big.sort();
        big.dedup();
        let mut counts = vec![17, 33, 65, 100, 128, 129, 255, 256, 257, 300, 512, 513, 600, 1000, 1001, 1023, 1024, 1025, 1100];
        counts.extend(sizes.iter().filter(|n| (16..=2100).contains(*n)));
        counts.sort();
        counts.dedup();
        Dict { words, sizes, big, counts }
    })
}

fn walk(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(d) else {
        return;
    };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().map_or(false, |x| x == "rs") {
            out.push(p);
        }
    }
}

fn literals(t: &str, words: &mut Vec<String>, sizes: &mut Vec<usize>, big: &mut Vec<usize>) {
    let t = match t.find("#[cfg(test)]\nmod") {
        Some(n) => &t[..n],
        None => t,
    };
    for line in t.lines() {
        let l = line.trim_start();
        if l.starts_with("//") {
            continue;
        }
        let cs: Vec<char> = l.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            match cs[i] {
                '/' if cs.get(i + 1) == Some(&'/') => break,
                '"' => {
                    let mut s = String::new();
                    i += 1;
                    while i < cs.len() && cs[i] != '"' {
                        if cs[i] == '\\' && i + 1 < cs.len() {
                            i += 1;
                            if cs[i] == 'u' && cs.get(i + 1) == Some(&'{') {
                                let mut h = String::new();
                                i += 2;
                                while i < cs.len() && cs[i] != '}' {
                                    h.push(cs[i]);
                                    i += 1;
                                }
                                if let Some(c) =
                                    u32::from_str_radix(&h, 16).ok().and_then(char::from_u32)
                                {
                                    s.push(c);
                                }
                            } else {
                                s.push(match cs[i] {
                                    'n' => '\n',
                                    'r' => '\r',
                                    't' => '\t',
                                    '0' => '\0',
                                    c => c,
                                });
                            }
                        } else {
                            s.push(cs[i]);
                        }
                        i += 1;
                    }
                    if !s.is_empty() && s.chars().count() <= 24 {
                        words.push(s);
                    }
                }
                '\'' if cs.get(i + 2) == Some(&'\'') && cs[i + 1] != '\\' => {
                    words.push(cs[i + 1].to_string());
                    i += 2;
                }
                '\'' if cs.get(i + 1) == Some(&'\\') => {
                    let mut j = i + 2;
                    while j < cs.len() && cs[j] != '\'' {
                        j += 1;
                    }
                    let body: String = cs[(i + 2).min(cs.len())..j.min(cs.len())].iter().collect();
                    let c = match body.as_str() {
                        "n" => Some('\n'),
                        "r" => Some('\r'),
                        "t" => Some('\t'),
                        "0" => Some('\0'),
                        b if b.starts_with("u{") => u32::from_str_radix(
                            b.trim_start_matches("u{").trim_end_matches('}'),
                            16,
                        )
                        .ok()
                        .and_then(char::from_u32),
                        b if b.starts_with('x') => u32::from_str_radix(&b[1..], 16)
                            .ok()
                            .and_then(char::from_u32),
                        _ => None,
                    };
                    words.extend(c.map(String::from));
                    i = j;
                }
                c if c.is_ascii_digit() && (i == 0 || !(cs[i - 1].is_alphanumeric() || cs[i - 1] == '_')) => {
                    let mut d = String::new();
                    while i < cs.len() && (cs[i].is_ascii_alphanumeric() || cs[i] == '_') {
                        if cs[i] != '_' {
                            d.push(cs[i]);
                        }
                        i += 1;
                    }
                    let d = d.trim_end_matches("usize").trim_end_matches("u32");
                    let v = match d.strip_prefix("0x") {
                        Some(h) => usize::from_str_radix(h, 16).ok(),
                        None => d.parse().ok(),
                    };
                    if let Some(v) = v {
                        if v <= 0x110000 {
                            if let Some(c) = char::from_u32(v as u32).filter(|_| v > 9) {
                                words.push(c.to_string());
                            }
                            if v > 1 {
                                words.push(v.to_string());
                            }
                        }
                        if (3..=3000).contains(&v) {
                            sizes.extend([v - 1, v, v + 1]);
                        } else if (3001..=70_000).contains(&v) {
                            big.extend([v - 1, v, v + 1]);
                        }
                    }
                    continue;
                }
                _ => {}
            }
            i += 1;
        }
    }
}

// ---------------------------------------------------------------- characters

pub const SGML_WS: [char; 4] = [' ', '\n', '\t', '\r'];
pub const OTHER_WS: [char; 11] = [
    '\u{a0}', '\u{c}', '\u{b}', '\u{85}', '\u{2003}', '\u{2028}', '\u{feff}', '\u{3000}',
    '\u{200b}', '\u{1680}', '\u{2029}',
];
pub const MARKUP: [char; 18] = [
    '<', '>', '&', '"', '\'', '/', '=', '[', ']', '!', '-', '?', ';', '#', '%', '.', ':', '_',
];
/// Alphabetic characters of many kinds, several with unusual case mappings.
pub const LETTERS: [char; 44] = [
    'é', 'É', 'ß', 'ẞ', 'İ', 'ı', 'ǅ', 'Ǆ', 'ǆ', 'ᾈ', 'ᾳ', 'Σ', 'σ', 'ς', 'ﬁ', 'Å', 'K', 'ſ', 'µ',
    'ŉ', 'ǰ', 'ΐ', '日', '本', 'ع', 'א', 'Я', 'я', 'ა', 'Ა', 'ꭰ', 'Ꭰ', '𐐀', '𐐨', '𝐀', 'ⓐ', 'Ⓐ', 'ª',
    'Ⅷ', 'ⅷ', 'ñ', 'Ñ', 'ÿ', 'Ÿ',
];
/// Numeric or otherwise allowed inside names but not all first.
pub const DIGITS: [char; 8] = ['0', '1', '7', '9', '٣', '²', '½', '٩'];
pub const ODD: [char; 16] = [
    '\0', '\u{1}', '\u{7f}', '\u{301}', '\u{345}', '\u{200d}', '😀', '\u{10ffff}', '\u{e000}', '\u{1b}',
    '€', '“', '\u{fffd}', '\u{ad}', '𒀀', '\u{1f1e6}',
];

pub fn ascii_letter(s: &mut Src) -> char {
    let v = s.below(52) as u8;
    (if v < 26 { b'a' + v } else { b'A' + v - 26 }) as char
}

/// Any character, over pools weighted towards those that matter to the grammar.
pub fn any_char(s: &mut Src) -> char {
    match s.weighted(&[30, 22, 12, 4, 8, 5, 4, 3]) {
        0 => ascii_letter(s),
        1 => *s.pick(&MARKUP),
        2 => *s.pick(&SGML_WS),
        3 => *s.pick(&OTHER_WS),
        4 => *s.pick(&LETTERS),
        5 => *s.pick(&DIGITS),
        6 => *s.pick(&ODD),
        _ => loop_char(s),
    }
}

/// Uniform over all scalar values, or over ASCII.
pub fn loop_char(s: &mut Src) -> char {
    if s.coin() {
        return char::from(s.below(128) as u8);
    }
    let v = s.below(0x110000 - 0x800) as u32;
    char::from_u32(if v >= 0xd800 { v + 0x800 } else { v }).unwrap_or('x')
}

/// A length, from small ones up to beyond usual buffer and excerpt sizes.
pub fn length(s: &mut Src, max: usize) -> usize {
    match s.below(40) {
        0..=25 => s.range(0, 4.min(max)),
        26..=34 => s.range(0, 12.min(max)),
        35..=37 => s.range(0, 45.min(max)),
        38 => (*s.pick(&dict().sizes)).min(max),
        _ => {
            let cap = *s.pick(&[100, 100, 300, 1100]);
            s.range(0, cap.min(max))
        }
    }
}

/// In one case out of `k`, and at most once in each, a number of things far beyond the usual ones.
pub fn many(s: &mut Src, k: u64) -> Option<usize> {
    if s.huge || !s.one_in(k) {
        return None;
    }
    s.huge = true;
    Some(if s.coin() {
        *s.pick(&dict().counts)
    } else {
        s.range(257, 1100)
    })
}

/// A short pattern repeated up to a length around a power of two or a number of the code.
pub fn huge_string(s: &mut Src) -> String {
    let n = *s.pick(&dict().big);
    let unit: Vec<char> = (0..s.range(1, 6)).map(|_| any_char(s)).collect();
    let mut o: String = unit.iter().cycle().take(n).collect();
    for _ in 0..s.below(3) {
        o.push(any_char(s));
    }
    o
}

/// Arbitrary text, including dictionary words and runs.
pub fn any_string(s: &mut Src, max: usize) -> String {
    if max >= 20 && s.one_in(500) && !s.huge {
        s.huge = true;
        return huge_string(s);
    }
    let n = length(s, max);
    let mut o = String::new();
    if n > 30 && s.coin() {
        // Long runs out of few characters
        let cs = [any_char(s), any_char(s), any_char(s)];
        while o.chars().count() < n {
            o.push(*s.pick(&cs));
        }
        return o;
    }
    for _ in 0..n {
        if s.one_in(14) {
            o.push_str(s.pick(&dict().words));
        } else {
            o.push(any_char(s));
        }
    }
    o
}

pub fn ws(s: &mut Src, max: usize) -> String {
    let n = if s.one_in(60) { s.range(0, 40) } else { s.range(0, max) };
    (0..n)
        .map(|_| match s.below(6) {
            0..=2 => ' ',
            3 => '\n',
            4 => '\t',
            _ => '\r',
        })
        .collect()
}

pub fn ws1(s: &mut Src, max: usize) -> String {
    let w = ws(s, max);
    if w.is_empty() {
        " ".into()
    } else {
        w
    }
}

// ---------------------------------------------------------------- names

pub fn is_name_start(c: char) -> bool {
    c.is_alphabetic()
}
pub fn is_name_char(c: char) -> bool {
    c.is_alphanumeric() || c == '.' || c == '-' || c == '_' || c == ':'
}
pub fn is_name(n: &str) -> bool {
    let mut cs = n.chars();
    cs.next().map_or(false, is_name_start) && cs.all(is_name_char)
}

const POOL: [&str; 26] = [
    "a", "b", "c", "A", "B", "item", "Item", "ITEM", "name", "NAME", "foo", "x", "TITLE", "p", "id",
    "selected", "value", "data", "ofx.b-1_2:3", "é", "Ünïcode", "x-y", "h1", "key", "Rec", "tEXt",
];

pub fn name(s: &mut Src) -> String {
    match s.below(20) {
        0..=11 => s.pick(&POOL).to_string(),
        12 | 13 => {
            // One of the code's own words, when it is a name
            let w = s.pick(&dict().words);
            if is_name(w) {
                w.clone()
            } else {
                "w".into()
            }
        }
        14 => {
            // Odd case of a pool name
            let p = *s.pick(&POOL);
            p.chars()
                .map(|c| {
                    if s.coin() {
                        c.to_ascii_uppercase()
                    } else {
                        c.to_ascii_lowercase()
                    }
                })
                .collect()
        }
        15 | 16 => {
            let mut o = String::new();
            o.push(if s.coin() { ascii_letter(s) } else { *s.pick(&LETTERS) });
            for _ in 0..s.size(6) {
                o.push(name_char(s));
            }
            fix_name(o)
        }
        17 => {
            let mut o = String::new();
            o.push(*s.pick(&LETTERS));
            for _ in 0..s.size(4) {
                o.push(*s.pick(&LETTERS));
            }
            fix_name(o)
        }
        18 => {
            // Any alphabetic character at all
            let mut o = String::new();
            for _ in 0..s.range(1, 3) {
                let c = loop_char(s);
                if is_name_start(c) {
                    o.push(c);
                }
            }
            o.push_str("n");
            fix_name(o)
        }
        _ => {
            if s.one_in(60) {
                let n = *s.pick(&dict().big);
                let unit = fix_name(["n", &name_char(s).to_string()].concat());
                return unit.chars().cycle().take(n).collect();
            }
            let n = length(s, 700).max(1);
            let mut o = String::from("n");
            for _ in 1..n {
                o.push(name_char(s));
            }
            fix_name(o)
        }
    }
}

pub fn name_char(s: &mut Src) -> char {
    match s.below(10) {
        0..=4 => ascii_letter(s),
        5 => *s.pick(&DIGITS),
        6 | 7 => *s.pick(&['.', '-', '_', ':', '-', '.']),
        8 => *s.pick(&LETTERS),
        _ => *s.pick(&['é', 'Z', '0']),
    }
}

fn fix_name(n: String) -> String {
    if is_name(&n) {
        n
    } else {
        let t: String = n.chars().filter(|c| is_name_char(*c)).collect();
        if is_name(&t) {
            t
        } else {
            format!("n{t}")
        }
    }
}

// ---------------------------------------------------------------- configuration

#[derive(Clone, Debug, PartialEq, Hash)]
pub struct Cfg {
    pub trim: bool,
    /// 0 unchanged, 1 lower, 2 upper
    pub norm: u8,
    /// 0 accept only character data, 1 expand all, 2 keep unmodified
    pub ms: u8,
    pub ignore_md: bool,
    pub ignore_pi: bool,
    pub ents: Option<Vec<(String, String)>>,
    pub pents: Option<Vec<(String, String)>>,
    /// Use the builder's shorthand methods where there are
    pub short: bool,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            trim: true,
            norm: 0,
            ms: 0,
            ignore_md: false,
            ignore_pi: false,
            ents: None,
            pents: None,
            short: false,
        }
    }
}

pub type Lookup<'a> = &'a dyn Fn(&str) -> Option<String>;

thread_local! {
    /// What lookups were asked for, by the parser or the reference parser, while it is recorded
    static CALLS: std::cell::RefCell<Option<Vec<(char, String)>>> = std::cell::RefCell::new(None);
}
fn called(kind: char, n: &str) {
    CALLS.with(|c| {
        if let Some(l) = &mut *c.borrow_mut() {
            l.push((kind, n.to_owned()));
        }
    });
}
/// The lookups made in it.
pub fn calls<T>(f: impl FnOnce() -> T) -> (T, Vec<(char, String)>) {
    CALLS.with(|c| *c.borrow_mut() = Some(vec![]));
    let r = f();
    (r, CALLS.with(|c| c.borrow_mut().take()).unwrap_or_default())
}

impl Cfg {
    pub fn ent(&self, name: &str) -> Option<String> {
        let m = self.ents.as_ref()?;
        called('&', name);
        m.iter().find(|(k, _)| k == name).map(|(_, v)| v.clone())
    }
    pub fn pent(&self, name: &str) -> Option<String> {
        let m = self.pents.as_ref()?;
        called('%', name);
        m.iter().find(|(k, _)| k == name).map(|(_, v)| v.clone())
    }
    pub fn build(&self) -> Parser {
        self.builder().build()
    }
    pub fn config(&self) -> ParserConfig {
        self.builder().into_config()
    }
    fn builder(&self) -> ParserBuilder {
        let mut b = Parser::builder();
        if !(self.short && self.trim) {
            b = b.trim_whitespace(self.trim);
        }
        b = match (self.norm, self.short) {
            (0, true) => b,
            (1, true) => b.lowercase_names(),
            (2, true) => b.uppercase_names(),
            (0, _) => b.name_normalization(NameNormalization::Unchanged),
            (1, _) => b.name_normalization(NameNormalization::ToLowercase),
            _ => b.name_normalization(NameNormalization::ToUppercase),
        };
        b = match (self.ms, self.short) {
            (0, true) => b,
            (1, true) => b.expand_marked_sections(),
            (0, _) => b.marked_section_handling(MarkedSectionHandling::AcceptOnlyCharacterData),
            (1, _) => b.marked_section_handling(MarkedSectionHandling::ExpandAll),
            _ => b.marked_section_handling(MarkedSectionHandling::KeepUnmodified),
        };
        if self.ignore_md || !self.short {
            b = b.ignore_markup_declarations(self.ignore_md);
        }
        if self.ignore_pi || !self.short {
            b = b.ignore_processing_instructions(self.ignore_pi);
        }
        if let Some(m) = self.ents.clone() {
            b = b.expand_entities(move |n| {
                called('&', n);
                m.iter().find(|(k, _)| k == n).map(|(_, v)| v.clone())
            });
        }
        if let Some(m) = self.pents.clone() {
            b = b.expand_parameter_entities(move |n| {
                called('%', n);
                m.iter().find(|(k, _)| k == n).map(|(_, v)| v.clone())
            });
        }
        b
    }
}

pub const ENTITY_VALUES: [&str; 24] = [
    "é", "<", ">", "&", "", " ", "\n", "]]>", "<b>", "</a>", "&amp;", "&#65;", "%pinc;", "\"", "'", "--",
    "<!-- x -->", "<![CDATA[", "text", "  padded  ", "&lt;", "amp;", "😀", "<?pi>",
];

pub const ENTITY_NAMES: [&str; 13] = [
    "amp", "lt", "gt", "eacute", "nbsp", "x", "a", "e-1.b_c:d", "é", "#SPACE", "#RE", "quot", "X",
];

pub const KEYWORDS: [&str; 5] = ["CDATA", "RCDATA", "INCLUDE", "IGNORE", "TEMP"];

/// Something close to a keyword which is none.
pub fn no_keyword(s: &mut Src) -> String {
    let k = *s.pick(&KEYWORDS);
    let w = match s.below(8) {
        0 => name(s),
        1 => format!("{k}X"),
        2 => k[..k.len() - 1].to_owned(),
        3 => k.replace('I', "İ").replace('A', "ａ"),
        // Their case mappings or decompositions are ASCII
        4 => ["IGNORE", "INCLUDE"][s.below(2) as usize].replace('I', "ı"),
        5 => dict().words[s.below(dict().words.len() as u64) as usize]
            .replace(|c: char| c.is_ascii_whitespace(), ""),
        6 => {
            let mut cs: Vec<char> = k.chars().collect();
            let i = s.range(0, cs.len() - 1);
            cs[i] = any_char(s);
            cs.into_iter().filter(|c| !c.is_ascii_whitespace()).collect()
        }
        _ => format!("{k}\u{a0}{k}"),
    };
    if w.is_empty() {
        "w".into()
    } else {
        w
    }
}

pub fn entities(s: &mut Src) -> Option<Vec<(String, String)>> {
    if s.below(4) == 0 {
        return None;
    }
    let mut m = vec![];
    for n in ENTITY_NAMES {
        if s.below(8) != 0 {
            let v = if s.one_in(5) {
                any_string(s, 60)
            } else {
                s.pick(&ENTITY_VALUES).to_string()
            };
            m.push((n.to_owned(), v));
        }
    }
    // A reference to a character that does not exist is looked up as well
    if s.one_in(3) {
        m.push(("#1114112".into(), "BEYOND".into()));
        m.push(("#xD800".into(), "SURR".into()));
        m.push(("#xg".into(), "NOHEX".into()));
    }
    if s.one_in(4) {
        m.push((name(s), any_string(s, 20)));
    }
    Some(m)
}

pub const PENTITY_NAMES: [&str; 8] = ["pinc", "pign", "pcd", "prc", "ptmp", "pnone", "pmix", "P.1-x_y:z"];

pub fn pentities(s: &mut Src) -> Option<Vec<(String, String)>> {
    if s.below(3) == 0 {
        return None;
    }
    let base: [&[&str]; 8] = [
        &["INCLUDE", "include", " INCLUDE "],
        &["IGNORE", "Ignore", "IGNORE TEMP"],
        &["CDATA", "cdata", "INCLUDE CDATA"],
        &["RCDATA", "rcData", "TEMP RCDATA"],
        &["TEMP", "temp"],
        &["", " "],
        &["INCLUDE IGNORE", "CDATA RCDATA", "TEMP\nINCLUDE"],
        &["IGNORE", "CDATA", "INCLUDE", "RCDATA"],
    ];
    Some(
        PENTITY_NAMES
            .iter()
            .zip(base)
            .map(|(n, vs)| (n.to_string(), s.pick(vs).to_string()))
            .collect(),
    )
}

pub fn cfg(s: &mut Src) -> Cfg {
    Cfg {
        trim: s.below(3) != 2,
        norm: *s.pick(&[0, 0, 1, 2]),
        ms: *s.pick(&[1, 1, 0, 2]),
        ignore_md: s.one_in(4),
        ignore_pi: s.one_in(4),
        ents: entities(s),
        pents: pentities(s),
        short: s.coin(),
    }
}

/// Takes so many bytes, and fails once (or every time) when they are exceeded
pub struct Upto {
    left: usize,
    again: bool,
    failed: bool,
    got: String,
}
impl std::fmt::Write for Upto {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        if self.failed {
            return if self.again { Ok(()) } else { Err(std::fmt::Error) };
        }
        if self.left < t.len() {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        self.left -= t.len();
        self.got.push_str(t);
        Ok(())
    }
}
/// A writer that fails is heard of, after having been given what comes before.
pub fn cut_short(s: &mut Src, full: &str, f: impl FnOnce(&mut Upto) -> std::fmt::Result) -> crate::engine::R {
    if full.is_empty() {
        return Ok(());
    }
    let mut w = Upto { left: s.us(full.len()), again: s.coin(), failed: false, got: String::new() };
    let r = f(&mut w);
    crate::ensure!(
        r.is_err() && full.starts_with(&w.got),
        "a writer failed after {:?}, but formatting gives {r:?}; in full:\n{full}",
        w.got
    );
    Ok(())
}
