//! Properties of the building blocks: C04, C12-C15, C25-C27.

use super::parse::{events, show_case};
use crate::doc::{self, Body, Item, Opts, Val, G};
use crate::engine::*;
use crate::gen::{self, Cfg};
use crate::refimpl::{self, diff, is_ws, owned, show, Ev, Status, Why};
use crate::{assume, ensure};
use sgmlish::entities::{expand_characters, expand_entities, expand_parameter_entities};
use sgmlish::parser::raw::{self, MarkedSectionEndHandling};
use sgmlish::parser::{util, ContextualizedError, MarkedSectionHandling, NameNormalization, ParserBuilder, ParserConfig};
use sgmlish::transforms::{normalize_end_tags, NormalizationError, Transform};
use sgmlish::{Parser, SgmlEvent, SgmlFragment};
use std::borrow::Cow;

pub fn within(outer: &str, inner: &str) -> bool {
    let (o, i) = (outer.as_ptr() as usize, inner.as_ptr() as usize);
    i >= o && i + inner.len() <= o + outer.len()
}

// ---------------------------------------------------------------- C04

fn ref_text(s: &mut Src, delim: char) -> String {
    const T: [&str; 44] = [
        "D", "D", "D#", "D#x", "D#X", "#", "x", "X", "a", "e-1.b_c:d", "é", "1", "65", "0", "x41", "g", "f", ";", ";", ".", "-", "_",
        ":", " ", "\n", "٣", "²", "amp", "lt", "AMP", "&", "%", "#38", "x26", "1114111", "1114112", "D800", "10FFFF",
        "00000000000000065", "4294967361", "<", "]]>", "#RE", "+1",
    ];
    let mut o = String::new();
    match s.below(5) {
        0 => o = gen::any_string(s, 200),
        1 => {
            let cfg = Cfg {
                ents: gen::entities(s),
                ..Cfg::default()
            };
            let op = Opts {
                heavy_refs: true,
                invalid: true,
                ..Opts::default()
            };
            o = G { cfg: &cfg, o: &op }.pieces(s, true);
        }
        _ => {
            for _ in 0..s.size(24) {
                if s.one_in(12) {
                    o.push(gen::any_char(s));
                } else {
                    o.push_str(&s.pick(&T).replace('D', &delim.to_string()));
                }
            }
        }
    }
    if delim == '%' && s.coin() {
        o = o.replace('&', "%");
    }
    o
}

/// A lookup whose answers depend on the name and on how often it was asked.
#[derive(Clone, Debug, Hash)]
struct Lookup {
    known: Vec<(String, String)>,
    rest: u8,
}
impl Lookup {
    fn gen(s: &mut Src) -> Lookup {
        Lookup {
            known: gen::entities(s).unwrap_or_default(),
            rest: s.below(4) as u8,
        }
    }
    fn answer(&self, name: &str, nth: usize) -> Option<String> {
        if let Some((_, v)) = self.known.iter().find(|(k, _)| k == name) {
            return Some(v.clone());
        }
        match self.rest {
            0 => Some(format!("[{name}|{nth}]")),
            1 => Some("&amp;%amp;&#65;".to_owned()),
            2 if nth < 2 => Some(String::new()),
            _ => None,
        }
    }
}

fn c04_compare(
    what: &str,
    text: &str,
    got: Result<Cow<str>, sgmlish::entities::EntityError>,
    got_calls: &[String],
    want: Result<String, refimpl::Undefined>,
    want_calls: &[String],
    delim: char,
) -> R {
    match (&got, &want) {
        (Ok(g), Ok(w)) => ensure!(&**g == w, "{what}({text:?}) = {g:?}, expected {w:?}"),
        (Err(g), Err(w)) => {
            ensure!(
                g.entity == w.name && g.position == (w.start..w.end),
                "{what}({text:?}) reports {:?} at {:?}, expected {:?} at {:?}",
                g.entity,
                g.position,
                w.name,
                w.start..w.end
            );
            ensure!(
                text.get(g.position.clone()).map_or(false, |t| t.starts_with(delim)),
                "{what}({text:?}): range {:?} is not the reference",
                g.position
            );
            let m = g.to_string();
            ensure!(m.contains(&w.name), "{what}({text:?}): message {m:?} does not name {:?}", w.name);
        }
        _ => return fail(format!("{what}({text:?}) = {got:?}, expected {want:?}")),
    }
    ensure!(
        got_calls == want_calls,
        "{what}({text:?}) looks up {got_calls:?}, expected {want_calls:?}"
    );
    if let Ok(g) = &got {
        if !text.contains(delim) {
            ensure!(
                matches!(g, Cow::Borrowed(t) if t.len() == text.len() && t.as_ptr() == text.as_ptr()),
                "{what}({text:?}) copies a text that has no reference"
            );
        }
    }
    Ok(())
}

fn c04_entities(s: &mut Src, cx: &mut Ctx) -> R {
    let text = ref_text(s, '&');
    let l = Lookup::gen(s);
    cx.case(&(&text, &l), || format!("text: {text:?}\nlookup: {l:?}"));
    cx.nontrivial_if(text.contains('&'));
    let mut gc = vec![];
    let got = expand_entities(&text, |n: &str| {
        gc.push(n.to_owned());
        l.answer(n, gc.len() - 1)
    });
    let mut wc = vec![];
    let want = refimpl::expand(&text, '&', true, &mut |n| {
        wc.push(n.to_owned());
        l.answer(n, wc.len() - 1)
    });
    cx.label_if(want.is_err(), "undefined");
    cx.label_if(wc.len() > 1, "several lookups");
    cx.label_if(want.as_ref().map_or(false, |w| *w != text), "changed");
    c04_compare("expand_entities", &text, got, &gc, want, &wc, '&')
}

fn c04_parameters(s: &mut Src, cx: &mut Ctx) -> R {
    let text = ref_text(s, '%');
    let l = Lookup::gen(s);
    cx.case(&(&text, &l), || format!("text: {text:?}\nlookup: {l:?}"));
    cx.nontrivial_if(text.contains('%'));
    let mut gc = vec![];
    let got = expand_parameter_entities(&text, |n: &str| {
        gc.push(n.to_owned());
        l.answer(n, gc.len() - 1)
    });
    let mut wc = vec![];
    let want = refimpl::expand(&text, '%', false, &mut |n| {
        wc.push(n.to_owned());
        l.answer(n, wc.len() - 1)
    });
    cx.label_if(want.is_err(), "undefined");
    c04_compare("expand_parameter_entities", &text, got, &gc, want, &wc, '%')
}

fn c04_characters(s: &mut Src, cx: &mut Ctx) -> R {
    let text = ref_text(s, '&');
    cx.case(&text, || format!("text: {text:?}"));
    cx.nontrivial_if(text.contains('&'));
    let got = expand_characters(&text);
    let want = refimpl::expand(&text, '&', true, &mut |_| None);
    cx.label_if(want.is_err(), "undefined");
    c04_compare("expand_characters", &text, got, &[], want, &[], '&')
}

/// Every code, in every way of writing it.
fn c04_codes(s: &mut Src, cx: &mut Ctx) -> R {
    let code: u64 = match s.below(6) {
        0 => s.below(0x300),
        1 => s.below(0x110010),
        2 => 0xd7f0 + s.below(0x820),
        3 => 0x10fff0 + s.below(0x20),
        4 => 0xffff_fff0 + s.below(0x20),
        _ => gen::any_char(s) as u64,
    };
    let zeros = "0".repeat(if s.coin() { 0 } else { s.range(0, 30) });
    let body = match s.below(3) {
        0 => format!("#{zeros}{code}"),
        1 => format!("#x{zeros}{code:x}"),
        _ => format!("#x{zeros}{code:X}"),
    };
    let (pre, post) = (
        *s.pick(&["", "a", "&", "é&#", "#x", ";"]),
        *s.pick(&["", ";", "; b", " ", "&", ";;", ";&#65;"]),
    );
    let text = format!("{pre}&{body}{post}");
    cx.case(&text, || format!("text: {text:?}"));
    cx.nontrivial = true;
    let mut calls = vec![];
    let got = expand_entities(&text, |n: &str| {
        calls.push(n.to_owned());
        Some("?")
    })
    .map(|c| c.into_owned());
    let tail = |p: &str| {
        let p = p.strip_prefix(';').unwrap_or(p);
        p.replace("&#65;", "A")
    };
    let c = u32::try_from(code).ok().and_then(char::from_u32);
    cx.label(if c.is_some() { "a character" } else { "no character" });
    let want = match c {
        Some(c) => format!("{pre}{c}{}", tail(post)),
        None => format!("{pre}?{}", tail(post)),
    };
    ensure!(
        got.as_ref() == Ok(&want),
        "{text:?} expands to {got:?}, expected {want:?}"
    );
    let names: Vec<String> = if c.is_some() { vec![] } else { vec![body] };
    ensure!(calls == names, "{text:?} looks up {calls:?}, expected {names:?}");
    Ok(())
}

// ---------------------------------------------------------------- C12

fn escaped(text: &str, amp: bool) -> String {
    let mut o = String::new();
    for c in text.chars() {
        match c {
            '<' => o.push_str("&#60;"),
            '>' => o.push_str("&#62;"),
            '&' if amp => o.push_str("&#38;"),
            c => o.push(c),
        }
    }
    o
}

fn c12_escape(s: &mut Src, cx: &mut Ctx) -> R {
    let text = if s.coin() {
        gen::any_string(s, 1200)
    } else {
        let mut o = String::new();
        for _ in 0..s.size(20) {
            match s.below(4) {
                0 | 1 => o.push(*s.pick(&['<', '>', '&'])),
                2 => o.push_str(s.pick(&["&#60;", "&lt;", "]]>", "</a>", "&#x3c;", ";", "#60;"])),
                _ => o.push(gen::any_char(s)),
            }
        }
        o
    };
    let amp = s.below(3) != 2;
    let steps = if s.coin() { s.range(0, 12) } else { s.range(0, 60) };
    cx.case(&(&text, amp, steps), || format!("text: {text:?}\nescape ampersand: {amp}, advanced by {steps}"));
    cx.nontrivial_if(text.contains(|c| "<>&".contains(c)));
    let mut e = sgmlish::text::escape(&text);
    if !amp {
        e.set_escape_ampersand(false);
    } else if s.coin() {
        e.set_escape_ampersand(true);
    }
    let full = escaped(&text, amp);
    ensure!(e.to_string() == full, "escaped as {:?}, expected {full:?}", e.to_string());
    ensure!(e.clone().collect::<String>() == full, "iterates as {:?}, expected {full:?}", e.clone().collect::<String>());
    if amp {
        ensure!(!full.contains(|c| "<>".contains(c)), "delimiters left");
        match expand_characters(&full) {
            Ok(t) => ensure!(t == text, "{full:?} expands to {t:?}, expected {text:?}"),
            Err(e) => return fail(format!("{full:?} does not expand: {e}")),
        }
    }
    gen::cut_short(s, &full, |w| std::fmt::Write::write_fmt(w, format_args!("{e}")))?;
    let all: Vec<char> = full.chars().collect();
    for k in 0..=steps.min(all.len() + 2) {
        let left = &all[k.min(all.len())..];
        let (lo, hi) = e.size_hint();
        ensure!(
            lo <= left.len() && hi.map_or(true, |h| h >= left.len()),
            "after {k} characters, {} are left but the bounds are {lo}..{hi:?}",
            left.len()
        );
        let want: String = left.iter().collect();
        ensure!(e.to_string() == want, "after {k} characters formats as {:?}, expected {want:?}", e.to_string());
        ensure!(
            e.clone().collect::<String>() == want,
            "a clone after {k} characters gives {:?}, expected {want:?}",
            e.clone().collect::<String>()
        );
        ensure!(e.clone().count() == left.len(), "count() after {k} characters");
        ensure!(e.clone().last() == left.last().copied(), "last() after {k} characters");
        ensure!(e.clone().nth(3) == left.get(3).copied(), "nth(3) after {k} characters");
        let n = e.next();
        ensure!(n == left.first().copied(), "character {k} is {n:?}, expected {:?}", left.first());
    }
    // Exhausted for good
    let mut e = sgmlish::text::escape(&text);
    let mut n = 0;
    while e.next().is_some() {
        n += 1;
        ensure!(n <= 5 * text.chars().count(), "does not end");
    }
    for _ in 0..3 {
        ensure!(e.next().is_none(), "gives characters after its end");
        ensure!(e.size_hint().0 == 0 && e.to_string().is_empty(), "not exhausted after its end");
    }
    Ok(())
}

fn c12_whitespace(s: &mut Src, cx: &mut Ctx) -> R {
    let c = gen::loop_char(s);
    cx.case(&c, || format!("{c:?}"));
    cx.nontrivial_if(c.is_whitespace());
    ensure!(
        sgmlish::text::is_sgml_whitespace(c) == is_ws(c),
        "is_sgml_whitespace({c:?}) = {}",
        sgmlish::text::is_sgml_whitespace(c)
    );
    let e = sgmlish::text::escape(c.encode_utf8(&mut [0; 4])).to_string();
    ensure!(e == escaped(&c.to_string(), true), "{c:?} is escaped as {e:?}");
    Ok(())
}

// ---------------------------------------------------------------- C13

fn some_event(s: &mut Src, n: usize) -> Ev {
    let name = s.pick(&["a", "b", "c"]).to_string();
    match s.below(7) {
        0 => SgmlEvent::OpenStartTag { name: name.into() },
        1 => SgmlEvent::CloseStartTag,
        2 => SgmlEvent::EndTag { name: name.into() },
        3 => SgmlEvent::Attribute {
            name: name.into(),
            value: Some(n.to_string().into()),
        },
        4 => SgmlEvent::ProcessingInstruction(format!("<?{n}>").into()),
        _ => SgmlEvent::Character(n.to_string().into()),
    }
}

#[derive(Clone, Debug, Hash)]
enum Edit {
    Ins(usize, String),
    Del(usize),
}

fn c13_transform(s: &mut Src, cx: &mut Ctx) -> R {
    let many = gen::many(s, 300);
    let n = match many {
        Some(m) if s.coin() => m,
        _ if s.one_in(10) => s.range(0, 80),
        _ => s.range(0, 10),
    };
    let evs: Vec<Ev> = (0..n).map(|i| some_event(s, i)).collect();
    let k = match many {
        Some(m) if n < m || s.coin() => m,
        _ if s.one_in(8) => s.range(0, 60),
        _ => s.range(0, 9),
    };
    let pos = |s: &mut Src| -> usize {
        match s.below(12) {
            0 => n,
            1 => n + s.range(0, 4),
            2 => 0,
            3 => *s.pick(&[usize::MAX, usize::MAX - 1, 1 << 40, 1000]),
            _ => s.range(0, n.max(1) - 1 + 1),
        }
    };
    let focus = pos(s);
    let mut edits = vec![];
    // (all deletions, all insertions, all at one place)
    let skew = if many.is_some() { s.below(4) } else { 3 };
    for i in 0..k {
        let p = if skew == 2 || s.one_in(3) { focus } else { pos(s) };
        if skew == 0 || skew >= 2 && s.below(3) == 0 {
            edits.push(Edit::Del(p));
        } else {
            edits.push(Edit::Ins(p, format!("+{i}")));
        }
    }
    cx.case(&(n, &edits), || format!("{n} events\nedits: {edits:?}"));
    cx.nontrivial_if(edits.len() > 1);
    let ins = |t: &String| SgmlEvent::Character(t.clone().into());
    // The model: before each original event, what was inserted there
    let mut want: Vec<Ev> = vec![];
    for (i, e) in evs.iter().enumerate() {
        for d in &edits {
            if let Edit::Ins(p, t) = d {
                if *p == i {
                    want.push(ins(t));
                }
            }
        }
        if !edits.iter().any(|d| matches!(d, Edit::Del(p) if *p == i)) {
            want.push(e.clone());
        }
    }
    let mut past: Vec<usize> = edits
        .iter()
        .filter_map(|d| match d {
            Edit::Ins(p, _) if *p >= n => Some(*p),
            _ => None,
        })
        .collect();
    past.sort();
    past.dedup();
    cx.label_if(!past.is_empty(), "insertions past the end");
    for q in past {
        for d in &edits {
            if let Edit::Ins(p, t) = d {
                if *p == q {
                    want.push(ins(t));
                }
            }
        }
    }
    let record = |edits: &[Edit], mut t: Transform<'static>| {
        for e in edits {
            match e {
                Edit::Ins(p, x) => t.insert_at(*p, SgmlEvent::Character(x.clone().into())),
                Edit::Del(p) => t.remove_at(*p),
            }
        }
        t
    };
    let f: SgmlFragment<'static> = evs.clone().into();
    let t = record(&edits, Transform::new());
    ensure!(t.is_empty() == edits.is_empty(), "is_empty() with {} edits", edits.len());
    let again = t.clone();
    let got = t.apply(f.clone());
    ensure!(got.as_slice() == want, "{}", diff(got.as_slice(), &want));
    let got2 = again.apply(f.clone());
    ensure!(got2 == got, "a clone of the transform gives another result");
    // Recording in another order, keeping the order at each position
    let mut other = edits.clone();
    for _ in 0..s.range(0, 12) {
        if other.len() < 2 {
            break;
        }
        let i = s.range(0, other.len() - 2);
        let swap = match (&other[i], &other[i + 1]) {
            (Edit::Ins(a, _), Edit::Ins(b, _)) => a != b,
            _ => true,
        };
        if swap {
            other.swap(i, i + 1);
        }
    }
    let got = record(&other, Transform::default()).apply(f.clone());
    ensure!(got.as_slice() == want, "recorded as {other:?}: {}", diff(got.as_slice(), &want));
    ensure!(Transform::new().apply(f.clone()) == f, "an empty transform changes the fragment");
    Ok(())
}

// ---------------------------------------------------------------- C14

/// An element of a properly nested document.
#[derive(Clone, Debug)]
struct El {
    name: String,
    attrs: usize,
    kids: Vec<Kid>,
    xml: bool,
    /// Its end tag is left out
    omit: bool,
}
#[derive(Clone, Debug)]
enum Kid {
    Text(String),
    Other(Ev),
    El(El),
}

fn c14_name(s: &mut Src, plain: bool) -> String {
    if plain || s.below(4) != 0 {
        s.pick(&["a", "b", "c", "A", "d.e"]).to_string()
    } else {
        gen::name(s)
    }
}

fn c14_text(s: &mut Src) -> String {
    match s.below(5) {
        0 => gen::ws1(s, 4),
        1 => format!("{}x{}", gen::ws(s, 2), gen::ws(s, 2)),
        2 => "\u{a0}".to_owned(),
        3 => s.pick(&["text", "é", "0", "[-4:GMT]", "\u{2003}", "\u{c}"]).to_string(),
        _ => "some text".to_owned(),
    }
}

fn c14_el(s: &mut Src, depth: usize, parent: Option<&str>, sections: bool) -> El {
    let name = c14_name(s, false);
    let leaf = depth == 0 || s.below(3) == 0;
    let mut el = El {
        name,
        attrs: match gen::many(s, 1000) {
            Some(m) => m,
            None if s.one_in(3) => s.range(1, 3),
            None => 0,
        },
        kids: vec![],
        xml: false,
        omit: false,
    };
    let many = gen::many(s, 500);
    if leaf {
        if s.one_in(6) {
            el.xml = true;
            return el;
        }
        el.omit = s.below(4) != 0 && parent != Some(&*el.name);
        for _ in 0..many.unwrap_or(s.weighted(&[3, 6, 2, 1])) {
            el.kids.push(Kid::Text(c14_text(s)));
        }
        if s.one_in(6) {
            // Only in between text: where an end tag would go otherwise is not settled
            el.kids.insert(0, Kid::Other(other(s, sections)));
            el.kids.push(Kid::Text("end".into()));
        }
        if el.omit {
            // Trailing whitespace on its own belongs to what follows the element
            while matches!(el.kids.last(), Some(Kid::Text(t)) if refimpl::is_blank(t)) {
                el.kids.pop();
            }
        }
    } else {
        let n = s.range(1, 5);
        for _ in 0..n {
            match s.below(6) {
                0 => el.kids.push(Kid::Text(gen::ws1(s, 3))),
                _ => {
                    let k = c14_el(s, depth - 1, Some(&el.name), sections);
                    let omitted = k.omit;
                    el.kids.push(Kid::El(k));
                    if s.one_in(3) {
                        el.kids.push(Kid::Text(gen::ws1(s, 3)));
                        if s.coin() {
                            el.kids.push(Kid::Text(gen::ws1(s, 1)));
                        }
                    } else if !omitted && s.one_in(4) {
                        el.kids.push(Kid::Text(c14_text(s)));
                        if s.one_in(3) {
                            el.kids.push(Kid::Other(other(s, sections)));
                        }
                    }
                }
            }
        }
        if !el.kids.iter().any(|k| matches!(k, Kid::El(_))) {
            el.kids.push(Kid::El(El {
                name: "kid".into(),
                attrs: 0,
                kids: vec![],
                xml: s.coin(),
                omit: false,
            }));
        }
        match many {
            // (every kid that leaves out its end tag is followed by an element or the parent's end)
            Some(m) if !matches!(el.kids.first(), Some(Kid::Text(_) | Kid::Other(_))) => {
                crate::doc::repeat(&mut el.kids, m);
            }
            Some(m) => {
                for i in 0..m {
                    let name = if i % 2 == 0 { "deep" } else { "down" };
                    let kids = vec![Kid::El(el)];
                    el = El { name: name.into(), attrs: 0, kids, xml: false, omit: false };
                }
            }
            None => {}
        }
    }
    el
}

fn other(s: &mut Src, sections: bool) -> Ev {
    if sections && s.coin() {
        SgmlEvent::MarkedSection {
            status_keywords: "IGNORE".into(),
            section: "</a>".into(),
        }
    } else {
        SgmlEvent::ProcessingInstruction("<?pi>".into())
    }
}

/// The events with tags omitted, and with all tags.
fn c14_events(el: &El, inp: &mut Vec<Ev>, full: &mut Vec<Ev>, omitted: &mut usize) {
    let open = SgmlEvent::OpenStartTag {
        name: el.name.clone().into(),
    };
    inp.push(open.clone());
    full.push(open);
    for i in 0..el.attrs {
        let a = SgmlEvent::Attribute {
            name: format!("k{i}").into(),
            value: Some("v".into()),
        };
        inp.push(a.clone());
        full.push(a);
    }
    let end = SgmlEvent::EndTag {
        name: el.name.clone().into(),
    };
    if el.xml {
        inp.push(SgmlEvent::XmlCloseEmptyElement);
        full.push(SgmlEvent::CloseStartTag);
        full.push(end);
        return;
    }
    inp.push(SgmlEvent::CloseStartTag);
    full.push(SgmlEvent::CloseStartTag);
    for k in &el.kids {
        match k {
            Kid::Text(t) => {
                inp.push(SgmlEvent::Character(t.clone().into()));
                full.push(SgmlEvent::Character(t.clone().into()));
            }
            Kid::Other(e) => {
                inp.push(e.clone());
                full.push(e.clone());
            }
            Kid::El(e) => c14_events(e, inp, full, omitted),
        }
    }
    full.push(end.clone());
    if el.omit {
        *omitted += 1;
    } else {
        inp.push(end);
    }
}

fn c14_tree(s: &mut Src, sections: bool) -> Vec<El> {
    let depth = if s.one_in(20) { 7 } else { s.range(0, 4) };
    let n = if s.one_in(4) { s.range(1, 4) } else { 1 };
    (0..n).map(|_| c14_el(s, depth, None, sections)).collect()
}

fn c14_restores(s: &mut Src, cx: &mut Ctx) -> R {
    let roots = c14_tree(s, true);
    let (mut inp, mut full, mut omitted) = (vec![], vec![], 0);
    if s.one_in(4) {
        let e = SgmlEvent::MarkupDeclaration {
            keyword: "DOCTYPE".into(),
            body: "a".into(),
        };
        inp.push(e.clone());
        full.push(e);
    }
    for r in &roots {
        c14_events(r, &mut inp, &mut full, &mut omitted);
        if s.one_in(3) {
            let e: Ev = SgmlEvent::Character("\n".into());
            inp.push(e.clone());
            full.push(e);
        }
    }
    cx.case(&show(&inp), || format!("events:\n{}", show(&inp)));
    cx.nontrivial_if(inp.len() != full.len());
    cx.label_if(omitted > 1, "several omitted");
    cx.label_if(inp.contains(&SgmlEvent::XmlCloseEmptyElement), "xml close");
    let got = match normalize_end_tags(SgmlFragment::from(inp.clone())) {
        Ok(g) => g,
        Err(e) => return fail(format!("refused: {e}\nevents:\n{}", show(&inp))),
    };
    ensure!(
        got.as_slice() == full,
        "{}\nevents:\n{}",
        diff(got.as_slice(), &full),
        show(&inp)
    );
    let got = normalize_end_tags(SgmlFragment::from(full.clone()));
    ensure!(
        got.as_ref().map(|g| g.as_slice()) == Ok(&full),
        "a document with nothing omitted is changed: {got:?}"
    );
    Ok(())
}

/// As source text: with the tags left out, and with all of them.
fn c14_write(el: &El, short: &mut String, long: &mut String, pretty: bool) {
    let mut t = format!("<{}", el.name);
    for i in 0..el.attrs {
        t.push_str(&format!(" k{i}=\"v\""));
    }
    short.push_str(&t);
    long.push_str(&t);
    if el.xml {
        short.push_str("/>");
        long.push_str(&format!("></{}>", el.name));
        return;
    }
    short.push('>');
    long.push('>');
    for k in &el.kids {
        match k {
            Kid::Text(t) => {
                short.push_str(t);
                long.push_str(t);
            }
            Kid::Other(e) => {
                short.push_str(&e.to_string());
                long.push_str(&e.to_string());
            }
            Kid::El(e) => {
                if pretty {
                    short.push_str("\n  ");
                    long.push_str("\n  ");
                }
                c14_write(e, short, long, pretty);
            }
        }
    }
    long.push_str(&format!("</{}>", el.name));
    if !el.omit {
        short.push_str(&format!("</{}>", el.name));
    }
}

fn c14_source(s: &mut Src, cx: &mut Ctx) -> R {
    let roots = c14_tree(s, false);
    let pretty = s.coin();
    let (mut short, mut long) = (String::new(), String::new());
    for r in &roots {
        c14_write(r, &mut short, &mut long, pretty);
    }
    let norm = s.below(3) as u8;
    let cfg = Cfg {
        ms: 1,
        norm: if norm == 2 { 0 } else { norm },
        ..Cfg::default()
    };
    cx.case(&(&short, &cfg), || format!("{}\nin full: {long:?}", show_case(&cfg, &short)));
    cx.nontrivial_if(short != long);
    if cfg.norm != 0 {
        // Names that only differ in case could become a parent's name
        let same = |a: &str, b: &str| a != b && a.to_lowercase() == b.to_lowercase();
        fn clash(e: &El, same: &dyn Fn(&str, &str) -> bool) -> bool {
            e.kids.iter().any(|k| match k {
                Kid::El(k) => (k.omit && same(&k.name, &e.name)) || clash(k, same),
                _ => false,
            })
        }
        assume!(!roots.iter().any(|r| clash(r, &same)));
    }
    let p = cfg.build();
    let (a, b) = match (p.parse(&short), p.parse(&long)) {
        (Ok(a), Ok(b)) => (a, b),
        (a, b) => return fail(format!("rejected: {:?} / {:?}", a.err(), b.err())),
    };
    let a = match normalize_end_tags(a) {
        Ok(a) => a,
        Err(e) => return fail(format!("refused: {e}")),
    };
    ensure!(a == b, "{}", diff(a.as_slice(), b.as_slice()));
    Ok(())
}

// ---------------------------------------------------------------- C15

/// Pairs each end tag with the nearest start tag of its name that is still open, taking those in
/// between as left without end tag; returns the names of the end tags without a start.
fn unpaired_forward(evs: &[Ev]) -> Vec<String> {
    let mut open: Vec<String> = vec![];
    let mut out = vec![];
    for e in evs {
        match e {
            SgmlEvent::OpenStartTag { name } => open.push(name.to_string()),
            SgmlEvent::XmlCloseEmptyElement => {
                open.pop();
            }
            SgmlEvent::EndTag { name } => match open.iter().rposition(|o| o == name) {
                Some(i) => open.truncate(i),
                None => out.push(name.to_string()),
            },
            _ => {}
        }
    }
    out
}

fn unpaired_backward(evs: &[Ev]) -> Vec<String> {
    let mut open: Vec<String> = vec![];
    let mut xml = false;
    for e in evs.iter().rev() {
        match e {
            SgmlEvent::EndTag { name } => open.push(name.to_string()),
            SgmlEvent::XmlCloseEmptyElement => xml = true,
            SgmlEvent::OpenStartTag { name } => {
                if !xml && open.last().map_or(false, |o| o == name) {
                    open.pop();
                }
                xml = false;
            }
            _ => {}
        }
    }
    open
}

fn nested(evs: &[Ev]) -> Result<(), String> {
    let mut open: Vec<&str> = vec![];
    for e in evs {
        match e {
            SgmlEvent::OpenStartTag { name } => open.push(name),
            SgmlEvent::XmlCloseEmptyElement => return Err("a /> is left".into()),
            SgmlEvent::EndTag { name } => match open.pop() {
                Some(o) if o == name => {}
                o => return Err(format!("end tag {name:?} where {o:?} is open")),
            },
            _ => {}
        }
    }
    match open.last() {
        Some(o) => Err(format!("{o:?} is never closed")),
        None => Ok(()),
    }
}

fn c15_fragment(s: &mut Src) -> Vec<Ev> {
    let mut evs: Vec<Ev> = vec![];
    let names = ["a", "b", "A", "c"];
    let k = s.range(1, 4);
    let few = &names[..k];
    let many = gen::many(s, 500);
    let n = match many {
        Some(m) => m,
        None if s.one_in(12) => s.range(1, 60),
        None => s.range(1, 12),
    };
    // (many of a kind, all of them nested or all of them unpaired among them)
    let w = match many {
        Some(_) => *s.pick(&[[8, 7, 6, 1, 1], [20, 1, 1, 0, 0], [1, 20, 1, 0, 0], [1, 1, 30, 0, 0], [1, 1, 1, 30, 30]]),
        None => [8, 7, 6, 1, 1],
    };
    let empty = s.one_in(8);
    for _ in 0..n {
        match s.weighted(&w) {
            0 => {
                let name = if empty && s.one_in(6) { "" } else { *s.pick(few) };
                evs.push(SgmlEvent::OpenStartTag { name: name.into() });
                if s.one_in(6) && !name.is_empty() {
                    evs.push(SgmlEvent::Attribute {
                        name: "k".into(),
                        value: None,
                    });
                }
                evs.push(if s.one_in(5) && !name.is_empty() {
                    SgmlEvent::XmlCloseEmptyElement
                } else {
                    SgmlEvent::CloseStartTag
                });
            }
            1 => {
                let name = if empty && s.one_in(6) { "" } else { *s.pick(few) };
                evs.push(SgmlEvent::EndTag { name: name.into() });
            }
            2 => evs.push(SgmlEvent::Character(s.pick(&["x", " ", "\n", "", "y "]).to_string().into())),
            3 => evs.push(other(s, true)),
            _ => evs.push(SgmlEvent::MarkupDeclaration {
                keyword: "D".into(),
                body: "x".into(),
            }),
        }
    }
    evs
}

fn c15_check(evs: &[Ev], cx: &mut Ctx) -> R {
    let has_empty = evs.iter().any(|e| {
        matches!(e, SgmlEvent::OpenStartTag { name } | SgmlEvent::EndTag { name } if name.is_empty())
    });
    let unpaired = unpaired_forward(evs);
    match normalize_end_tags(SgmlFragment::from(evs.to_vec())) {
        Err(NormalizationError::EmptyTagNotSupported) => {
            cx.label("empty tag");
            ensure!(has_empty, "refused for an empty tag, but there is none:\n{}", show(evs));
        }
        Err(NormalizationError::UnpairedEndTag(n)) => {
            cx.label("unpaired");
            ensure!(
                !unpaired.is_empty(),
                "refused for end tag {n:?}, but all end tags pair:\n{}",
                show(evs)
            );
            let mut names = unpaired;
            names.extend(unpaired_backward(evs));
            ensure!(names.contains(&n), "names {n:?}, which pairs; unpaired are {names:?}\n{}", show(evs));
            let m = NormalizationError::UnpairedEndTag(n.clone()).to_string();
            ensure!(m.contains(&n), "message {m:?} does not name {n:?}");
        }
        Ok(f) => {
            let out = owned(f.as_slice());
            ensure!(!has_empty, "an empty tag was accepted:\n{}", show(evs));
            ensure!(
                unpaired.is_empty(),
                "accepted, but {unpaired:?} have no start tag:\n{}\nresult:\n{}",
                show(evs),
                show(&out)
            );
            if let Err(e) = nested(&out) {
                return fail(format!("not nested ({e}):\n{}\nfrom\n{}", show(&out), show(evs)));
            }
            // Only end tags were added
            let mut inp = evs.iter().peekable();
            let mut added = 0;
            for o in &out {
                let same = inp.peek().map_or(false, |i| {
                    *i == o || (**i == SgmlEvent::XmlCloseEmptyElement && *o == SgmlEvent::CloseStartTag)
                });
                if same {
                    inp.next();
                } else {
                    added += 1;
                    ensure!(
                        matches!(o, SgmlEvent::EndTag { .. }),
                        "{o:?} was added:\n{}\nfrom\n{}",
                        show(&out),
                        show(evs)
                    );
                }
            }
            if let Some(i) = inp.next() {
                return fail(format!("{i:?} was lost or moved:\n{}\nfrom\n{}", show(&out), show(evs)));
            }
            cx.label_if(added > 0, "end tags added");
            cx.label_if(added == 0, "unchanged");
            let again = normalize_end_tags(f.clone());
            ensure!(again.as_ref() == Ok(&f), "normalizing again gives {again:?}");
        }
    }
    Ok(())
}

fn c15_events(s: &mut Src, cx: &mut Ctx) -> R {
    let evs = c15_fragment(s);
    cx.case(&show(&evs), || format!("events:\n{}", show(&evs)));
    cx.nontrivial_if(evs.len() > 3);
    c15_check(&evs, cx)
}

fn c15_parsed(s: &mut Src, cx: &mut Ctx) -> R {
    let cfg = gen::cfg(s);
    let src = if s.coin() {
        doc::soup(s)
    } else {
        let empty_tags = s.one_in(6);
        let d = doc::doc(s, &cfg, &Opts { empty_tags, ..Opts::default() });
        doc::render(&d)
    };
    cx.case(&(&src, &cfg), || show_case(&cfg, &src));
    let Ok(evs) = events(&cfg, &src) else {
        return Err(Stop::Discard);
    };
    cx.nontrivial_if(evs.len() > 3);
    c15_check(&evs, cx)
}

// ---------------------------------------------------------------- C25

fn borrows(c: &Cow<str>, src: &str) -> bool {
    matches!(c, Cow::Borrowed(t) if t.is_empty() || within(src, t))
}

/// For each name, value and text of the document, in order, whether it has to borrow.
fn must_borrow(items: &[Item], cfg: &Cfg, out: &mut Vec<(&'static str, bool)>) {
    let name = |n: &str| refimpl::norm_name(n, cfg.norm) == n;
    let text = |t: &str| {
        let t = if cfg.trim { refimpl::trim(t) } else { t };
        !t.contains('&')
    };
    for i in items {
        match i {
            Item::Open { name: n, attrs, .. } => {
                out.push(("name", name(n)));
                for a in attrs {
                    out.push(("attribute name", name(&a.name)));
                    match &a.val {
                        Val::None => {}
                        Val::Bare(_) => out.push(("unquoted value", true)),
                        Val::Quoted(_, v) => out.push(("quoted value", !v.contains('&'))),
                    }
                }
            }
            Item::End { name: n, .. } => out.push(("end tag name", name(n))),
            Item::EmptyStart | Item::EmptyEnd => out.push(("empty name", false)),
            Item::Text(t) => {
                let u = if cfg.trim { refimpl::trim(t) } else { t };
                if !u.is_empty() {
                    out.push(("text", text(t)));
                }
            }
            Item::Section(sec) => {
                let st = refimpl::expand_keywords(&sec.kw, cfg)
                    .ok()
                    .and_then(|k| refimpl::status(&k).ok());
                match (st, &sec.body) {
                    (Some(Status::Include), Body::Items(it)) => must_borrow(it, cfg, out),
                    (Some(Status::CData | Status::RcData), Body::Raw(t)) => {
                        out.push(("section text", text(t)))
                    }
                    _ => {}
                }
            }
            _ => {}
        }
    }
}

fn all_owned(e: &Ev, src: &str) -> bool {
    let o = |c: &Cow<str>| matches!(c, Cow::Owned(t) if t.is_empty() || !within(src, t));
    match e {
        SgmlEvent::MarkupDeclaration { keyword, body } => o(keyword) && o(body),
        SgmlEvent::ProcessingInstruction(t) | SgmlEvent::Character(t) => o(t),
        SgmlEvent::MarkedSection {
            status_keywords,
            section,
        } => o(status_keywords) && o(section),
        SgmlEvent::OpenStartTag { name } | SgmlEvent::EndTag { name } => o(name),
        SgmlEvent::Attribute { name, value } => o(name) && value.as_ref().map_or(true, o),
        SgmlEvent::CloseStartTag | SgmlEvent::XmlCloseEmptyElement => true,
    }
}

fn c25_borrow(s: &mut Src, cx: &mut Ctx) -> R {
    let mut cfg = gen::cfg(s);
    if cfg.ms == 2 {
        cfg.ms = 1;
    }
    let o = Opts {
        refs: s.coin(),
        ..Opts::default()
    };
    let d = doc::doc(s, &cfg, &o);
    let src = doc::render(&d);
    cx.case(&(&src, &cfg), || show_case(&cfg, &src));
    let f = match cfg.build().parse(&src) {
        Ok(f) => f,
        Err(e) => return fail(format!("rejected: {e}")),
    };
    let mut want = vec![];
    must_borrow(&d.prolog, &cfg, &mut want);
    must_borrow(&d.items, &cfg, &mut want);
    let mut got: Vec<(&Cow<str>, bool)> = vec![];
    for e in &f {
        match e {
            SgmlEvent::OpenStartTag { name } | SgmlEvent::EndTag { name } => got.push((name, true)),
            SgmlEvent::Attribute { name, value } => {
                got.push((name, true));
                if let Some(v) = value {
                    got.push((v, false));
                }
            }
            SgmlEvent::Character(t) => got.push((t, false)),
            _ => {}
        }
    }
    ensure!(got.len() == want.len(), "{} names, values and texts, expected {}", got.len(), want.len());
    let mut n = 0;
    for ((c, _), (what, must)) in got.iter().zip(&want) {
        if *must {
            n += 1;
            cx.label(what);
            ensure!(borrows(c, &src), "{what} {c:?} does not borrow from the input");
        }
        if let Cow::Borrowed(t) = c {
            ensure!(t.is_empty() || within(&src, t), "{what} {t:?} borrows from elsewhere");
        }
    }
    cx.nontrivial_if(n > 2);
    c25_detach(&f, &src)
}

fn c25_detach<'a>(f: &SgmlFragment<'a>, src: &str) -> R {
    let own = f.clone().into_owned();
    ensure!(own.len() == f.len(), "detaching changes the number of events");
    for (o, e) in own.iter().zip(f) {
        ensure!(o == e, "detached {e:?} is {o:?}");
        ensure!(all_owned(o, src), "detached {o:?} still borrows");
        let one = e.clone().into_owned();
        ensure!(one == *e && all_owned(&one, src), "detached event {e:?} is {one:?}");
    }
    ensure!(own == *f && *f == own, "a detached fragment is not equal to its origin");
    ensure!(own.to_string() == f.to_string(), "a detached fragment is formatted differently");
    Ok(())
}

fn c25_views(s: &mut Src, cx: &mut Ctx) -> R {
    let cfg = gen::cfg(s);
    let src = match s.below(3) {
        0 => doc::soup(s),
        _ => doc::render(&doc::doc(s, &cfg, &Opts::default())),
    };
    cx.case(&(&src, &cfg), || show_case(&cfg, &src));
    let Ok(f) = cfg.build().parse(&src) else {
        return Err(Stop::Discard);
    };
    cx.nontrivial_if(f.len() > 3);
    c25_detach(&f, &src)?;
    let v: Vec<SgmlEvent> = f.clone().into_vec();
    ensure!(f.len() == v.len(), "len() is {}, into_vec() has {}", f.len(), v.len());
    ensure!(f.as_slice() == &v[..], "as_slice() differs from into_vec()");
    ensure!(f.iter().eq(v.iter()), "iter() differs from into_vec()");
    ensure!((&f).into_iter().eq(v.iter()), "(&fragment).into_iter() differs");
    ensure!(f.clone().into_iter().eq(v.iter().cloned()), "into_iter() differs");
    ensure!(f.iter().len() == v.len(), "iter().len() differs");
    ensure!(f.iter().rev().eq(v.iter().rev()), "iter().rev() differs");
    ensure!(f.clone().into_iter().rev().eq(v.iter().rev().cloned()), "into_iter().rev() differs");
    ensure!(SgmlFragment::from(v.clone()) == f, "from(into_vec()) differs");
    let mut m = f.clone();
    ensure!(m.iter_mut().map(|e| &*e).eq(v.iter()), "iter_mut() differs");
    let k = s.us(v.len());
    let e = some_event(s, 99);
    for (i, x) in (&mut m).into_iter().enumerate() {
        if i == k {
            *x = e.clone();
        }
    }
    let mut w = v.clone();
    w[k] = e;
    ensure!(m.as_slice() == &w[..], "a change through iter_mut() is not seen");
    ensure!((m == f) == (w == v), "equality disagrees with that of the events");
    let text: String = f
        .iter()
        .map(|e| {
            let sp = if matches!(e, SgmlEvent::Attribute { .. }) { " " } else { "" };
            format!("{sp}{e}")
        })
        .collect();
    ensure!(text == f.to_string(), "formatting differs from that of its events");
    Ok(())
}

#[derive(serde::Deserialize, Debug, PartialEq)]
struct BorrowAttr<'a> {
    #[serde(borrow)]
    k: &'a str,
    #[serde(borrow)]
    v: &'a str,
    #[serde(rename = "$value", borrow)]
    text: &'a str,
}
#[derive(serde::Deserialize, Debug, PartialEq)]
struct BorrowKid<'a> {
    #[serde(borrow)]
    k: &'a str,
    #[serde(borrow)]
    kid: &'a str,
    #[serde(borrow)]
    list: Vec<&'a str>,
    #[serde(borrow)]
    opt: Option<&'a str>,
    #[serde(borrow)]
    inner: BorrowAttr<'a>,
}
#[derive(serde::Deserialize, Debug, PartialEq)]
struct OwnAttr {
    k: String,
    v: String,
    #[serde(rename = "$value")]
    text: String,
}
#[derive(serde::Deserialize, Debug, PartialEq)]
struct OwnKid {
    k: String,
    kid: String,
    list: Vec<String>,
    opt: Option<String>,
    inner: OwnAttr,
}

fn c25_deserialize(s: &mut Src, cx: &mut Ctx) -> R {
    let text = |s: &mut Src| -> String {
        let t: String = gen::any_string(s, 60)
            .chars()
            .filter(|c| *c != '&')
            .collect();
        let t = doc::safe_text(&t, true);
        let t = refimpl::trim(&t);
        if t.is_empty() || t.contains('&') {
            "plain".into()
        } else {
            t.to_owned()
        }
    };
    let value = |s: &mut Src| -> (String, String) {
        let t: String = gen::any_string(s, 40)
            .chars()
            .filter(|c| !"&\"'".contains(*c))
            .collect();
        match s.below(3) {
            0 if !t.is_empty() && !t.contains(|c| is_ws(c) || c == '>' || c == '/') => (t.clone(), t),
            1 => (format!("'{t}'"), t),
            _ => (format!("\"{t}\""), t),
        }
    };
    let leaf = |s: &mut Src, t: &str| -> String {
        match s.below(4) {
            0 if !t.contains("]]>") => format!("<![CDATA[{t}]]>"),
            1 if !t.contains("]]>") => format!("\n <![RCDATA[{t}]]> "),
            2 => format!("\n\t{t} "),
            _ => t.to_owned(),
        }
    };
    let (a, at) = value(s);
    let (b, bt) = value(s);
    let (c, ct) = value(s);
    let n = s.range(0, 3);
    let list: Vec<String> = (0..n).map(|_| text(s)).collect();
    let kid = text(s);
    let opt = if s.coin() { Some(text(s)) } else { None };
    let inner = text(s);
    let mut src = format!("<r k={a}><kid>{}</kid>", leaf(s, &kid));
    for l in &list {
        src.push_str(&format!("<list>{}</list>", leaf(s, l)));
    }
    // An absent sequence is an error; give it one item
    let list = if list.is_empty() {
        src.push_str("<list>x</list>");
        vec!["x".to_owned()]
    } else {
        list
    };
    if let Some(o) = &opt {
        src.push_str(&format!("<opt>{}</opt>", leaf(s, o)));
    }
    src.push_str(&format!("<inner k={b} v={c}>{}</inner></r>", leaf(s, &inner)));
    cx.case(&src, || format!("input: {src:?}"));
    cx.nontrivial = true;
    let f = match sgmlish::parse(&src) {
        Ok(f) => f,
        Err(e) => return fail(format!("rejected: {e}")),
    };
    let own: OwnKid = match sgmlish::from_fragment(f.clone()) {
        Ok(x) => x,
        Err(e) => return fail(format!("owned strings: {e}")),
    };
    let want = OwnKid {
        k: at,
        kid,
        list,
        opt,
        inner: OwnAttr {
            k: bt,
            v: ct,
            text: inner,
        },
    };
    ensure!(own == want, "owned strings: {own:?}, expected {want:?}");
    let own2: OwnKid = match f.clone().into_owned().deserialize() {
        Ok(x) => x,
        Err(e) => return fail(format!("from a detached fragment: {e}")),
    };
    ensure!(own2 == want, "from a detached fragment: {own2:?}, expected {want:?}");
    let b: BorrowKid = match f.deserialize() {
        Ok(x) => x,
        Err(e) => return fail(format!("borrowed strings: {e}")),
    };
    let mut parts = vec![b.k, b.kid, b.inner.k, b.inner.v, b.inner.text];
    parts.extend(&b.list);
    parts.extend(b.opt);
    for p in parts {
        ensure!(p.is_empty() || within(&src, p), "{p:?} does not point into the input");
    }
    let same = b.k == want.k
        && b.kid == want.kid
        && b.list == want.list
        && b.opt == want.opt.as_deref()
        && b.inner.k == want.inner.k
        && b.inner.v == want.inner.v
        && b.inner.text == want.inner.text;
    ensure!(same, "borrowed strings: {b:?}, expected {want:?}");
    Ok(())
}

// ---------------------------------------------------------------- C26

#[derive(Clone, Debug, PartialEq)]
struct Loc<'a> {
    line: &'a str,
    number: usize,
    /// Characters before it on the line
    col: usize,
}

fn locate<'a>(src: &'a str, at: usize) -> Loc<'a> {
    let mut start = 0;
    let mut number = 1;
    for (i, b) in src.bytes().enumerate() {
        if i >= at {
            break;
        }
        if b == b'\n' {
            start = i + 1;
            number += 1;
        }
    }
    let line = match src[start..].find('\n') {
        Some(n) => {
            let l = &src[start..start + n];
            l.strip_suffix('\r').unwrap_or(l)
        }
        None => &src[start..],
    };
    Loc {
        line,
        number,
        col: src[start..at].chars().count(),
    }
}

/// An excerpt and its caret line against the place they have to show.
fn check_excerpt(excerpt: &str, caret: &str, loc: &Loc) -> Result<(), String> {
    let dots = |x: &[char]| x.len() >= 3 && x[..3].iter().all(|c| *c == '.');
    let line: Vec<char> = loc.line.chars().collect();
    let ex: Vec<char> = excerpt.chars().collect();
    let pad = caret.trim_start_matches(' ');
    if pad != "^" {
        return Err(format!("caret line {caret:?}"));
    }
    let k = caret.len() - 1; // position under which the caret stands
    if k > loc.col {
        return Err(format!(
            "caret under character {k} of the excerpt {excerpt:?}, beyond character {} of line {:?}",
            loc.col, loc.line
        ));
    }
    let shift = loc.col - k;
    let lead = if shift > 0 { 3 } else { 0 };
    if shift > 0 && !dots(&ex) {
        return Err(format!("excerpt {excerpt:?} is not a part of line {:?} with the caret under character {}", loc.line, loc.col));
    }
    if ex.len() > 80 {
        return Err(format!("excerpt of {} characters", ex.len()));
    }
    let from = shift + lead;
    if from > line.len() {
        return Err(format!("excerpt {excerpt:?} of line {:?}", loc.line));
    }
    // Either up to the end of the line, or cut
    let whole = ex[lead..] == line[from..];
    let tail = ex.len() >= lead + 3 && {
        let (b, t) = ex.split_at(ex.len() - 3);
        dots(t) && line[from..].starts_with(&b[lead..]) && b.len() - lead < line[from..].len()
    };
    if !whole && !tail {
        return Err(format!(
            "excerpt {excerpt:?} with the caret under {k} does not show character {} of line {:?}",
            loc.col, loc.line
        ));
    }
    // (between CR and LF is two past the last character)
    if line.len().max(loc.col) < 40 && !(whole && shift == 0) {
        return Err(format!("the short line {:?} is shown as {excerpt:?}", loc.line));
    }
    if whole && shift == 0 {
        return Ok(());
    }
    // The character itself is in view
    if k < lead || (!whole && k + 3 >= ex.len()) {
        return Err(format!("the caret is under the ellipsis of {excerpt:?} (position {k})"));
    }
    Ok(())
}

fn check_message(src: &str, e: &ContextualizedError<&str>, msg: &str) -> Result<(), String> {
    if src.is_empty() {
        return if msg.contains("empty") { Ok(()) } else { Err("empty input".into()) };
    }
    if !within(src, e.input) {
        return Err("the error's input is not a part of the source".into());
    }
    let off = |t: &str| t.as_ptr() as usize - src.as_ptr() as usize;
    let here = locate(src, off(e.input));
    let mut ctxs = vec![];
    for (t, c) in &e.context {
        if !within(src, t) {
            return Err(format!("context {c} is not a part of the source"));
        }
        ctxs.push((locate(src, off(t)), *c));
    }
    // Header
    let mut rest = msg.strip_prefix("parse error ").ok_or("no header")?;
    let mut ctxs = &ctxs[..];
    if let Some((l, c)) = ctxs.first() {
        if *l == here {
            rest = rest
                .strip_prefix(&format!("in {c}, "))
                .ok_or(format!("context {c} is not named"))?;
            ctxs = &ctxs[1..];
        }
    }
    rest = rest
        .strip_prefix(&format!("at line {}:", here.number))
        .ok_or(format!("line number: {rest:?}, expected line {}", here.number))?;
    if let Some(err) = &e.error {
        rest = rest
            .strip_prefix(&format!(" {err}"))
            .ok_or(format!("the error {err} is not given"))?;
    }
    let (head, mut rest) = rest.split_once('\n').ok_or("no excerpt")?;
    match e.char {
        Some(c) => {
            let got = match e.input.chars().next() {
                None => "end of input".to_owned(),
                Some(' ' | '\t') => "whitespace".to_owned(),
                Some('\r' | '\n') => "end of line".to_owned(),
                Some(c) => format!("'{}'", c.escape_default()),
            };
            if head != format!(" expected '{c}', got {got}") {
                return Err(format!("{head:?}, where {c:?} was expected and there is {got}"));
            }
        }
        None if !head.is_empty() => return Err(format!("unexplained {head:?}")),
        None => {}
    }
    let mut excerpt = |rest: &mut &str, loc: &Loc| -> Result<(), String> {
        let (a, r) = rest.split_once('\n').ok_or("no caret")?;
        let (b, r) = r.split_once('\n').unwrap_or((r, ""));
        *rest = r;
        check_excerpt(a, b, loc)
    };
    excerpt(&mut rest, &here)?;
    let mut last = here;
    for (l, c) in ctxs {
        if *l == last {
            continue;
        }
        let same = if l.number == last.number { "the same " } else { "" };
        let want = format!("From {c}, started at {same}line {}:\n", l.number);
        rest = rest
            .strip_prefix(&want)
            .ok_or(format!("expected {want:?} at {rest:?}"))?;
        excerpt(&mut rest, l).map_err(|m| format!("in context {c}: {m}"))?;
        last = l.clone();
    }
    if !rest.is_empty() {
        return Err(format!("left over: {rest:?}"));
    }
    Ok(())
}

/// Puts what is wrong somewhere on a line of its own, after other lines, or far into a long line.
fn surround(s: &mut Src, src: &str) -> String {
    let run = |s: &mut Src| -> String {
        let n = *s.pick(&[0usize, 1, 5, 30, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 60, 76, 77, 78, 79, 80, 81, 100, 150, 400]);
        let cs = ['x', *s.pick(&gen::LETTERS), '😀', 'é'];
        let few = s.range(1, 4);
        (0..n).map(|_| *s.pick(&cs[..few])).collect()
    };
    let mut t = String::new();
    for _ in 0..s.size(6) {
        t.push_str(&run(s));
        t.push_str(s.pick(&["\n", "\r\n", "\n\n", "\n"]));
    }
    let pre = run(s);
    let post = run(s);
    // Text that needs to be content, not prolog
    format!("<r>{t}{pre}{src}{}{post}", s.pick(&["", "", "\n", "\r\n"]))
}

fn c26_messages(s: &mut Src, cx: &mut Ctx) -> R {
    let cfg = gen::cfg(s);
    let src = match s.below(5) {
        0 => doc::soup(s),
        1 => gen::any_string(s, 600),
        _ => {
            let o = Opts { max_items: 5, invalid: s.coin(), ..Opts::default() };
            let t = doc::render(&doc::doc(s, &cfg, &o));
            if s.coin() {
                doc::mutate(s, &t)
            } else {
                t
            }
        }
    };
    let src = if s.below(3) != 0 { surround(s, &src) } else { src };
    cx.case(&(&src, &cfg), || show_case(&cfg, &src));
    let p = cfg.build();
    let e = match p.parse_with_detailed_errors::<ContextualizedError<&str>>(&src) {
        Err(e) => e,
        Ok(_) => return Err(Stop::Discard),
    };
    let input: &str = &src;
    let msg = e.describe(&input);
    cx.nontrivial = true;
    if cx.verbose {
        cx.shown.push_str(&format!("\nmessage: {msg}"));
    }
    if let Err(m) = check_message(&src, &e, &msg) {
        return fail(format!("{m}\nmessage:\n{msg}"));
    }
    gen::cut_short(s, &msg, |w| e.describe_to(&input, w))?;
    match p.parse(&src) {
        Err(e) => ensure!(e.to_string() == msg, "parse gives another message:\n{e}\nexpected\n{msg}"),
        Ok(_) => return fail("parse accepts it"),
    }
    // What the location is about
    if src.contains('\u{c}') && src.contains("<![") {
        return Ok(());
    }
    let off = e.input.as_ptr() as usize - src.as_ptr() as usize;
    if src.is_empty() {
        return Ok(());
    }
    match refimpl::parse(&src, &cfg) {
        Err(r) => match r.why {
            Why::Undefined(name) => {
                cx.label("undefined reference");
                ensure!(
                    off == r.pos,
                    "undefined {name:?} at byte {} is located at byte {off}:\n{msg}",
                    r.pos
                );
                ensure!(msg.contains(&name), "undefined {name:?} is not named:\n{msg}");
            }
            Why::Keyword => {
                cx.label("invalid keyword");
                // (nothing but blanks is as good as at any of them)
                let first = src[..r.pos].trim_end().len();
                let first = if r.pos == r.end { first } else { r.pos };
                ensure!(
                    first <= off && off <= r.end,
                    "invalid keyword in {:?} (byte {}) is located at byte {off}:\n{msg}",
                    &src[r.pos..r.end],
                    r.pos
                );
                let kws = refimpl::expand_keywords(&src[r.pos..r.end], &cfg).unwrap_or_default();
                if let Err(k) = refimpl::status_for(&kws, cfg.ms) {
                    ensure!(msg.contains(&k), "invalid keyword {k:?} is not named:\n{msg}");
                    // At the keyword itself, when it is written out
                    let raw = &src[r.pos..r.end];
                    if !raw.contains('%') && cfg.ms != 0 {
                        let i = raw.split_ascii_whitespace().position(|w| w == k).unwrap();
                        let word = raw.split_ascii_whitespace().nth(i).unwrap();
                        let want = word.as_ptr() as usize - src.as_ptr() as usize;
                        ensure!(
                            off == want,
                            "invalid keyword {k:?} of {raw:?} is located at {:?}:\n{msg}",
                            &src[off..r.end]
                        );
                    }
                }
            }
            Why::Syntax => cx.label("syntax"),
        },
        Ok(_) => return fail("rejected, but well formed"),
    }
    Ok(())
}

/// Errors made by other matchers than the crate's.
fn c26_made(s: &mut Src, cx: &mut Ctx) -> R {
    use nom::error::{ContextError, ErrorKind, FromExternalError, ParseError};
    type E<'a> = ContextualizedError<&'a str>;
    const NAMES: [&str; 4] = ["this", "that", "\u{e9}l\u{e9}ment", "this"];
    let inner = gen::any_string(s, 30);
    let src = surround(s, &inner);
    let bounds: Vec<usize> = src.char_indices().map(|(i, _)| i).chain([src.len()]).collect();
    let few: Vec<usize> = (0..s.range(1, 5)).map(|_| *s.pick(&bounds)).collect();
    let at = *s.pick(&few);
    let mut e: E = match s.below(4) {
        0 => E::from_error_kind(&src[at..], ErrorKind::Tag),
        1 => E::from_char(&src[at..], *s.pick(&['>', '[', '\'', '日'])),
        2 => E::or(E::from_char(&src[*s.pick(&few)..], '<'), E::from_char(&src[at..], '>')),
        _ => E::from_external_error(
            &src[at..],
            ErrorKind::MapRes,
            sgmlish::Error::EntityError(sgmlish::entities::EntityError { entity: "&x".into(), position: 0..2 }),
        ),
    };
    let list: Vec<(usize, &str)> = (0..s.size(6)).map(|_| (*s.pick(&few), *s.pick(&NAMES))).collect();
    for (at, name) in &list {
        if s.one_in(4) {
            e = E::append(&src[*at..], ErrorKind::Alt, e);
        }
        e = E::add_context(&src[*at..], *name, e);
    }
    cx.case(&(&src, at, &list), || format!("text: {src:?}\nerror at byte {at}, {:?}, {:?}; contexts {list:?}", e.char, e.error));
    cx.nontrivial_if(list.len() > 1);
    let off = |t: &str| t.as_ptr() as usize - src.as_ptr() as usize;
    ensure!(
        off(e.input) == at && e.context.iter().map(|(t, c)| (off(t), *c)).eq(list.iter().copied()),
        "the error is {e:?}"
    );
    let input: &str = &src;
    let msg = e.describe(&input);
    if let Err(m) = check_message(&src, &e, &msg) {
        return fail(format!("{m}\nmessage:\n{msg}"));
    }
    gen::cut_short(s, &msg, |w| e.describe_to(&input, w))
}

/// A single thing wrong at a known place.
fn c26_places(s: &mut Src, cx: &mut Ctx) -> R {
    // What is written, where in it the error is (from, to), what was expected
    // What is not terminated can be told only at the end of the input
    const POINTS: [(&str, usize, &str); 16] = [
        ("<b c=>", 5, ""),
        ("<b c= >", 6, ""),
        ("<b c=\n>", 6, ""),
        ("<b \"x\">", 3, "'>'"),
        ("<b =x>", 3, "'>'"),
        ("<b c=d\"e\">", 6, "'>'"),
        ("<b c <d>", 5, "'>'"),
        ("<b / >", 3, "'>'"),
        ("</b c>", 4, "'>'"),
        ("</b\n<c>", 4, "'>'"),
        ("</b/>", 3, "'>'"),
        ("<!-x>", 2, "'>'"),
        ("<!-- x -- >", 9, "'>'"),
        ("<!-- x --y>", 9, "'>'"),
        ("<![CDATA>", 8, "'['"),
        ("<![CDATA<", 8, "'['"),
    ];
    const OPEN: [(&str, &str); 17] = [
        ("<b c=\"x", "'\"'"),
        ("<b c='x>", "'''"),
        ("<!-- x", "'-'"),
        ("<!-- x -", "'-'"),
        ("<!-- x --", "'>'"),
        ("<?pi", "'>'"),
        ("<![CDATA[x", "']'"),
        ("<![CDATA[x]]", "'>'"),
        ("<![RCDATA[x]", "']'"),
        ("<![RCDATA[x]]]", "'>'"),
        ("<![CDATA[x]>", "']'"),
        ("<![CDATA", "'['"),
        ("<b", "'>'"),
        ("</b", "'>'"),
        ("<b c", "'>'"),
        ("<!x", ""),
        ("<!x [", ""),
    ];
    let before = *s.pick(&["", "<x a=1>", "t<x/> u", "<!-- c -->é", "<x\na='>'>\n", "日本 &#65; ", "<?p>\r\n", "<![CDATA[\n\n]]>"]);
    let pad: String = {
        let n = s.range(0, 90);
        let c = *s.pick(&['x', 'é', '日', '😀', ' ']);
        std::iter::repeat(c).take(n).collect()
    };
    let nl = *s.pick(&["", "\n", "\r\n", "\n\n\n"]);
    let head = format!("<r>{before}{nl}{pad}");
    let cfg = Cfg {
        trim: s.coin(),
        ms: if s.coin() { 0 } else { 1 },
        ..Cfg::default()
    };
    let point = s.coin();
    let (src, from, to, expected) = if point {
        let (t, at, exp) = s.pick(&POINTS);
        let tail = *s.pick(&["", "tail</r>", "\n</r>", "<y>é"]);
        (format!("{head}{t}{tail}"), head.len() + at, head.len() + at, *exp)
    } else {
        let (t, exp) = s.pick(&OPEN);
        let src = format!("{head}{t}");
        (src.clone(), head.len(), src.len(), *exp)
    };
    cx.case(&(&src, &cfg), || show_case(&cfg, &src));
    cx.nontrivial = true;
    let p = cfg.build();
    let e = match p.parse_with_detailed_errors::<ContextualizedError<&str>>(&src) {
        Err(e) => e,
        Ok(_) => return fail("accepted"),
    };
    let input: &str = &src;
    let msg = e.describe(&input);
    if let Err(m) = check_message(&src, &e, &msg) {
        return fail(format!("{m}\nmessage:\n{msg}"));
    }
    let off = e.input.as_ptr() as usize - src.as_ptr() as usize;
    ensure!(
        from <= off && off <= to,
        "the error at byte {from}..{to} is located at byte {off}:\n{msg}"
    );
    ensure!(
        msg.lines().next().unwrap().contains(expected),
        "the message does not say that {expected} was expected:\n{msg}"
    );
    // Where what is wrong started, and the element's content, or the error is right there
    let at = |i: &str| i.as_ptr() as usize - src.as_ptr() as usize;
    ensure!(
        off == head.len() || e.context.iter().any(|(i, _)| at(i) == head.len()),
        "nothing in the message points at byte {}:\n{msg}", head.len()
    );
    Ok(())
}

// ---------------------------------------------------------------- C27

type E<'a> = nom::error::Error<&'a str>;
type Out = Vec<Option<(usize, usize)>>;

/// Runs a matcher: the bytes it takes, and where its outputs are, or none where there is none.
fn ran<'a, T>(
    what: &str,
    input: &'a str,
    r: nom::IResult<&'a str, T, E<'a>>,
    parts: impl FnOnce(T) -> Vec<Option<&'a str>>,
) -> Result<Option<(usize, Out)>, Stop> {
    match r {
        Err(nom::Err::Incomplete(_)) => fail(format!("{what}({input:?}) asks for more input")),
        Err(nom::Err::Error(e)) | Err(nom::Err::Failure(e)) => {
            ensure!(
                within(input, e.input),
                "{what}({input:?}) fails outside of its input"
            );
            Ok(None)
        }
        Ok((rest, out)) => {
            ensure!(
                within(input, rest) && input.ends_with(rest) && rest.as_ptr() as usize + rest.len() == input.as_ptr() as usize + input.len(),
                "{what}({input:?}): the remainder {rest:?} is not the end of the input"
            );
            let n = input.len() - rest.len();
            let mut o = vec![];
            for p in parts(out) {
                match p {
                    None => o.push(None),
                    Some(p) => {
                        ensure!(
                            within(&input[..n], p),
                            "{what}({input:?}): output {p:?} is not a slice of what was consumed"
                        );
                        let at = p.as_ptr() as usize - input.as_ptr() as usize;
                        o.push(Some((at, at + p.len())));
                    }
                }
            }
            Ok(Some((n, o)))
        }
    }
}

fn name_len(t: &str) -> Option<usize> {
    if t.chars().next().map_or(false, gen::is_name_start) {
        Some(t.find(|c| !gen::is_name_char(c)).unwrap_or(t.len()))
    } else {
        None
    }
}
fn ws_len(t: &str) -> usize {
    t.find(|c| !is_ws(c)).unwrap_or(t.len())
}
fn bare_len(t: &str) -> Option<usize> {
    let n = t.find(|c| is_ws(c) || "\"'>".contains(c)).unwrap_or(t.len());
    if n == 0 {
        None
    } else {
        Some(n)
    }
}
fn quoted_len(t: &str) -> Option<usize> {
    let q = t.chars().next().filter(|c| *c == '"' || *c == '\'')?;
    t[1..].find(q).map(|n| n + 2)
}
fn until(t: &str, open: &str, close: &str) -> Option<(usize, usize)> {
    let r = t.strip_prefix(open)?;
    let n = r.find(close)?;
    Some((open.len() + n, open.len() + n + close.len()))
}
/// Consumed, name, and the value with whether it is quoted.
fn attribute_spec(t: &str) -> Option<(usize, (usize, usize), Option<(usize, usize, bool)>)> {
    let n = name_len(t)?;
    let mut i = n + ws_len(&t[n..]);
    if !t[i..].starts_with('=') {
        return Some((n, (0, n), None));
    }
    i += 1;
    i += ws_len(&t[i..]);
    if let Some(q) = quoted_len(&t[i..]) {
        Some((i + q, (0, n), Some((i + 1, i + q - 1, true))))
    } else {
        let b = bare_len(&t[i..])?;
        Some((i + b, (0, n), Some((i, i + b, false))))
    }
}
fn comments_and_spaces_len(t: &str) -> Option<usize> {
    let mut i = 0;
    loop {
        i += ws_len(&t[i..]);
        if t[i..].starts_with("<!-") || t[i..].starts_with("<!>") {
            i += refimpl::low_comment_declaration(&t[i..])?;
        } else {
            return Some(i);
        }
    }
}

const DELIMS: [&str; 10] = ["-->", "--", "]]>", ">", "\"", "'", "aab", "abab", "é]", "日本語"];

fn c27_input(s: &mut Src, k: usize) -> String {
    let cfg = Cfg::default();
    let o = Opts {
        invalid: true,
        long: 60,
        ..Opts::default()
    };
    let g = G { cfg: &cfg, o: &o };
    let good = |s: &mut Src| -> String {
        match k {
            0 | 23 => g.comment(s),
            1 => {
                let c = g.comment(s);
                c.strip_prefix("<!").unwrap_or(&c).to_owned()
            }
            2 => {
                let mut o = String::new();
                doc::render_item(&g.decl(s), &mut o);
                o
            }
            3 => {
                let kw = g.keyword_list(s);
                format!("<![{}{kw}{}[", gen::ws(s, 2), gen::ws(s, 2))
            }
            4 => format!("{}]]>", g.pieces(s, true)),
            5 => format!("{}]]>", doc::ignored(s, 3)),
            6 => "]]>".into(),
            7 => format!("<?{}>", g.pi_body(s)),
            8 | 9 => g.pieces(s, true),
            10 => format!("<{}", gen::name(s)),
            11 => ">".into(),
            12 => "/>".into(),
            13 => "<>".into(),
            14 | 15 => {
                let mut o = String::new();
                doc::render_item(
                    &Item::Open {
                        name: "x".into(),
                        attrs: vec![g.attr(s)],
                        pre_close: String::new(),
                        xml: false,
                    },
                    &mut o,
                );
                refimpl::trim(o.strip_prefix("<x").unwrap_or(&o)).to_owned()
            }
            16 | 17 => g.bare(s),
            18 => {
                let q = *s.pick(&['"', '\'']);
                format!("{q}{}{q}", g.pieces(s, true).replace(q, ""))
            }
            19 => format!("</{}{}>", gen::name(s), gen::ws(s, 2)),
            20 | 21 => gen::name(s),
            22 => gen::ws(s, 5),
            _ => {
                let d = *s.pick(&DELIMS);
                let mut o = String::new();
                for _ in 0..s.size(8) {
                    match s.below(4) {
                        0 => o.push_str(d),
                        1 => {
                            // A part of the delimiter
                            let n = s.us(d.chars().count());
                            o.extend(d.chars().take(n));
                        }
                        2 => o.push(gen::any_char(s)),
                        _ => o.push(*s.pick(&['a', 'b', '-', ']', 'é', '日'])),
                    }
                }
                o
            }
        }
    };
    let mut t = match s.below(6) {
        0 => doc::soup(s),
        1 => gen::any_string(s, 100),
        _ => good(s),
    };
    if s.one_in(4) {
        t = doc::mutate(s, &t);
    }
    match s.below(4) {
        0 => {}
        1 => t.push_str(&good(s)),
        2 => t.push_str(&doc::soup(s)),
        _ => t.push_str(&gen::any_string(s, 20)),
    }
    t
}

fn c27_matchers(s: &mut Src, cx: &mut Ctx) -> R {
    const NAMES: [&str; 28] = [
        "comment_declaration", "comment", "markup_declaration", "marked_section_start_and_keywords",
        "marked_section_body_character_data", "marked_section_body_ignore", "marked_section_end", "processing_instruction", "text",
        "plain_text", "open_start_tag", "close_start_tag", "xml_close_empty_element", "empty_start_tag", "attribute",
        "attribute_parse_value", "attribute_value", "unquoted_attribute_value", "quoted_attribute_value", "end_tag", "name",
        "name_start", "spaces", "comments_and_spaces", "take_until_terminated", "strip_spaces_after", "strip_spaces_around",
        "strip_comments_and_spaces_after",
    ];
    let k = s.us(NAMES.len());
    let what = NAMES[k];
    let t = c27_input(s, k);
    let t: &str = &t;
    let stop = s.coin();
    let d = *s.pick(&DELIMS);
    cx.case(&(what, t, stop, d), || format!("{what} {t:?} (stop at section end: {stop}, delimiter {d:?})"));
    let mse = if stop {
        MarkedSectionEndHandling::StopParsing
    } else {
        MarkedSectionEndHandling::TreatAsText
    };
    let one = |x| vec![Some(x)];
    let span = |a: usize, b: usize| Some((a, b));
    let whole = |n: usize| Some((n, vec![Some((0, n))]));
    let tag = |x: &str| if t.starts_with(x) { whole(x.len()) } else { None };
    use nom::Parser as _;
    let (got, want): (Option<(usize, Out)>, Option<(usize, Out)>) = match k {
        0 => (
            ran(what, t, raw::comment_declaration(t), one)?,
            refimpl::low_comment_declaration(t).and_then(whole),
        ),
        1 => (
            ran(what, t, raw::comment(t), one)?,
            until(t, "--", "--").map(|(a, b)| (b, vec![span(2, a)])),
        ),
        2 => (
            ran(what, t, raw::markup_declaration(t), |(a, b)| vec![Some(a), Some(b)])?,
            refimpl::low_markup_declaration(t).map(|(n, a, b)| (n, vec![Some(a), Some(b)])),
        ),
        3 => (
            ran(what, t, raw::marked_section_start_and_keywords(t), one)?,
            t.strip_prefix("<![").and_then(|r| {
                let n = r.find(|c| "[]<>!".contains(c))?;
                if !r[n..].starts_with('[') {
                    return None;
                }
                let a = n.min(ws_len(r));
                let b = a + refimpl::trim(&r[..n]).len();
                Some((3 + n + 1, vec![span(3 + a, 3 + b)]))
            }),
        ),
        4 => (
            ran(what, t, raw::marked_section_body_character_data(t), one)?,
            until(t, "", "]]>").map(|(a, b)| (b, vec![span(0, a)])),
        ),
        5 => (
            ran(what, t, raw::marked_section_body_ignore(t), one)?,
            refimpl::low_ignore(t).map(|(a, b)| (b, vec![span(0, a)])),
        ),
        6 => (ran(what, t, raw::marked_section_end(t), one)?, tag("]]>")),
        7 => (
            ran(what, t, raw::processing_instruction(t), one)?,
            until(t, "<?", ">").and_then(|(_, b)| whole(b)),
        ),
        8 => (
            ran(what, t, raw::text(t, mse), one)?,
            Some(refimpl::low_text(t, stop)).filter(|n| *n > 0).and_then(whole),
        ),
        9 => {
            let mut n = t.find('<').unwrap_or(t.len());
            if stop {
                n = t.find("]]>").unwrap_or(n).min(n);
            }
            (
                ran(what, t, raw::plain_text(t, mse), one)?,
                Some(n).filter(|n| *n > 0).and_then(whole),
            )
        }
        10 => (
            ran(what, t, raw::open_start_tag(t), one)?,
            t.strip_prefix('<')
                .and_then(name_len)
                .map(|n| (n + 1, vec![span(1, n + 1)])),
        ),
        11 => (ran(what, t, raw::close_start_tag(t), one)?, tag(">")),
        12 => (ran(what, t, raw::xml_close_empty_element(t), one)?, tag("/>")),
        13 => (ran(what, t, raw::empty_start_tag(t), one)?, tag("<>")),
        14 => (
            ran(what, t, raw::attribute(t), |(a, b)| vec![Some(a), b])?,
            attribute_spec(t).map(|(n, a, v)| (n, vec![Some(a), v.map(|v| (v.0, v.1))])),
        ),
        15 => {
            let mut seen = vec![];
            let got = ran(
                what,
                t,
                raw::attribute_parse_value(t, |v, q| {
                    seen.push((v.to_owned(), q));
                    Ok(v)
                }),
                |(a, b)| vec![Some(a), b],
            )?;
            let spec = attribute_spec(t);
            if let Some((_, _, v)) = &spec {
                let want: Vec<(String, bool)> =
                    v.iter().map(|v| (t[v.0..v.1].to_owned(), v.2)).collect();
                ensure!(seen == want, "attribute_parse_value({t:?}) gives {seen:?} to its closure, expected {want:?}");
                // What the closure refuses is refused
                if v.is_some() {
                    let r = raw::attribute_parse_value::<_, (), E>(t, |v, _| {
                        Err(nom::Err::Failure(nom::error::Error::new(v, nom::error::ErrorKind::Verify)))
                    });
                    ensure!(r.is_err(), "attribute_parse_value({t:?}) accepts what its closure refuses");
                }
            }
            (
                got,
                spec.map(|(n, a, v)| (n, vec![Some(a), v.map(|v| (v.0, v.1))])),
            )
        }
        16 => {
            let mut quoted = None;
            let got = ran(what, t, raw::attribute_value(t), |(v, q)| {
                quoted = Some(q);
                vec![Some(v)]
            })?;
            let want = match (quoted_len(t), bare_len(t)) {
                (Some(n), _) => Some((n, vec![span(1, n - 1)])),
                (_, Some(n)) => Some((n, vec![span(0, n)])),
                _ => None,
            };
            if let Some(q) = quoted {
                ensure!(q == t.starts_with(|c| c == '"' || c == '\''), "attribute_value({t:?}): quoted is {q}");
            }
            (got, want)
        }
        17 => (
            ran(what, t, raw::unquoted_attribute_value(t), one)?,
            bare_len(t).and_then(whole),
        ),
        18 => (
            ran(what, t, raw::quoted_attribute_value(t), one)?,
            quoted_len(t).map(|n| (n, vec![span(1, n - 1)])),
        ),
        19 => (
            ran(what, t, raw::end_tag(t), |x| vec![x])?,
            t.strip_prefix("</").and_then(|r| match name_len(r) {
                Some(n) => {
                    let e = n + ws_len(&r[n..]);
                    r[e..].starts_with('>').then(|| (2 + e + 1, vec![span(2, 2 + n)]))
                }
                None => r.starts_with('>').then(|| (3, vec![None])),
            }),
        ),
        20 => (ran(what, t, raw::name(t), one)?, name_len(t).and_then(whole)),
        21 => (
            ran(what, t, raw::name_start(t), one)?,
            name_len(t).and_then(|_| whole(t.chars().next().unwrap().len_utf8())),
        ),
        22 => (ran(what, t, util::spaces(t), one)?, whole(ws_len(t))),
        23 => (
            ran(what, t, util::comments_and_spaces(t), one)?,
            comments_and_spaces_len(t).and_then(whole),
        ),
        24 => (
            ran(what, t, util::take_until_terminated::<E>("x", d)(t), one)?,
            t.find(d).map(|n| (n + d.len(), vec![span(0, n)])),
        ),
        25 => (
            ran(what, t, util::strip_spaces_after::<_, E, _>(raw::name).parse(t), one)?,
            name_len(t).map(|n| (n + ws_len(&t[n..]), vec![span(0, n)])),
        ),
        26 => (
            ran(what, t, util::strip_spaces_around::<_, E, _>(raw::name).parse(t), one)?,
            {
                let a = ws_len(t);
                name_len(&t[a..]).map(|n| (a + n + ws_len(&t[a + n..]), vec![span(a, a + n)]))
            },
        ),
        _ => (
            ran(what, t, util::strip_comments_and_spaces_after::<_, E, _>(raw::name).parse(t), one)?,
            name_len(t).and_then(|n| Some((n + comments_and_spaces_len(&t[n..])?, vec![span(0, n)]))),
        ),
    };
    cx.label(what);
    if want.is_some() {
        cx.nontrivial = true;
    }
    let say = |x: &Option<(usize, Out)>| match x {
        None => "no match".to_owned(),
        Some((n, o)) => format!(
            "takes {:?} and gives {:?}",
            &t[..*n],
            o.iter().map(|x| x.map(|(a, b)| &t[a..b])).collect::<Vec<_>>()
        ),
    };
    // Where an empty output lies has no bearing
    let flat = |x: &Option<(usize, Out)>| {
        x.as_ref().map(|(n, o)| {
            let o: Out = o
                .iter()
                .map(|x| x.map(|(a, b)| if a == b { (0, 0) } else { (a, b) }))
                .collect();
            (*n, o)
        })
    };
    ensure!(flat(&got) == flat(&want), "{what}({t:?}) {}; expected: {}", say(&got), say(&want));
    Ok(())
}

fn c27_characters(s: &mut Src, cx: &mut Ctx) -> R {
    let c = if s.coin() { gen::loop_char(s) } else { gen::any_char(s) };
    cx.case(&c, || format!("{c:?}"));
    cx.nontrivial_if(!c.is_ascii());
    ensure!(raw::is_name_char(c) == gen::is_name_char(c), "is_name_char({c:?})");
    ensure!(raw::is_name_start_char(c) == gen::is_name_start(c), "is_name_start_char({c:?})");
    let t = format!("{c}{}", s.pick(&["", "a", " ", "<", ">"]));
    let r = ran("name", &t, raw::name(&t), |x| vec![Some(x)])?;
    let want = name_len(&t).map(|n| (n, vec![Some((0, n))]));
    ensure!(r == want, "name({t:?}) takes {r:?}, expected {want:?}");
    Ok(())
}

// ---------------------------------------------------------------- C29

type Names = Vec<(String, String)>;

fn find(m: &[(String, String)], n: &str) -> Option<String> {
    m.iter().find(|(k, _)| k == n).map(|(_, v)| v.clone())
}

/// One call on a builder.
#[derive(Clone, Debug, Hash)]
enum Set {
    Trim(bool),
    Norm(u8),
    Lower,
    Upper,
    Sections(u8),
    ExpandSections,
    Declarations(bool),
    Instructions(bool),
    /// How the answer is given: 0 `String`, 1 `Cow`, 2 `&'static str`, 3 from a shared table
    Ents(Names, u8),
    Params(Names, u8),
}

/// Values that are answered as `&'static str`.
const STATICS: [&str; 10] = ["", "<", "&amp;", " x ", "é", "INCLUDE", "IGNORE", "CDATA", "RCDATA TEMP", "]]>"];

fn a_set(s: &mut Src) -> Set {
    let names = |s: &mut Src, m: Option<Names>| -> (Names, u8) {
        let kind = s.below(4) as u8;
        let mut m = m.unwrap_or_default();
        if kind == 2 {
            for (_, v) in m.iter_mut() {
                *v = s.pick(&STATICS).to_string();
            }
        }
        (m, kind)
    };
    match s.below(10) {
        0 => Set::Trim(s.coin()),
        1 => Set::Norm(s.below(3) as u8),
        2 => Set::Lower,
        3 => Set::Upper,
        4 => Set::Sections(s.below(3) as u8),
        5 => Set::ExpandSections,
        6 => Set::Declarations(s.coin()),
        7 => Set::Instructions(s.coin()),
        8 => {
            let m = gen::entities(s);
            let (m, k) = names(s, m);
            Set::Ents(m, k)
        }
        _ => {
            let m = gen::pentities(s);
            let (m, k) = names(s, m);
            Set::Params(m, k)
        }
    }
}

fn record(cfg: &mut Cfg, call: &Set) {
    match call {
        Set::Trim(b) => cfg.trim = *b,
        Set::Norm(n) => cfg.norm = *n,
        Set::Lower => cfg.norm = 1,
        Set::Upper => cfg.norm = 2,
        Set::Sections(m) => cfg.ms = *m,
        Set::ExpandSections => cfg.ms = 1,
        Set::Declarations(b) => cfg.ignore_md = *b,
        Set::Instructions(b) => cfg.ignore_pi = *b,
        Set::Ents(m, _) => cfg.ents = Some(m.clone()),
        Set::Params(m, _) => cfg.pents = Some(m.clone()),
    }
}

type Shared = std::rc::Rc<std::cell::RefCell<Names>>;

fn norm_of(n: u8) -> NameNormalization {
    match n {
        0 => NameNormalization::Unchanged,
        1 => NameNormalization::ToLowercase,
        _ => NameNormalization::ToUppercase,
    }
}
fn sections_of(n: u8) -> MarkedSectionHandling {
    match n {
        0 => MarkedSectionHandling::AcceptOnlyCharacterData,
        1 => MarkedSectionHandling::ExpandAll,
        _ => MarkedSectionHandling::KeepUnmodified,
    }
}

/// Makes the calls; the tables of lookups of kind 3 stay reachable.
fn make(calls: &[Set], ents: &mut Option<Shared>, params: &mut Option<Shared>) -> ParserBuilder {
    let mut b = if calls.len() % 2 == 0 { Parser::builder() } else { ParserBuilder::new() };
    let fixed = |v: &str| STATICS.iter().find(|x| **x == v).copied();
    for c in calls {
        b = match c.clone() {
            Set::Trim(x) => b.trim_whitespace(x),
            Set::Norm(n) => b.name_normalization(norm_of(n)),
            Set::Lower => b.lowercase_names(),
            Set::Upper => b.uppercase_names(),
            Set::Sections(m) => b.marked_section_handling(sections_of(m)),
            Set::ExpandSections => b.expand_marked_sections(),
            Set::Declarations(x) => b.ignore_markup_declarations(x),
            Set::Instructions(x) => b.ignore_processing_instructions(x),
            Set::Ents(m, kind) => {
                *ents = None;
                match kind {
                    0 => b.expand_entities(move |n| find(&m, n)),
                    1 => b.expand_entities(move |n| find(&m, n).map(Cow::<'static, str>::Owned)),
                    2 => b.expand_entities(move |n| find(&m, n).map(|v| fixed(&v).unwrap())),
                    _ => {
                        let t = Shared::new(m.into());
                        *ents = Some(t.clone());
                        b.expand_entities(move |n| find(&t.borrow(), n))
                    }
                }
            }
            Set::Params(m, kind) => {
                *params = None;
                match kind {
                    0 => b.expand_parameter_entities(move |n| find(&m, n)),
                    1 => b.expand_parameter_entities(move |n| find(&m, n).map(Cow::<'static, str>::Owned)),
                    2 => b.expand_parameter_entities(move |n| find(&m, n).map(|v| fixed(&v).unwrap())),
                    _ => {
                        let t = Shared::new(m.into());
                        *params = Some(t.clone());
                        b.expand_parameter_entities(move |n| find(&t.borrow(), n))
                    }
                }
            }
        };
    }
    b
}

fn c29_doc(s: &mut Src, cfg: &Cfg) -> String {
    let o = Opts { invalid: s.one_in(4), heavy_refs: s.coin(), ..Opts::default() };
    let d = doc::doc(s, cfg, &o);
    let d = doc::render(&d);
    if s.one_in(4) {
        doc::mutate(s, &d)
    } else {
        d
    }
}

/// What one parser says about one text, against the reference parser.
fn c29_compare(got: &Result<Vec<Ev>, String>, src: &str, cfg: &Cfg, who: &str, cx: &mut Ctx) -> R {
    match (got, refimpl::parse(src, cfg)) {
        (Ok(a), Ok(w)) => {
            cx.label("accepted");
            ensure!(*a == w, "{who}: wrong events: {}", diff(a, &w));
        }
        (Err(_), Err(_)) => cx.label("rejected"),
        (Ok(a), Err(e)) => return fail(format!("{who}: accepted, but malformed ({e:?}):\n{}", show(a))),
        (Err(e), Ok(w)) => return fail(format!("{who}: rejected, but well formed: {e}\nexpected\n{}", show(&w))),
    }
    Ok(())
}

fn c29_settings(s: &mut Src, cx: &mut Ctx) -> R {
    let mut calls = vec![];
    let mut cfg = Cfg::default();
    for _ in 0..s.size(12) {
        let c = a_set(s);
        record(&mut cfg, &c);
        calls.push(c);
    }
    let src = c29_doc(s, &cfg);
    let later = s.coin().then(|| (gen::entities(s).unwrap_or_default(), gen::pentities(s).unwrap_or_default()));
    cx.case(&(&calls, &src, &later), || {
        format!("calls: {calls:?}\ninput: {src:?}\nshared tables change to: {later:?}")
    });
    assume!(!src.contains('\u{c}') || !src.contains("<!["));
    cx.nontrivial_if(calls.len() > 1 && src.len() > 3);
    let kinds: std::collections::BTreeSet<u8> = calls
        .iter()
        .map(setting)
        .collect();
    if calls.is_empty() {
        cx.label("no calls");
    }
    if kinds.len() < calls.len() {
        cx.label("a setting made twice");
    }
    if kinds.len() > 2 {
        cx.label("over two settings");
    }
    let (mut se, mut sp) = (None, None);
    let p = make(&calls, &mut se, &mut sp).build();
    let _ = format!("{p:?}");
    let run = |p: &Parser| p.parse(&src).map(|f| owned(f.as_slice())).map_err(|e| e.to_string());
    let got = run(&p);
    c29_compare(&got, &src, &cfg, "calls in this order", cx)?;
    // The same settings made once each, and by one step
    ensure!(run(&cfg.build()) == got, "settings made once differ from this history of calls");
    let direct = make(&calls, &mut None, &mut None).parse(&src).map(|f| owned(f.as_slice())).map_err(|e| e.to_string());
    ensure!(direct == got, "ParserBuilder::parse differs from build().parse(): {direct:?}\n{got:?}");
    // Only the last word on each setting, those in any order
    let mut last: Vec<&Set> = vec![];
    for c in calls.iter().rev() {
        if !last.iter().any(|l| setting(l) == setting(c)) {
            last.push(c);
        }
    }
    let mut order: Vec<Set> = last.into_iter().cloned().collect();
    for i in (1..order.len()).rev() {
        let j = s.range(0, i);
        order.swap(i, j);
    }
    ensure!(
        run(&make(&order, &mut None, &mut None).build()) == got,
        "the last calls alone, as {order:?}, give another parser"
    );
    // Nothing of an earlier parse is remembered
    if let Some((e, q)) = later {
        if let Some(t) = &se {
            *t.borrow_mut() = e.clone();
            cfg.ents = Some(e);
        }
        if let Some(t) = &sp {
            *t.borrow_mut() = q.clone();
            cfg.pents = Some(q);
        }
        if se.is_some() || sp.is_some() {
            cx.label("shared table changed");
            c29_compare(&run(&p), &src, &cfg, "after the tables of the lookups changed", cx)?;
        }
    }
    Ok(())
}

fn setting(c: &Set) -> u8 {
    match c {
        Set::Trim(_) => 0,
        Set::Norm(_) | Set::Lower | Set::Upper => 1,
        Set::Sections(_) | Set::ExpandSections => 2,
        Set::Declarations(_) => 3,
        Set::Instructions(_) => 4,
        Set::Ents(..) => 5,
        Set::Params(..) => 6,
    }
}

fn c29_config(s: &mut Src, cx: &mut Ctx) -> R {
    let mut calls = vec![];
    let mut cfg = Cfg::default();
    for _ in 0..s.size(10) {
        let c = a_set(s);
        record(&mut cfg, &c);
        calls.push(c);
    }
    let delim = *s.pick(&['&', '%']);
    let text = ref_text(s, delim);
    let padded = s.coin().then(|| format!("{}{}{}", gen::any_string(s, 3), text, gen::any_string(s, 3)));
    let text = padded.unwrap_or(text);
    cx.case(&(&calls, &text), || format!("calls: {calls:?}\ntext: {text:?}"));
    cx.nontrivial_if(text.len() > 2);
    let c = if calls.is_empty() && s.coin() {
        ParserConfig::default()
    } else {
        make(&calls, &mut None, &mut None).into_config()
    };
    ensure!(c.trim_whitespace == cfg.trim, "trim_whitespace is {}", c.trim_whitespace);
    ensure!(c.name_normalization == norm_of(cfg.norm), "name_normalization is {:?}", c.name_normalization);
    ensure!(c.marked_section_handling == sections_of(cfg.ms), "marked_section_handling is {:?}", c.marked_section_handling);
    ensure!(c.ignore_markup_declarations == cfg.ignore_md, "ignore_markup_declarations is {}", c.ignore_markup_declarations);
    ensure!(
        c.ignore_processing_instructions == cfg.ignore_pi,
        "ignore_processing_instructions is {}",
        c.ignore_processing_instructions
    );
    let _ = format!("{c:?}");
    let t = c.trim(&text);
    let want = if cfg.trim { refimpl::trim(&text) } else { &text[..] };
    ensure!(t == want && within(&text, t), "trim gave {t:?} instead of {want:?}");
    let both = [
        ("parse_rcdata", c.parse_rcdata::<nom::error::Error<&str>>(&text), refimpl::expand_text(&text, &cfg)),
        (
            "parse_markup_declaration_text",
            c.parse_markup_declaration_text::<nom::error::Error<&str>>(&text),
            refimpl::expand_keywords(&text, &cfg),
        ),
    ];
    for (who, got, want) in both {
        match (got, want) {
            (Ok(a), Ok(b)) => ensure!(a == b, "{who} gave {a:?} instead of {b:?}"),
            (Err(nom::Err::Error(e)) | Err(nom::Err::Failure(e)), Err(u)) => {
                cx.label("undefined");
                let at = &text[u.start..u.end];
                ensure!(
                    e.input == at && e.input.as_ptr() == at.as_ptr(),
                    "{who}: the error is at {:?}, the reference is {at:?}",
                    e.input
                );
            }
            (a, b) => return fail(format!("{who} gave {a:?} instead of {b:?}")),
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C04",
            rule: "Texts dense in delimiters, digits, hexadecimals, names and lookups whose answers depend on name and call count, expanded as entities, parameter entities and characters only, against a scanner written from the documentation; and every code point written in decimal and hexadecimal. Non-trivial: the text has a delimiter.",
            subs: vec![
                sub("entities", c04_entities, 1_000_000),
                sub("parameters", c04_parameters, 600_000),
                sub("characters", c04_characters, 400_000),
                sub("codes", c04_codes, 800_000),
            ],
            probes: vec![],
        },
        Prop {
            id: "C12",
            rule: "Arbitrary texts and texts dense in delimiters, escaped with and without ampersands, with the iterator observed after every step up to a random one. Non-trivial: the text has something to escape.",
            subs: vec![
                sub("escape", c12_escape, 400_000),
                sub("characters", c12_whitespace, 300_000),
            ],
            probes: vec![],
        },
        Prop {
            id: "C13",
            rule: "Fragments of up to 80 events with up to 60 insertions and removals at inner, boundary and far positions, against a per-position model; the same edits recorded in another order, and a clone of the transform. Non-trivial: more than one edit.",
            subs: vec![sub("edits", c13_transform, 1_200_000)],
            probes: vec![],
        },
        Prop {
            id: "C14",
            rule: "Element trees with random omissions of leaf end tags, as events and as source text, against the tree written in full. Non-trivial: something is omitted or closed with />.",
            subs: vec![
                sub("events", c14_restores, 500_000),
                sub("source", c14_source, 300_000),
            ],
            probes: vec![],
        },
        Prop {
            id: "C15",
            rule: "Random sequences of tags over few names, and parsed random documents; the result is compared with the input event by event, checked for nesting, and normalized again; refusals are compared with an independent pairing. Non-trivial: more than 3 events.",
            subs: vec![
                sub("events", c15_events, 800_000),
                sub("parsed", c15_parsed, 200_000),
            ],
            probes: vec![],
        },
        Prop {
            id: "C25",
            rule: "Built documents with and without references: every name, value and text is checked for borrowing where its source allows; random documents viewed in all ways and detached; documents deserialized into borrowed and owned strings. Non-trivial: over 2 borrowing parts, over 3 events.",
            subs: vec![
                sub("borrow", c25_borrow, 200_000),
                sub("views", c25_views, 150_000),
                sub("deserialize", c25_deserialize, 200_000),
            ],
            probes: vec![],
        },
        Prop {
            id: "C26",
            rule: "Rejected random, mutated and built documents among lines of chosen lengths and characters: line, excerpt and caret of the message recomputed from the error's position, for every context; undefined references and keywords located by the reference parser; and single errors at known places. Non-trivial: all rejected inputs.",
            subs: vec![
                sub("messages", c26_messages, 400_000),
                sub("places", c26_places, 300_000),
                sub("made", c26_made, 200_000),
            ],
            probes: vec![],
        },
        Prop {
            id: "C27",
            rule: "Every public matcher of parser::raw and parser::util on well-formed, mutated and random inputs with arbitrary continuations, against a specification of what it takes and outputs, by position; every character class; and the event-level item parser. Non-trivial: the specification matches.",
            subs: vec![
                sub("matchers", c27_matchers, 1_200_000),
                sub("characters", c27_characters, 300_000),
            ],
            probes: vec![],
        },
        Prop {
            id: "C29",
            rule: "Random histories of up to 12 builder calls, with repetitions and lookups answering in four ways; the parser is compared with the reference parser for the last word on each setting, with one set up directly, and with the last calls in another order, before and after the lookups' tables change; the configuration's fields and methods against models. Non-trivial: over one call and a text of over 3 bytes; for configurations, a text of over 2 bytes.",
            subs: vec![
                sub("settings", c29_settings, 200_000),
                sub("config", c29_config, 300_000),
            ],
            probes: vec![],
        },
    ]
}
