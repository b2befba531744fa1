//! C31: the event-level parsers take a document apart without changing it.

use super::parse::{events, show_case};
use crate::doc::{self, Item, Opts, G};
use crate::engine::*;
use crate::gen::{self, Cfg};
use crate::refimpl::{self, diff, Ev, Piece, Status, Took};
use crate::{assume, ensure};
use nom::IResult;
use sgmlish::marked_sections::MarkedSectionStatus;
use sgmlish::parser::events as ev;
use sgmlish::parser::raw::MarkedSectionEndHandling;
use sgmlish::parser::{util, ContextualizedError, ParserConfig};
use sgmlish::SgmlEvent;
use std::borrow::Cow;

type E<'a> = ContextualizedError<&'a str>;
type Got<'a> = Option<(&'a str, Vec<Ev>)>;

fn owned<'a>(it: impl Iterator<Item = SgmlEvent<'a>>) -> Vec<Ev> {
    it.map(|e| e.into_owned()).collect()
}

fn all<'a, I: Iterator<Item = SgmlEvent<'a>>, X>(r: IResult<&'a str, I, X>) -> Got<'a> {
    r.ok().map(|(rest, it)| (rest, owned(it)))
}

fn one<'a, X>(r: IResult<&'a str, SgmlEvent<'a>, X>) -> Got<'a> {
    r.ok().map(|(rest, e)| (rest, vec![e.into_owned()]))
}

/// Reads an iterator of events, which has to know how many are left and to stay at its end.
fn counted<'a, X>(r: IResult<&'a str, ev::EventIter<'a>, X>, early: usize) -> Result<Got<'a>, Stop> {
    let Ok((rest, mut it)) = r else { return Ok(None) };
    let total = it.len();
    let mut out: Vec<Ev> = vec![];
    for k in 0..total {
        ensure!(it.len() == total - k, "{} events left of {total} after {k}", it.len());
        ensure!(it.size_hint() == (total - k, Some(total - k)), "size bounds {:?} with {} left", it.size_hint(), total - k);
        if k == early {
            // What is shown is what remains, and what remains is collected in one go as well
            let shown = format!("{it:?}");
            let left: Vec<Ev> = owned(it);
            ensure!(left.len() == total - k, "{} events come out where {} are left", left.len(), total - k);
            let mut at = 0;
            for e in &left {
                let e = format!("{e:?}");
                match shown[at..].find(&e) {
                    Some(n) => at += n + e.len(),
                    None => return fail(format!("{shown} does not show {e}, which is still to come")),
                }
            }
            out.extend(left);
            return Ok(Some((rest, out)));
        }
        match it.next() {
            Some(e) => out.push(e.into_owned()),
            None => return fail(format!("ends after {k} events, {total} announced")),
        }
    }
    for _ in 0..3 {
        ensure!(it.len() == 0 && it.size_hint() == (0, Some(0)), "bounds {:?} at the end", it.size_hint());
        ensure!(it.next().is_none(), "more events than the {total} announced");
    }
    Ok(Some((rest, out)))
}

fn input(s: &mut Src, cfg: &Cfg) -> String {
    let o = Opts {
        invalid: s.one_in(4),
        heavy_sections: s.one_in(3),
        max_items: 8,
        ..Opts::default()
    };
    let d = doc::doc(s, cfg, &o);
    let mut t = doc::render(&d);
    match s.below(5) {
        0 | 1 => {}
        2 => t = doc::mutate(s, &t),
        3 => {
            let n = s.us(t.chars().count() + 1);
            t = t.chars().take(n).collect();
        }
        _ => t.push_str(&doc::soup(s)),
    }
    t
}

/// `document_entity` is the whole parse.
fn c31_document(s: &mut Src, cx: &mut Ctx) -> R {
    let cfg = gen::cfg(s);
    let t = &input(s, &cfg);
    cx.case(&(t, &cfg), || show_case(&cfg, t));
    let config = cfg.config();
    let want = events(&cfg, t);
    cx.label(if want.is_ok() { "accepted" } else { "rejected" });
    cx.nontrivial_if(want.as_ref().map_or(true, |w| w.len() > 3));
    let got = all(ev::document_entity::<E>(t, &config));
    match (got, want) {
        (None, Err(_)) => {}
        (Some((rest, got)), Ok(want)) => {
            ensure!(rest.is_empty(), "document_entity leaves {rest:?}");
            ensure!(got == want, "document_entity: {}", diff(&got, &want));
        }
        (None, Ok(_)) => return fail("document_entity fails where parsing succeeds"),
        (Some(_), Err(e)) => return fail(format!("document_entity succeeds where parsing fails with {e}")),
    }
    Ok(())
}

fn skip_comments(t: &str) -> &str {
    let mut t = t;
    while let Some(n) = refimpl::low_comment_declaration(t) {
        t = &t[n..];
    }
    t
}

/// A document taken apart piece by piece.
fn c31_stepwise(s: &mut Src, cx: &mut Ctx) -> R {
    let cfg = gen::cfg(s);
    let t = &input(s, &cfg);
    let early = s.us(6);
    cx.case(&(t, &cfg, early), || format!("{} (looking at iterators after {early})", show_case(&cfg, t)));
    let config = cfg.config();
    let want = events(&cfg, t);
    let mut steps = 0;
    let mut by_pieces = || -> Result<Option<Vec<Ev>>, Stop> {
        let Ok((rest, _)) = util::comments_and_spaces::<E>(t) else { return Ok(None) };
        let Ok((mut rest, before)) = ev::prolog::<E>(rest, &config) else { return Ok(None) };
        let mut out = owned(before.into_iter());
        let mut items = 0;
        while !rest.is_empty() {
            let n = rest.len();
            let Some((r, evs)) = counted(ev::content_item::<E>(rest, &config, MarkedSectionEndHandling::TreatAsText), early)? else {
                return Ok(None);
            };
            ensure!(t.ends_with(r) && r.len() < n, "content_item takes nothing of {rest:?}");
            items += 1;
            out.extend(evs);
            rest = skip_comments(r);
        }
        steps = items;
        Ok((items > 0).then_some(out))
    };
    let got = by_pieces()?;
    cx.label(if want.is_ok() { "accepted" } else { "rejected" });
    cx.nontrivial_if(steps > 2 || want.is_err());
    match (got, want) {
        (None, Err(_)) => {}
        (Some(got), Ok(want)) => ensure!(got == want, "piece by piece: {}", diff(&got, &want)),
        (None, Ok(_)) => return fail("cannot be taken apart, but is accepted as a whole"),
        (Some(got), Err(e)) => {
            return fail(format!("comes apart into {} events, but is rejected as a whole: {e}", got.len()))
        }
    }
    Ok(())
}

const PIECES: [(&str, Piece); 18] = [
    ("markup_declaration", Piece::Declaration),
    ("marked_section_declaration", Piece::Section),
    ("marked_section_body", Piece::Body(Status::Include)),
    ("marked_section_body", Piece::Body(Status::RcData)),
    ("marked_section_body", Piece::Body(Status::CData)),
    ("marked_section_body", Piece::Body(Status::Ignore)),
    ("processing_instruction", Piece::Pi),
    ("start_tag", Piece::StartTag),
    ("start_tag", Piece::StartTag),
    ("open_start_tag", Piece::OpenStartTag),
    ("close_start_tag", Piece::CloseStartTag),
    ("xml_close_empty_element", Piece::XmlClose),
    ("empty_start_tag", Piece::EmptyStartTag),
    ("attribute", Piece::Attribute),
    ("text", Piece::Text),
    ("content_item", Piece::Item),
    ("prolog", Piece::Prolog),
    ("content", Piece::Content),
];

fn piece_input(s: &mut Src, cfg: &Cfg, what: Piece, stop: bool) -> String {
    let o = Opts {
        invalid: s.one_in(5),
        heavy_sections: s.one_in(3),
        max_items: 4,
        long: 80,
        ..Opts::default()
    };
    let g = G { cfg, o: &o };
    let mut t = String::new();
    match what {
        Piece::Declaration => doc::render_item(&g.decl(s), &mut t),
        Piece::Section => {
            let it = Item::Section(g.section(s, 0));
            doc::render_item(&it, &mut t)
        }
        Piece::Body(st) => {
            let kw = match st {
                Status::Include => "INCLUDE",
                Status::RcData => "RCDATA",
                Status::CData => "CDATA",
                Status::Ignore => "IGNORE",
            };
            let it = Item::Section(g.section_with(s, kw.to_owned(), Some(st), 0));
            doc::render_item(&it, &mut t);
            let at = t.find(kw).map_or(0, |n| n + kw.len());
            let at = t[at..].find('[').map_or(0, |n| at + n + 1);
            t.drain(..at);
        }
        Piece::Pi => t = format!("<?{}>", g.pi_body(s)),
        Piece::StartTag | Piece::OpenStartTag => {
            if s.one_in(12) {
                t.push_str("<>");
            } else {
                let it = g.open(s);
                doc::render_item(&it, &mut t);
            }
        }
        Piece::CloseStartTag => t.push('>'),
        Piece::XmlClose => t.push_str("/>"),
        Piece::EmptyStartTag => t.push_str("<>"),
        Piece::Attribute => {
            let a = g.attr(s);
            let it = Item::Open {
                name: "x".into(),
                attrs: vec![a],
                pre_close: String::new(),
                xml: s.coin(),
            };
            doc::render_item(&it, &mut t);
            t = t.strip_prefix("<x").unwrap_or(&t).trim_start_matches(refimpl::is_ws).to_owned();
        }
        Piece::Text => t = g.text(s, s_stop(stop)),
        Piece::Item | Piece::Content => {
            for i in g.items(s, 0, stop) {
                doc::render_item(&i, &mut t);
            }
            if stop && s.coin() {
                t.push_str("]]>");
            }
        }
        Piece::Prolog => {
            let d = doc::doc(s, cfg, &o);
            t = doc::render(&d);
        }
    }
    match s.below(8) {
        0..=2 => {}
        3 => t.push_str(&doc::soup(s)),
        4 => t = doc::mutate(s, &t),
        5 => {
            let n = s.us(t.chars().count() + 1);
            t = t.chars().take(n).collect();
        }
        6 => t.push_str(*s.pick(&["<a>", "]]>", "x", " ", ">", "/>", "<!-- c -->", "<![CDATA[x]]>", "=", "=\"v\"", "é", "<!D>", "</a>", "<"])),
        _ => t.insert_str(0, s.pick(&["x", " ", "<", "<!-- c -->", "]]>", "\n", ">", "=", "&"])),
    }
    t
}

fn s_stop(stop: bool) -> bool {
    stop
}

/// Each event parser against the reference parser, with any kind of error details.
fn c31_pieces(s: &mut Src, cx: &mut Ctx) -> R {
    let cfg = gen::cfg(s);
    let (name, what) = *s.pick(&PIECES);
    let stop = s.coin();
    let t = &piece_input(s, &cfg, what, stop);
    let early = s.us(6);
    let keywords = if matches!(what, Piece::Body(_)) { gen::name(s) } else { String::new() };
    cx.case(&(name, t, &cfg, stop, early, &keywords), || {
        format!("{name} of {} (text stops at section ends: {stop}, looking at iterators after {early}, keywords {keywords:?})", show_case(&cfg, t))
    });
    let config: &ParserConfig = &cfg.config();
    let mse = || {
        if stop {
            MarkedSectionEndHandling::StopParsing
        } else {
            MarkedSectionEndHandling::TreatAsText
        }
    };
    macro_rules! run {
        ($e:ty) => {
            match what {
                Piece::Declaration => counted(ev::markup_declaration::<$e>(t, config), early)?,
                Piece::Section => counted(ev::marked_section_declaration::<$e>(t, config), early)?,
                Piece::Body(st) => {
                    let st = match st {
                        Status::Include => MarkedSectionStatus::Include,
                        Status::RcData => MarkedSectionStatus::RcData,
                        Status::CData => MarkedSectionStatus::CData,
                        Status::Ignore => MarkedSectionStatus::Ignore,
                    };
                    counted(ev::marked_section_body::<$e>(t, Cow::Borrowed(keywords.as_str()), st, config), early)?
                }
                Piece::Pi => counted(ev::processing_instruction::<$e>(t, config), early)?,
                Piece::StartTag => counted(ev::start_tag::<$e>(t, config), early)?,
                Piece::OpenStartTag => one(ev::open_start_tag::<$e>(t, config)),
                Piece::CloseStartTag => one(ev::close_start_tag::<$e>(t)),
                Piece::XmlClose => one(ev::xml_close_empty_element::<$e>(t)),
                Piece::EmptyStartTag => counted(ev::empty_start_tag::<$e>(t), early)?,
                Piece::Attribute => one(ev::attribute::<$e>(t, config)),
                Piece::Text => counted(ev::text::<$e>(t, config, mse()), early)?,
                Piece::Item => counted(ev::content_item::<$e>(t, config, mse()), early)?,
                Piece::Prolog => ev::prolog::<$e>(t, config).ok().map(|(rest, evs)| (rest, owned(evs.into_iter()))),
                Piece::Content => all(ev::content::<$e>(t, config, mse())),
            }
        };
    }
    let got: Got = run!(E);
    let plain: Got = run!(nom::error::Error<&str>);
    ensure!(got == plain, "{name} gives {got:?}, with plain errors {plain:?}");
    let unit: Got = run!(Nothing);
    ensure!(got == unit, "{name} gives {got:?}, without error details {unit:?}");
    let want = refimpl::piece(what, t, &cfg, stop, &keywords);
    cx.label(match &want {
        None => "no such piece",
        Some(w) if w.broken => "broken after some",
        _ => "taken",
    });
    cx.nontrivial_if(want.is_some());
    match (got, want) {
        (None, None) => {}
        (None, Some(Took { broken: true, .. })) => {}
        (Some((rest, evs)), Some(w)) => {
            ensure!(t.ends_with(rest), "{name}: {rest:?} is no rest of the input");
            let n = t.len() - rest.len();
            if w.broken {
                ensure!(n >= w.len, "{name} takes {:?}, expected {:?} at least", &t[..n], &t[..w.len]);
                let more = refimpl::trim(skip_blank(&t[w.len..n]));
                ensure!(more.is_empty(), "{name} takes {more:?} of something malformed");
            } else {
                ensure!(n == w.len, "{name} takes {:?}, expected {:?}", &t[..n], &t[..w.len]);
            }
            ensure!(evs == w.events, "{name}: {}", diff(&evs, &w.events));
        }
        (Some((rest, evs)), None) => {
            return fail(format!("{name} takes {:?} as {evs:?}, which is no such piece", &t[..t.len() - rest.len()]))
        }
        (None, Some(w)) => return fail(format!("{name} fails, expected to take {:?}", &t[..w.len])),
    }
    Ok(())
}

fn skip_blank(t: &str) -> &str {
    let mut t = t;
    loop {
        let r = refimpl::trim(skip_comments(t));
        if r.len() == t.len() {
            return r;
        }
        t = r;
    }
}

/// Error details that keep nothing.
#[derive(Debug)]
struct Nothing;
impl<I> nom::error::ParseError<I> for Nothing {
    fn from_error_kind(_: I, _: nom::error::ErrorKind) -> Self {
        Nothing
    }
    fn append(_: I, _: nom::error::ErrorKind, _: Self) -> Self {
        Nothing
    }
}
impl<I> nom::error::ContextError<I> for Nothing {}
impl<I> nom::error::FromExternalError<I, sgmlish::Error> for Nothing {
    fn from_external_error(_: I, _: nom::error::ErrorKind, _: sgmlish::Error) -> Self {
        Nothing
    }
}

/// Every content item is, on its own inside an element, a document with the same events.
fn c31_alone(s: &mut Src, cx: &mut Ctx) -> R {
    let cfg = gen::cfg(s);
    let t = &piece_input(s, &cfg, Piece::Item, false);
    cx.case(&(t, &cfg), || show_case(&cfg, t));
    let config = cfg.config();
    let r = ev::content_item::<E>(t, &config, MarkedSectionEndHandling::TreatAsText);
    let Some((rest, evs)) = all(r) else { return Err(Stop::Discard) };
    let n = t.len() - rest.len();
    assume!(n > 0);
    let taken = format!("<r>{}", &t[..n]);
    match events(&cfg, &taken) {
        Ok(mut w) => {
            w.drain(..2);
            cx.nontrivial_if(w.len() > 1);
            ensure!(evs == w, "content_item: {}", diff(&evs, &w));
        }
        Err(e) => return fail(format!("content_item takes {:?}, which is rejected: {e}", &t[..n])),
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C31",
        subs: vec![
            sub("document", c31_document, 150_000),
            sub("stepwise", c31_stepwise, 200_000),
            sub("pieces", c31_pieces, 600_000),
            sub("alone", c31_alone, 150_000),
        ],
        probes: vec![],
        rule: "the document is rejected or has more than two items; the piece is one the input starts with",
    }]
}
