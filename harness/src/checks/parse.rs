//! Properties of the parser: C01-C03, C05-C11.

use crate::doc::{self, Body, Item, Opts, G};
use crate::engine::*;
use crate::gen::{self, Cfg};
use crate::refimpl::{self, diff, merge_text, owned, show, Ev, Status};
use crate::{assume, ensure};
use sgmlish::marked_sections::MarkedSectionStatus;
use sgmlish::parser::{ContextualizedError, MarkedSectionHandling, NameNormalization};
use sgmlish::{Parser, SgmlEvent, SgmlFragment};
use std::borrow::Cow;

pub fn events(cfg: &Cfg, src: &str) -> Result<Vec<Ev>, String> {
    match cfg.build().parse(src) {
        Ok(f) => Ok(owned(f.as_slice())),
        Err(e) => Err(e.to_string()),
    }
}

pub fn show_case(cfg: &Cfg, src: &str) -> String {
    format!("config: {cfg:?}\ninput: {src:?}")
}

fn kinds(evs: &[SgmlEvent]) -> usize {
    let mut k = [false; 9];
    for e in evs {
        k[match e {
            SgmlEvent::MarkupDeclaration { .. } => 0,
            SgmlEvent::ProcessingInstruction(_) => 1,
            SgmlEvent::MarkedSection { .. } => 2,
            SgmlEvent::OpenStartTag { .. } => 3,
            SgmlEvent::Attribute { .. } => 4,
            SgmlEvent::CloseStartTag => 5,
            SgmlEvent::XmlCloseEmptyElement => 6,
            SgmlEvent::EndTag { .. } => 7,
            SgmlEvent::Character(_) => 8,
        }] = true;
    }
    k.iter().filter(|x| **x).count()
}

fn label_events(cx: &mut Ctx, evs: &[SgmlEvent]) {
    for e in evs {
        match e {
            SgmlEvent::MarkupDeclaration { .. } => cx.label("declaration"),
            SgmlEvent::ProcessingInstruction(_) => cx.label("instruction"),
            SgmlEvent::MarkedSection { .. } => cx.label("kept section"),
            SgmlEvent::Attribute { value: None, .. } => cx.label("attribute without value"),
            SgmlEvent::Attribute { .. } => cx.label("attribute"),
            SgmlEvent::XmlCloseEmptyElement => cx.label("xml close"),
            SgmlEvent::OpenStartTag { name } | SgmlEvent::EndTag { name } if name.is_empty() => {
                cx.label("empty tag")
            }
            SgmlEvent::Character(_) => cx.label("text"),
            _ => {}
        }
    }
}

/// The parse of a built document against the events it was built to have.
fn check_built(d: &doc::Doc, cfg: &Cfg, src: &str, cx: &mut Ctx) -> R {
    let want = doc::expected(d, cfg);
    let got = events(cfg, src);
    match (got, want) {
        (Ok(got), Some(want)) => {
            label_events(cx, &want);
            cx.label_if(want.len() > 60, "long document");
            ensure!(got == want, "wrong events: {}", diff(&got, &want));
        }
        (Err(_), None) => cx.label("rejected"),
        (Ok(got), None) => {
            return fail(format!(
                "a document that has to be rejected was accepted as\n{}",
                show(&got)
            ))
        }
        (Err(e), Some(want)) => {
            return fail(format!(
                "a well-formed document was rejected: {e}\nexpected events:\n{}",
                show(&want)
            ))
        }
    }
    Ok(())
}

/// The parse of any text against the reference parser.
fn check_diff(cfg: &Cfg, src: &str, cx: &mut Ctx) -> R {
    // Form feeds among keywords: whether they separate is not specified
    assume!(!src.contains('\u{c}') || !src.contains("<!["));
    let want = refimpl::parse(src, cfg);
    let got = events(cfg, src);
    match (got, want) {
        (Ok(got), Ok(want)) => {
            cx.label("accepted");
            label_events(cx, &want);
            ensure!(got == want, "wrong events: {}", diff(&got, &want));
        }
        (Err(_), Err(e)) => match e.why {
            refimpl::Why::Syntax => cx.label("rejected: syntax"),
            refimpl::Why::Undefined(_) => cx.label("rejected: undefined reference"),
            refimpl::Why::Keyword => cx.label("rejected: keyword"),
        },
        (Ok(got), Err(e)) => {
            return fail(format!(
                "accepted, but malformed ({:?} at byte {}); events\n{}",
                e.why,
                e.pos,
                show(&got)
            ))
        }
        (Err(e), Ok(want)) => {
            return fail(format!(
                "rejected, but well formed: {e}\nexpected events:\n{}",
                show(&want)
            ))
        }
    }
    Ok(())
}

fn built_with(s: &mut Src, cx: &mut Ctx, cfg: Cfg, o: Opts) -> Result<(doc::Doc, Cfg, String), Stop> {
    let d = doc::doc(s, &cfg, &o);
    let src = doc::render(&d);
    cx.case(&(&src, &cfg), || show_case(&cfg, &src));
    Ok((d, cfg, src))
}

// ---------------------------------------------------------------- C01

fn c01_total(s: &mut Src, cx: &mut Ctx) -> R {
    let cfg = gen::cfg(s);
    let src = match s.below(6) {
        0 => gen::any_string(s, 3000),
        1 | 2 => doc::soup(s),
        3 => {
            let d = doc::doc(
                s,
                &cfg,
                &Opts {
                    invalid: true,
                    ..Opts::default()
                },
            );
            doc::render(&d)
        }
        _ => {
            let d = doc::doc(s, &cfg, &Opts::default());
            let t = doc::render(&d);
            doc::mutate(s, &t)
        }
    };
    // Long lines of wide characters before, and around, whatever is wrong
    let src = if s.one_in(3) {
        let c = gen::any_char(s);
        let n = s.range(0, 130);
        let at = s.range(0, 3);
        let run: String = std::iter::repeat(c).take(n).collect();
        let run = if at == 3 { format!("\n{run}") } else { run };
        let k = src
            .char_indices()
            .map(|(i, _)| i)
            .chain([src.len()])
            .nth(s.range(0, src.chars().count()))
            .unwrap_or(0);
        let mut t = src.clone();
        t.insert_str(k, &run);
        t
    } else {
        src
    };
    cx.case(&(&src, &cfg), || show_case(&cfg, &src));
    let p = cfg.build();
    let a = p.parse(&src);
    cx.label(if a.is_ok() { "accepted" } else { "rejected" });
    cx.nontrivial_if(src.len() > 3);
    let (a_ev, a_msg) = match &a {
        Ok(f) => (Some(f.clone()), None),
        Err(e) => (None, Some(e.to_string())),
    };
    if let Some(m) = &a_msg {
        ensure!(!m.is_empty(), "empty error message");
    }
    // Again, with the same parser
    match (&a, p.parse(&src)) {
        (Ok(x), Ok(y)) => ensure!(*x == y, "a second parse gives other events"),
        (Err(x), Err(y)) => ensure!(
            x.to_string() == y.to_string(),
            "a second parse gives another error"
        ),
        _ => return fail("a second parse disagrees on acceptance"),
    }
    // Through every kind of error detail
    fn same(
        want: &Option<SgmlFragment>,
        got: Option<SgmlFragment>,
        what: &str,
    ) -> R {
        match (want, got) {
            (Some(w), Some(g)) => {
                ensure!(*w == g, "other events with error type {what}")
            }
            (None, None) => {}
            (w, _) => {
                return fail(format!(
                    "error type {what} changes acceptance (parse: {})",
                    if w.is_some() { "accepted" } else { "rejected" }
                ))
            }
        }
        Ok(())
    }
    same(&a_ev, p.parse_with_detailed_errors::<()>(&src).ok(), "()")?;
    same(
        &a_ev,
        p.parse_with_detailed_errors::<nom::error::Error<&str>>(&src).ok(),
        "nom::error::Error",
    )?;
    same(
        &a_ev,
        p.parse_with_detailed_errors::<nom::error::VerboseError<&str>>(&src)
            .ok(),
        "nom::error::VerboseError",
    )?;
    let detailed = p.parse_with_detailed_errors::<ContextualizedError<&str>>(&src);
    if let Err(e) = &detailed {
        let input: &str = &src;
        let t = e.describe(&input);
        ensure!(
            Some(&t) == a_msg.as_ref(),
            "parse reports another message than its detailed error describes"
        );
        let mut u = String::new();
        ensure!(
            e.describe_to(&input, &mut u).is_ok() && u == t,
            "describe_to disagrees with describe"
        );
        let _ = format!("{e:?}");
    }
    same(&a_ev, detailed.ok(), "ContextualizedError")?;
    // A parser of its own
    same(&a_ev, cfg.build().parse(&src).ok(), "(fresh parser)")?;
    Ok(())
}

fn c01_reuse(s: &mut Src, cx: &mut Ctx) -> R {
    let cfg = gen::cfg(s);
    let n = s.range(2, 6);
    let mut inputs = vec![];
    for _ in 0..n {
        let t = match s.below(3) {
            0 => doc::soup(s),
            1 => {
                let d = doc::doc(s, &cfg, &Opts { max_items: 6, invalid: true, ..Opts::default() });
                doc::render(&d)
            }
            _ => {
                let d = doc::doc(s, &cfg, &Opts { max_items: 6, ..Opts::default() });
                let t = doc::render(&d);
                doc::mutate(s, &t)
            }
        };
        inputs.push(t);
    }
    // Other parsers that differ in one setting, and take turns with this one
    let mut cfgs = vec![cfg.clone()];
    for _ in 0..s.below(3) {
        let mut c = cfg.clone();
        match s.below(7) {
            0 | 1 => c.ents = None,
            2 => c.ents = gen::entities(s),
            3 => c.pents = gen::pentities(s),
            4 => c.trim = !c.trim,
            5 => c.ms = s.below(3) as u8,
            _ => c.norm = s.below(3) as u8,
        }
        cfgs.push(c);
    }
    let parsers: Vec<Parser> = cfgs.iter().map(|c| c.build()).collect();
    let order: Vec<(usize, usize)> = (0..s.range(n, 3 * n)).map(|_| (s.us(cfgs.len()), s.us(n))).collect();
    cx.case(&(&inputs, &order, &cfgs), || {
        format!("configs: {cfgs:#?}\ninputs: {inputs:#?}\norder (config, input): {order:?}")
    });
    cx.nontrivial = true;
    cx.label_if(cfgs.len() > 1, "several parsers");
    let fresh: Vec<_> = inputs
        .iter()
        .map(|i| cfg.build().parse(i).map_err(|e| e.to_string()))
        .collect();
    cx.label_if(fresh.iter().any(|f| f.is_ok()) && fresh.iter().any(|f| f.is_err()), "accepted and rejected");
    let mut known: std::collections::HashMap<(usize, usize), Result<SgmlFragment, String>> =
        fresh.iter().cloned().enumerate().map(|(i, f)| ((0, i), f)).collect();
    // Until they do what they are meant to do, other parsers must not have made a difference
    for k in (0..cfgs.len()).rev() {
        for i in 0..n {
            if k > 0 {
                let r = parsers[k].parse(&inputs[i]).map_err(|e| e.to_string());
                known.entry((k, i)).or_insert(r);
            }
        }
    }
    for &(k, i) in &order {
        let got = parsers[k].parse(&inputs[i]).map_err(|e| e.to_string());
        let want = &known[&(k, i)];
        ensure!(
            got == *want,
            "input {i} parsed by parser {k} after others gives {got:?}, before {want:?}",
        );
    }
    if cfg == Cfg::default() {
        for (i, t) in inputs.iter().enumerate() {
            ensure!(
                sgmlish::parse(t).map_err(|e| e.to_string()) == fresh[i],
                "sgmlish::parse differs from the default parser"
            );
        }
    }
    Ok(())
}

fn c01_default(s: &mut Src, cx: &mut Ctx) -> R {
    // `parse`, `Parser::new` and `Parser::builder` are the same default
    let t = match s.below(2) {
        0 => doc::soup(s),
        _ => {
            let cfg = Cfg::default();
            let d = doc::doc(s, &cfg, &Opts { invalid: true, ..Opts::default() });
            doc::render(&d)
        }
    };
    cx.case(&t, || format!("input: {t:?}"));
    cx.nontrivial_if(t.len() > 3);
    let a = sgmlish::parse(&t).map_err(|e| e.to_string());
    let b = Parser::new().parse(&t).map_err(|e| e.to_string());
    let c = Parser::builder().parse(&t).map_err(|e| e.to_string());
    let d = Cfg::default().build().parse(&t).map_err(|e| e.to_string());
    ensure!(a == b && b == c && c == d, "default parsers disagree: {a:?} {b:?} {c:?} {d:?}");
    Ok(())
}

// ---------------------------------------------------------------- C02

fn c02_built(s: &mut Src, cx: &mut Ctx) -> R {
    let cfg = gen::cfg(s);
    let (d, cfg, src) = built_with(s, cx, cfg, Opts::default())?;
    let r = check_built(&d, &cfg, &src, cx);
    if let Some(w) = doc::expected(&d, &cfg) {
        cx.nontrivial_if(kinds(&w) >= 4);
    }
    r
}

fn c02_tags(s: &mut Src, cx: &mut Ctx) -> R {
    // Tags only, with every lexical variation
    let cfg = Cfg {
        ents: gen::entities(s),
        ..Cfg::default()
    };
    let o = Opts {
        sections: false,
        pis: false,
        decls: false,
        comments: s.coin(),
        max_items: 8,
        ..Opts::default()
    };
    let (d, cfg, src) = built_with(s, cx, cfg, o)?;
    cx.nontrivial_if(d.items.iter().any(|i| matches!(i, Item::Open{attrs,..} if attrs.len() > 1)));
    check_built(&d, &cfg, &src, cx)
}

fn c02_prolog(s: &mut Src, cx: &mut Ctx) -> R {
    let cfg = Cfg { trim: s.coin(), ..Cfg::default() };
    let o = Opts::default();
    let g = G { cfg: &cfg, o: &o };
    let mut prolog = vec![];
    for _ in 0..s.range(1, 5) {
        prolog.push(match s.below(6) {
            0 => Item::Pi(g.pi_body(s)),
            1 => Item::Comment(g.comment(s)),
            2 => Item::Gap(gen::ws(s, 3)),
            _ => g.decl(s),
        });
    }
    let d = doc::Doc {
        prolog,
        items: vec![g.open(s)],
    };
    let src = doc::render(&d);
    cx.case(&(&src, &cfg), || show_case(&cfg, &src));
    cx.nontrivial = true;
    check_built(&d, &cfg, &src, cx)
}

// ---------------------------------------------------------------- C03

fn c03_soup(s: &mut Src, cx: &mut Ctx) -> R {
    let cfg = gen::cfg(s);
    let src = doc::soup(s);
    cx.case(&(&src, &cfg), || show_case(&cfg, &src));
    cx.nontrivial_if(src.contains('<') && src.len() > 4);
    check_diff(&cfg, &src, cx)
}

fn c03_short(s: &mut Src, cx: &mut Ctx) -> R {
    // Short strings over the markup alphabet
    const A: [&str; 20] = [
        "<", ">", "!", "-", "[", "]", "/", "?", "a", "=", "\"", "'", "&", "#", ";", " ", "%", "1", "CDATA", "INCLUDE",
    ];
    let cfg = Cfg {
        trim: s.coin(),
        ms: s.below(3) as u8,
        ents: if s.coin() { Some(vec![("a".into(), "X".into())]) } else { None },
        ..Cfg::default()
    };
    let mut src = String::new();
    src.push_str(s.pick(&["", "<a>", "<a", "<a>t", "<!a ", "<a><![", "<a b", "<![INCLUDE["]));
    for _ in 0..s.range(1, 9) {
        src.push_str(s.pick(&A));
    }
    src.push_str(s.pick(&["", "", ">", "<a>", "]]>", "-->"]));
    cx.case(&(&src, &cfg), || show_case(&cfg, &src));
    cx.nontrivial = true;
    check_diff(&cfg, &src, cx)
}

fn c03_mutated(s: &mut Src, cx: &mut Ctx) -> R {
    let cfg = gen::cfg(s);
    let heavy = s.one_in(3);
    let d = doc::doc(
        s,
        &cfg,
        &Opts {
            max_items: 8,
            long: 40,
            heavy_sections: heavy,
            ..Opts::default()
        },
    );
    let t = doc::render(&d);
    let src = doc::mutate(s, &t);
    cx.case(&(&src, &cfg), || show_case(&cfg, &src));
    cx.nontrivial_if(src != t);
    check_diff(&cfg, &src, cx)
}

fn c03_invalid(s: &mut Src, cx: &mut Ctx) -> R {
    let cfg = gen::cfg(s);
    let o = Opts {
        invalid: true,
        heavy_refs: s.coin(),
        heavy_sections: s.coin(),
        ..Opts::default()
    };
    let (d, cfg, src) = built_with(s, cx, cfg, o)?;
    cx.nontrivial_if(doc::expected(&d, &cfg).is_none());
    check_built(&d, &cfg, &src, cx)
}

/// Cuts a well-formed document at every character: only cuts that leave all constructs complete
/// are accepted.
fn c03_truncated(s: &mut Src, cx: &mut Ctx) -> R {
    let cfg = gen::cfg(s);
    let d = doc::doc(
        s,
        &cfg,
        &Opts {
            max_items: 4,
            long: 12,
            ..Opts::default()
        },
    );
    let src = doc::render(&d);
    cx.case(&(&src, &cfg), || show_case(&cfg, &src));
    cx.nontrivial_if(src.len() > 10);
    let cuts: Vec<usize> = src.char_indices().map(|(i, _)| i).collect();
    if cuts.len() > 250 {
        return Err(Stop::Discard);
    }
    for i in cuts {
        let t = &src[..i];
        if let Err(Stop::Fail(m)) = check_diff(&cfg, t, cx) {
            return fail(format!("cut to {t:?}: {m}"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C05

fn c05_built(s: &mut Src, cx: &mut Ctx) -> R {
    let mut cfg = gen::cfg(s);
    if s.coin() && cfg.ents.is_none() {
        cfg.ents = gen::entities(s);
    }
    let o = Opts {
        heavy_refs: true,
        heavy_sections: s.one_in(3),
        invalid: s.one_in(3),
        ..Opts::default()
    };
    let (d, cfg, src) = built_with(s, cx, cfg, o)?;
    cx.nontrivial_if(src.contains('&'));
    cx.label_if(cfg.ents.is_none(), "no lookup");
    check_built(&d, &cfg, &src, cx)
}

/// Every lookup is asked for once, in the order of the references.
fn c05_lookups(s: &mut Src, cx: &mut Ctx) -> R {
    let mut cfg = gen::cfg(s);
    if cfg.ents.is_none() {
        cfg.ents = gen::entities(s);
    }
    let o = Opts { heavy_refs: true, heavy_sections: s.coin(), invalid: s.one_in(4), ..Opts::default() };
    let mut src = doc::render(&doc::doc(s, &cfg, &o));
    if s.one_in(4) {
        src = doc::mutate(s, &src);
    }
    cx.case(&(&src, &cfg), || show_case(&cfg, &src));
    let p = cfg.build();
    let (got, asked) = gen::calls(|| p.parse(&src).is_ok());
    let (want, expected) = gen::calls(|| refimpl::parse(&src, &cfg));
    // (how far one reads before the other sees that it is not well formed is up to it)
    assume!(!matches!(&want, Err(e) if e.why == refimpl::Why::Syntax));
    ensure!(got == want.is_ok(), "accepted: {got}, well formed: {}", want.is_ok());
    cx.label(if got { "accepted" } else { "rejected" });
    cx.nontrivial_if(expected.len() > 1);
    ensure!(asked == expected, "the lookups were asked for {asked:?}, expected {expected:?}");
    Ok(())
}

/// One reference at one place: expanded or left alone as the place says.
fn c05_places(s: &mut Src, cx: &mut Ctx) -> R {
    let mut cfg = gen::cfg(s);
    cfg.ignore_md = false;
    cfg.ignore_pi = false;
    let (name, val) = {
        let n = s.pick(&gen::ENTITY_NAMES).to_string();
        let v = s.pick(&gen::ENTITY_VALUES).to_string();
        (n, v)
    };
    let defined = s.below(3) != 0;
    let mut m = vec![("zz".to_string(), "ZZ".to_string())];
    if defined {
        m.push((name.clone(), val.clone()));
    }
    // (undefined, too, when there is no lookup at all)
    cfg.ents = if s.one_in(5) { None } else { Some(m) };
    let reference = format!("&{name};");
    let (pre, post) = (
        *s.pick(&["", "é", "x ", "日本 ", "&zz;", "&#60;"]),
        *s.pick(&["", "é", " y", "&zz;", "&#38;amp;", ";"]),
    );
    let t = format!("{pre}{reference}{post}");
    let exp = |t: &str| refimpl::expand_text(t, &cfg).ok();
    let place = s.us(9);
    // Source, and the events of which the outcome depends on the place
    let (src, want): (String, Option<Vec<Ev>>) = {
        let open = |name: &str| SgmlEvent::OpenStartTag {
            name: refimpl::norm_name(name, cfg.norm).into(),
        };
        let attr = |v: String| SgmlEvent::Attribute {
            name: refimpl::norm_name("b", cfg.norm).into(),
            value: Some(v.into()),
        };
        let sect = |k: &str, t: &str, e: Option<String>| {
            if cfg.ms == 2 {
                Some(SgmlEvent::MarkedSection {
                    status_keywords: k.to_owned().into(),
                    section: t.to_owned().into(),
                })
            } else {
                e.map(|e| SgmlEvent::Character(e.into()))
            }
        };
        match place {
            0 => (
                format!("<a>{t}"),
                exp(&t).map(|x| vec![open("a"), SgmlEvent::CloseStartTag, SgmlEvent::Character(x.into())]),
            ),
            1 => (
                format!("<a b=\"{t}\">"),
                exp(&t).map(|x| vec![open("a"), attr(x), SgmlEvent::CloseStartTag]),
            ),
            2 => (
                format!("<a b='{t}'>"),
                exp(&t).map(|x| vec![open("a"), attr(x), SgmlEvent::CloseStartTag]),
            ),
            3 => {
                let t: String = t.replace(' ', "");
                (
                    format!("<a b={t}>"),
                    Some(vec![open("a"), attr(t), SgmlEvent::CloseStartTag]),
                )
            }
            4 => {
                let e = if cfg.ms == 2 { Some(String::new()) } else { exp(&t) };
                (
                    format!("<a><![RCDATA[{t}]]>"),
                    e.and_then(|e| {
                        Some(vec![open("a"), SgmlEvent::CloseStartTag, sect("RCDATA", &t, Some(e))?])
                    }),
                )
            }
            5 => (
                format!("<a><![CDATA[{t}]]>"),
                sect("CDATA", &t, Some(t.clone()))
                    .map(|e| vec![open("a"), SgmlEvent::CloseStartTag, e]),
            ),
            6 => (
                format!("<?{t}><a>"),
                Some(vec![
                    SgmlEvent::ProcessingInstruction(format!("<?{t}>").into()),
                    open("a"),
                    SgmlEvent::CloseStartTag,
                ]),
            ),
            7 => (
                format!("<!D \"{t}\" {reference}><a>"),
                Some(vec![
                    SgmlEvent::MarkupDeclaration {
                        keyword: "D".into(),
                        body: format!("\"{t}\" {reference}").into(),
                    },
                    open("a"),
                    SgmlEvent::CloseStartTag,
                ]),
            ),
            _ => (
                format!("<a><!-- {t} -->"),
                Some(vec![open("a"), SgmlEvent::CloseStartTag]),
            ),
        }
    };
    cx.case(&(&src, &cfg), || show_case(&cfg, &src));
    cx.nontrivial = true;
    cx.label([
        "text", "double-quoted", "single-quoted", "unquoted", "RCDATA", "CDATA", "instruction", "declaration", "comment",
    ][place]);
    match (events(&cfg, &src), want) {
        (Ok(g), Some(w)) => ensure!(g == w, "wrong events: {}", diff(&g, &w)),
        (Err(_), None) => cx.label("undefined"),
        (Ok(g), None) => return fail(format!("an undefined reference was accepted:\n{}", show(&g))),
        (Err(e), Some(w)) => {
            return fail(format!("rejected: {e}\nexpected:\n{}", show(&w)))
        }
    }
    Ok(())
}

fn c05_keywords(s: &mut Src, cx: &mut Ctx) -> R {
    // Parameter entities: only in section keywords
    let cfg = gen::cfg(s);
    let o = Opts {
        heavy_sections: true,
        max_items: 4,
        invalid: s.one_in(3),
        ..Opts::default()
    };
    let (d, cfg, src) = built_with(s, cx, cfg, o)?;
    cx.nontrivial_if(src.contains('%'));
    check_built(&d, &cfg, &src, cx)
}

// ---------------------------------------------------------------- C06

fn c06_built(s: &mut Src, cx: &mut Ctx) -> R {
    let cfg = gen::cfg(s);
    let o = Opts {
        heavy_ws: true,
        ..Opts::default()
    };
    let (d, mut cfg, src) = built_with(s, cx, cfg, o)?;
    cx.nontrivial_if(d.items.iter().any(|i| {
        matches!(i, Item::Text(t) if t.len() != refimpl::trim(t).len())
    }));
    for trim in [true, false] {
        cfg.trim = trim;
        check_built(&d, &cfg, &src, cx)?;
    }
    Ok(())
}

/// Whitespace of every kind around text, in the open and in sections.
fn c06_edges(s: &mut Src, cx: &mut Ctx) -> R {
    let edge = |s: &mut Src| -> String {
        let mut o = String::new();
        for _ in 0..s.size(6) {
            match s.below(8) {
                0..=4 => o.push(*s.pick(&gen::SGML_WS)),
                5 => o.push(*s.pick(&gen::OTHER_WS)),
                6 => o.push_str(s.pick(&["&#32;", "&#10;", "&#9;", "&#13;", "&sp;", "&#160;", "&nil;"])),
                _ => o.push(*s.pick(&gen::ODD)),
            }
        }
        o
    };
    let a = edge(s);
    let b = edge(s);
    let mid = *s.pick(&["", "x", "x y", "x \n\t y", "é", "]]", "&#32;x", "x&#32;"]);
    let t = format!("{a}{mid}{b}");
    let kind = s.us(5);
    let cfg0 = Cfg {
        ms: 1,
        ents: Some(vec![("sp".into(), " ".into()), ("nil".into(), "".into())]),
        ..Cfg::default()
    };
    let wrap = |t: &str| match kind {
        0 => format!("<a>{t}</a>"),
        1 => format!("<a><![CDATA[{t}]]></a>"),
        2 => format!("<a><![RCDATA[{t}]]></a>"),
        3 => format!("<a><![INCLUDE[{t}]]></a>"),
        _ => format!("<a>x<!-- -->{t}<?pi></a>"),
    };
    let src = wrap(&t);
    cx.case(&src, || format!("input: {src:?}"));
    cx.nontrivial_if(!a.is_empty() || !b.is_empty());
    cx.label(["text", "CDATA", "RCDATA", "INCLUDE", "text after comment"][kind]);
    for trim in [true, false] {
        let cfg = Cfg {
            trim,
            ..cfg0.clone()
        };
        let body = if trim { refimpl::trim(&t) } else { &t };
        let exp = if kind == 1 {
            body.to_owned()
        } else {
            refimpl::expand_text(body, &cfg).unwrap()
        };
        let present = kind == 1 || kind == 2 || !body.is_empty();
        let got = events(&cfg, &src).or_else(|e| fail(format!("rejected: {e}")))?;
        let mut want: Vec<Ev> = vec![
            SgmlEvent::OpenStartTag { name: "a".into() },
            SgmlEvent::CloseStartTag,
        ];
        if kind == 4 {
            want.push(SgmlEvent::Character("x".into()));
        }
        if present {
            want.push(SgmlEvent::Character(exp.into()));
        }
        if kind == 4 {
            want.push(SgmlEvent::ProcessingInstruction("<?pi>".into()));
        }
        want.push(SgmlEvent::EndTag { name: "a".into() });
        ensure!(got == want, "trim {trim}: {}", diff(&got, &want));
    }
    // The configuration's own function
    for trim in [true, false] {
        let cfg = Parser::builder().trim_whitespace(trim).into_config();
        let want = if trim { refimpl::trim(&t) } else { &t };
        ensure!(cfg.trim(&t) == want, "ParserConfig::trim({t:?}) = {:?}", cfg.trim(&t));
    }
    for c in t.chars() {
        ensure!(
            sgmlish::text::is_sgml_whitespace(c) == gen::SGML_WS.contains(&c),
            "is_sgml_whitespace({c:?})"
        );
    }
    Ok(())
}

/// Everything but text is the same with and without trimming.
fn c06_others(s: &mut Src, cx: &mut Ctx) -> R {
    let mut cfg = gen::cfg(s);
    let t = if s.coin() {
        let d = doc::doc(s, &cfg, &Opts { heavy_ws: true, ..Opts::default() });
        doc::render(&d)
    } else {
        doc::soup(s)
    };
    let src = doc::mutate(s, &t);
    cx.case(&(&src, &cfg), || show_case(&cfg, &src));
    cfg.trim = true;
    let a = events(&cfg, &src);
    cfg.trim = false;
    let b = events(&cfg, &src);
    match (a, b) {
        (Ok(a), Ok(b)) => {
            cx.nontrivial_if(a != b);
            let f = |v: &[Ev]| -> Vec<Ev> {
                v.iter()
                    .filter(|e| !matches!(e, SgmlEvent::Character(_)))
                    .cloned()
                    .collect()
            };
            ensure!(f(&a) == f(&b), "other events change with trimming: {}", diff(&f(&a), &f(&b)));
        }
        (Err(_), Err(_)) => cx.label("rejected"),
        (a, b) => return fail(format!("acceptance depends on trimming: {a:?} / {b:?}")),
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

fn c07_keywords(s: &mut Src, cx: &mut Ctx) -> R {
    let n = *s.pick(&[0, 1, 1, 2, 2, 3, 4, 8]);
    let mut t = gen::ws(s, 2);
    for i in 0..n {
        if i > 0 {
            t.push_str(&gen::ws1(s, 2));
        }
        if s.one_in(6) {
            t.push_str(&gen::no_keyword(s));
        } else {
            let k = *s.pick(&gen::KEYWORDS);
            t.push_str(&doc::odd_case(s, k));
        }
    }
    t.push_str(&gen::ws(s, 2));
    cx.case(&t, || format!("keywords: {t:?}"));
    cx.nontrivial_if(n > 0);
    let conv = |s: MarkedSectionStatus| match s {
        MarkedSectionStatus::Include => Status::Include,
        MarkedSectionStatus::RcData => Status::RcData,
        MarkedSectionStatus::CData => Status::CData,
        MarkedSectionStatus::Ignore => Status::Ignore,
    };
    let want = refimpl::status(&t);
    cx.label(match &want {
        Ok(Status::Include) => "include",
        Ok(Status::RcData) => "rcdata",
        Ok(Status::CData) => "cdata",
        Ok(Status::Ignore) => "ignore",
        Err(_) => "unknown",
    });
    let got = MarkedSectionStatus::from_keywords(&t)
        .map(conv)
        .map_err(str::to_owned);
    ensure!(got == want, "from_keywords: {got:?}, expected {want:?}");
    for mode in [MarkedSectionHandling::ExpandAll, MarkedSectionHandling::KeepUnmodified] {
        let got = mode.parse_keywords(&t).map(conv).map_err(str::to_owned);
        ensure!(got == want, "{mode:?}.parse_keywords: {got:?}, expected {want:?}");
    }
    for t in [t.as_str(), refimpl::trim(&t)] {
        let m = MarkedSectionHandling::AcceptOnlyCharacterData;
        let got = m.parse_keywords(t).map(conv).map_err(str::to_owned);
        let want = refimpl::status_for(t, 0);
        ensure!(got == want, "{m:?}.parse_keywords({t:?}): {got:?}, expected {want:?}");
        let single = t.parse::<MarkedSectionStatus>().ok().map(conv);
        let want = gen::KEYWORDS
            .iter()
            .position(|k| k.eq_ignore_ascii_case(t))
            .map(|i| [Status::CData, Status::RcData, Status::Include, Status::Ignore, Status::Include][i]);
        ensure!(single == want, "{t:?} parsed as a status: {single:?}, expected {want:?}");
    }
    // Priority is the order of the statuses
    let all = [
        MarkedSectionStatus::Include,
        MarkedSectionStatus::RcData,
        MarkedSectionStatus::CData,
        MarkedSectionStatus::Ignore,
    ];
    for w in all.windows(2) {
        ensure!(w[0] < w[1], "{:?} is not below {:?}", w[0], w[1]);
    }
    ensure!(MarkedSectionStatus::default() == MarkedSectionStatus::Include, "default status");
    Ok(())
}

fn c07_documents(s: &mut Src, cx: &mut Ctx) -> R {
    // One section, with content that tells the statuses apart, under every mode
    let mut cfg = gen::cfg(s);
    cfg.ents = Some(vec![("e".into(), "<E>".into())]);
    let o = Opts {
        invalid: s.one_in(3),
        ..Opts::default()
    };
    let content = *s.pick(&["x", "x&e;<b>y</b>", "&#65;", " x ", "", "<b/>", "a<!-- c -->b"]);
    let mode = s.below(3) as u8;
    cfg.ms = if mode == 0 && s.coin() { 1 } else { mode };
    let kw = {
        let g = G { cfg: &cfg, o: &o };
        g.keyword_list(s)
    };
    cfg.ms = mode;
    let (l, t) = (gen::ws(s, 2), gen::ws(s, 2));
    let prolog = s.one_in(4);
    let src = if prolog {
        format!("<![{l}{kw}{t}[{content}]]><a>")
    } else {
        format!("<a><![{l}{kw}{t}[{content}]]></a>")
    };
    cx.case(&(&src, &cfg), || show_case(&cfg, &src));
    cx.nontrivial = true;
    cx.label(["only character data", "expand", "keep"][mode as usize]);
    let r = check_diff(&cfg, &src, cx);
    // An unknown keyword is the one that is reported
    if r.is_ok() && mode != 0 {
        if let Ok(k) = refimpl::expand_keywords(&kw, &cfg) {
            if let Err(bad) = refimpl::status(&k) {
                let e = events(&cfg, &src).unwrap_err();
                ensure!(e.contains(&bad), "the message does not name {bad:?}: {e}");
                let e = cfg.build().parse_with_detailed_errors::<ContextualizedError<&str>>(&src);
                match e.err().and_then(|e| e.error) {
                    Some(sgmlish::Error::InvalidMarkedSectionKeyword(k)) if k == bad => {}
                    x => return fail(format!("the unknown keyword is {bad:?}, but what is reported is {x:?}")),
                }
                cx.label("unknown keyword");
            }
        }
    }
    r
}

// ---------------------------------------------------------------- C08

fn c08_built(s: &mut Src, cx: &mut Ctx) -> R {
    let mut cfg = gen::cfg(s);
    if s.coin() {
        cfg.ms = 1;
    }
    let o = Opts {
        heavy_sections: true,
        max_items: 6,
        max_depth: 5,
        ..Opts::default()
    };
    let (d, cfg, src) = built_with(s, cx, cfg, o)?;
    cx.nontrivial_if(src.contains("<!["));
    check_built(&d, &cfg, &src, cx)
}

/// Each kind of section around content that contains delimiters, followed by ordinary content.
fn c08_extent(s: &mut Src, cx: &mut Ctx) -> R {
    let kind = *s.pick(&["CDATA", "RCDATA", "IGNORE", "INCLUDE"]);
    const B: [&str; 30] = [
        "x", " ", "<![", "]]>", "]]", "]", "[", "<!", "<![CDATA[", "<![IGNORE[", "<![INCLUDE[", "<![RCDATA[", "<!--", "-->",
        "<!-- ]]> -->", "<b>", "</b>", "<b c=\"]]>\">", "<b c=']]>'>", "<?pi ]]>", ">", "<", "&", "é", "--", "\"", "<b c=]]>",
        "]]]]>", "<![[", "]]><![",
    ];
    let mut body = String::new();
    for _ in 0..s.size(9) {
        body.push_str(s.pick(&B));
    }
    let after = *s.pick(&["", "</a>", "tail", "]]>", " ]]> <c>", "<![CDATA[z]]>", "]]>]]>", "<![IGNORE[]]>t"]);
    let src = format!("<a><![{kind}[{body}]]>{after}");
    let cfg = Cfg {
        trim: s.coin(),
        ms: *s.pick(&[1, 1, 2, 0]),
        ..Cfg::default()
    };
    cx.case(&(&src, &cfg), || show_case(&cfg, &src));
    cx.nontrivial_if(body.contains("]]") || body.contains("<!["));
    check_diff(&cfg, &src, cx)
}

fn unwrap_includes(items: &[Item], cfg: &Cfg, in_section: bool) -> Option<Vec<Item>> {
    let mut out = vec![];
    for i in items {
        match i {
            Item::Section(sec) => {
                let k = refimpl::expand_keywords(&sec.kw, cfg).ok()?;
                match (refimpl::status(&k).ok()?, &sec.body) {
                    (Status::Include, Body::Items(it)) => {
                        out.extend(unwrap_includes(it, cfg, in_section)?)
                    }
                    _ => out.push(i.clone()),
                }
            }
            _ => out.push(i.clone()),
        }
    }
    Some(out)
}

/// Writing the content of INCLUDE sections in place gives the same elements and text.
fn c08_in_place(s: &mut Src, cx: &mut Ctx) -> R {
    let mut cfg = gen::cfg(s);
    cfg.ms = 1;
    cfg.trim = false;
    let o = Opts {
        heavy_sections: true,
        max_items: 6,
        max_depth: 4,
        ..Opts::default()
    };
    let g = G { cfg: &cfg, o: &o };
    let items = g.items(s, 0, true);
    let with = format!("<r>{}</r>", doc::render_items(&items));
    let flat = match unwrap_includes(&items, &cfg, true) {
        Some(f) => f,
        None => return Err(Stop::Discard),
    };
    // Text runs that become adjacent must not join into markup or a reference
    let mut plain = String::from("<r>");
    let mut prev_text = false;
    for i in &flat {
        let t = matches!(i, Item::Text(_));
        if t && prev_text {
            plain.push_str("<!-- -->");
        }
        doc::render_item(i, &mut plain);
        prev_text = t;
    }
    plain.push_str("</r>");
    cx.case(&(&with, &cfg), || format!("{}\nin place: {plain:?}", show_case(&cfg, &with)));
    cx.nontrivial_if(flat != items);
    match (events(&cfg, &with), events(&cfg, &plain)) {
        (Ok(a), Ok(b)) => {
            let (a, b) = (merge_text(&a), merge_text(&b));
            ensure!(a == b, "in sections / in place: {}", diff(&a, &b));
        }
        (a, b) => {
            return fail(format!(
                "not both accepted: in sections {:?}, in place {:?}",
                a.err(),
                b.err()
            ))
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C09

fn fancy_name(s: &mut Src) -> String {
    match s.below(3) {
        0 => gen::name(s),
        1 => {
            let mut o = String::new();
            o.push(*s.pick(&gen::LETTERS));
            for _ in 0..s.size(5) {
                let c = match s.below(3) {
                    0 => *s.pick(&gen::LETTERS),
                    1 => gen::ascii_letter(s),
                    _ => gen::name_char(s),
                };
                o.push(c);
            }
            if gen::is_name(&o) {
                o
            } else {
                "N".into()
            }
        }
        _ => {
            // Letters with any case mapping at all
            let mut o = String::new();
            for _ in 0..s.range(1, 4) {
                let base = *s.pick(&[
                    0x41, 0xc0, 0x100, 0x1c4, 0x370, 0x400, 0x530, 0x10a0, 0x13a0, 0x1e00, 0x1f00, 0x1f80, 0x2100, 0x2160,
                    0x24b6, 0x2c00, 0xa640, 0xa720, 0xab53, 0xfb00, 0xff21, 0x10400, 0x1e900,
                ]);
                if let Some(c) = char::from_u32(base + s.below(64) as u32) {
                    if gen::is_name_char(c) && (!o.is_empty() || gen::is_name_start(c)) {
                        o.push(c);
                    }
                }
            }
            if gen::is_name(&o) {
                o
            } else {
                "n".into()
            }
        }
    }
}

fn c09_documents(s: &mut Src, cx: &mut Ctx) -> R {
    let mut cfg = gen::cfg(s);
    let o = Opts {
        max_items: 8,
        ..Opts::default()
    };
    let mut d = doc::doc(s, &cfg, &o);
    // Names of every script
    fn rename(items: &mut [Item], s: &mut Src) {
        for i in items {
            match i {
                Item::Open { name, attrs, .. } => {
                    *name = fancy_name(s);
                    for a in attrs {
                        a.name = fancy_name(s);
                    }
                }
                Item::End { name, .. } => *name = fancy_name(s),
                Item::Section(sec) => {
                    if let Body::Items(it) = &mut sec.body {
                        rename(it, s)
                    }
                }
                _ => {}
            }
        }
    }
    if s.below(4) != 0 {
        rename(&mut d.items, s);
    }
    let src = doc::render(&d);
    cx.case(&(&src, &cfg), || show_case(&cfg, &src));
    cfg.norm = 0;
    let plain = match events(&cfg, &src) {
        Ok(p) => p,
        Err(e) => return fail(format!("rejected: {e}")),
    };
    let want0 = doc::expected(&d, &cfg).unwrap();
    for norm in [0u8, 1, 2] {
        cfg.norm = norm;
        let got = match events(&cfg, &src) {
            Ok(p) => p,
            Err(e) => return fail(format!("rejected with normalization {norm}: {e}")),
        };
        ensure!(
            got.len() == plain.len(),
            "normalization {norm} changes the number of events: {}",
            diff(&got, &plain)
        );
        for ((g, p), w0) in got.iter().zip(&plain).zip(&want0) {
            let want = match p {
                SgmlEvent::OpenStartTag { name } => SgmlEvent::OpenStartTag {
                    name: refimpl::norm_name(name, norm).into(),
                },
                SgmlEvent::EndTag { name } => SgmlEvent::EndTag {
                    name: refimpl::norm_name(name, norm).into(),
                },
                SgmlEvent::Attribute { name, value } => SgmlEvent::Attribute {
                    name: refimpl::norm_name(name, norm).into(),
                    value: value.clone(),
                },
                e => e.clone(),
            };
            if want != *p {
                cx.nontrivial = true;
                cx.label(if norm == 1 { "lowercased" } else { "uppercased" });
            }
            ensure!(*g == want, "normalization {norm}: {g:?}, expected {want:?}");
            if norm == 0 {
                // As written
                let same = match (g, w0) {
                    (SgmlEvent::OpenStartTag { name: a }, SgmlEvent::OpenStartTag { name: b })
                    | (SgmlEvent::EndTag { name: a }, SgmlEvent::EndTag { name: b })
                    | (SgmlEvent::Attribute { name: a, .. }, SgmlEvent::Attribute { name: b, .. }) => {
                        a == b
                    }
                    _ => true,
                };
                ensure!(same, "name not kept as written: {g:?}, expected {w0:?}");
            }
        }
    }
    Ok(())
}

fn c09_function(s: &mut Src, cx: &mut Ctx) -> R {
    let n = match s.below(4) {
        0 => gen::any_string(s, 200),
        1 => {
            let c = gen::loop_char(s);
            format!("{}{c}{}", s.pick(&["", "a", "A"]), s.pick(&["", "b", "B", "Σ"]))
        }
        _ => fancy_name(s),
    };
    cx.case(&n, || format!("name: {n:?}"));
    cx.nontrivial_if(n.to_lowercase() != n || n.to_uppercase() != n);
    for (mode, m) in [
        (NameNormalization::Unchanged, 0),
        (NameNormalization::ToLowercase, 1),
        (NameNormalization::ToUppercase, 2),
    ] {
        let want = refimpl::norm_name(&n, m);
        let got = mode.normalize(Cow::Borrowed(&n));
        ensure!(got == want, "{mode:?}: {got:?}, expected {want:?}");
        let got = mode.normalize(Cow::Owned(n.clone()));
        ensure!(got == want, "{mode:?} on an owned name: {got:?}, expected {want:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------- C10

fn c10_filter(s: &mut Src, cx: &mut Ctx) -> R {
    let mut cfg = gen::cfg(s);
    cfg.ignore_md = false;
    cfg.ignore_pi = false;
    let t = match s.below(4) {
        0 => doc::soup(s),
        _ => {
            let d = doc::doc(s, &cfg, &Opts { max_items: 8, ..Opts::default() });
            doc::render(&d)
        }
    };
    let t = if s.one_in(3) { doc::mutate(s, &t) } else { t };
    cx.case(&(&t, &cfg), || show_case(&cfg, &t));
    let full = events(&cfg, &t);
    for (md, pi) in [(true, false), (false, true), (true, true)] {
        let c = Cfg {
            ignore_md: md,
            ignore_pi: pi,
            ..cfg.clone()
        };
        match (&full, events(&c, &t)) {
            (Ok(f), Ok(g)) => {
                let want: Vec<Ev> = f
                    .iter()
                    .filter(|e| match e {
                        SgmlEvent::MarkupDeclaration { .. } => !md,
                        SgmlEvent::ProcessingInstruction(_) => !pi,
                        _ => true,
                    })
                    .cloned()
                    .collect();
                cx.nontrivial_if(want.len() != f.len());
                ensure!(g == want, "ignoring declarations {md}, instructions {pi}: {}", diff(&g, &want));
            }
            (Err(_), Err(_)) => cx.label("rejected"),
            (a, b) => {
                return fail(format!(
                    "ignoring declarations {md}, instructions {pi} changes acceptance: {:?} / {:?}",
                    a.as_ref().err(),
                    b.err()
                ))
            }
        }
    }
    Ok(())
}

/// Inserts comments wherever they are allowed.
fn c10_comments(s: &mut Src, cx: &mut Ctx) -> R {
    let mut cfg = gen::cfg(s);
    cfg.trim = s.one_in(4);
    let o = Opts {
        comments: s.coin(),
        max_items: 8,
        heavy_sections: s.one_in(3),
        ..Opts::default()
    };
    if cfg.ms == 2 {
        cfg.ms = 1; // kept sections contain their comments
    }
    let d = doc::doc(s, &cfg, &o);
    let src = doc::render(&d);
    let mut n = 0;
    fn sprinkle(items: &[Item], g: &G, s: &mut Src, n: &mut usize, split: bool, include: &dyn Fn(&str) -> bool) -> Vec<Item> {
        let mut out = vec![];
        for i in items {
            while s.one_in(3) {
                out.push(Item::Comment(g.comment(s)));
                *n += 1;
            }
            match i {
                Item::Text(t) if split && s.coin() => {
                    // Not within a reference, nor within a delimiter that is text on its own
                    let mut cuts = vec![];
                    let mut within = false;
                    for (i, c) in t.char_indices() {
                        if !within {
                            cuts.push(i);
                        }
                        within = "&<]".contains(c) || (within && !refimpl::is_ws(c));
                    }
                    if cuts.is_empty() {
                        out.push(i.clone());
                    } else {
                        let k = *s.pick(&cuts);
                        let (a, b) = t.split_at(k);
                        // Splitting must not uncover markup or change what text is
                        if !a.is_empty() {
                            out.push(Item::Text(a.to_owned()));
                        }
                        out.push(Item::Comment(g.comment(s)));
                        *n += 1;
                        out.push(Item::Text(b.to_owned()));
                    }
                }
                Item::Section(sec) if include(&sec.kw) => {
                    let mut sec = sec.clone();
                    if let Body::Items(it) = &sec.body {
                        sec.body = Body::Items(sprinkle(it, g, s, n, split, include));
                        if s.one_in(3) {
                            if let Body::Items(it) = &mut sec.body {
                                it.push(Item::Comment(g.comment(s)));
                                *n += 1;
                            }
                        }
                    }
                    out.push(Item::Section(sec));
                }
                _ => out.push(i.clone()),
            }
        }
        out
    }
    let g = G { cfg: &cfg, o: &o };
    let include = |kw: &str| {
        refimpl::expand_keywords(kw, &cfg)
            .ok()
            .and_then(|k| refimpl::status(&k).ok())
            == Some(Status::Include)
    };
    let d2 = doc::Doc {
        prolog: sprinkle(&d.prolog, &g, s, &mut n, false, &include),
        items: {
            let mut it = sprinkle(&d.items, &g, s, &mut n, !cfg.trim, &include);
            if s.coin() {
                it.push(Item::Comment(g.comment(s)));
                n += 1;
            }
            it
        },
    };
    // Comments before the content are part of the prolog, where whitespace is skipped anyway
    let src2 = doc::render(&d2);
    cx.case(&(&src, &src2, &cfg), || format!("{}\nwith comments: {src2:?}", show_case(&cfg, &src)));
    cx.nontrivial_if(n > 0);
    match (events(&cfg, &src), events(&cfg, &src2)) {
        (Ok(a), Ok(b)) => {
            let (a, b) = if cfg.trim {
                // Comments between items only: where they part a text run from nothing
                (a, b)
            } else {
                (merge_text(&a), merge_text(&b))
            };
            ensure!(a == b, "comments change the events: {}", diff(&b, &a));
        }
        (Err(_), Err(_)) => return fail("a well-formed document was rejected"),
        (a, b) => {
            return fail(format!(
                "comments change acceptance: without {:?}, with {:?}",
                a.err(),
                b.err()
            ))
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C11

fn redisplay(cfg: &Cfg, f: &SgmlFragment, cx: &mut Ctx) -> R {
    let t = f.to_string();
    if cx.verbose {
        cx.shown.push_str(&format!("\nserialized: {t:?}"));
    }
    let again = match cfg.build().parse(&t) {
        Ok(g) => g,
        Err(e) => return fail(format!("serialized form {t:?} is rejected: {e}")),
    };
    let (a, b) = (merge_text(&owned(f.as_slice())), merge_text(&owned(again.as_slice())));
    ensure!(a == b, "serialized as {t:?}; {}", diff(&b, &a));
    let t2 = again.to_string();
    // Splitting of texts has no bearing on the output
    ensure!(t2 == t, "not a fixed point: {t:?} then {t2:?}");
    Ok(())
}

fn c11_parsed(s: &mut Src, cx: &mut Ctx) -> R {
    let mut cfg = gen::cfg(s);
    let src = if s.below(4) == 0 {
        doc::soup(s)
    } else {
        let o = Opts {
            max_items: 8,
            heavy_refs: s.coin(),
            ..Opts::default()
        };
        let d = doc::doc(s, &cfg, &o);
        let t = doc::render(&d);
        if s.one_in(4) {
            doc::mutate(s, &t)
        } else {
            t
        }
    };
    cx.case(&(&src, &cfg), || show_case(&cfg, &src));
    let p = cfg.build();
    let Ok(f) = p.parse(&src) else {
        return Err(Stop::Discard);
    };
    cx.nontrivial_if(f.len() > 3);
    label_events(cx, f.as_slice());
    if !in_domain(f.as_slice(), &cfg) {
        return Err(Stop::Discard);
    }
    // What trimming would take from the edges of texts can only be kept without it; then texts
    // before the first tag lose their edges as any whitespace of the prolog does
    let trims = f.iter().any(|e| matches!(e, SgmlEvent::Character(t) if refimpl::trim(t) != &**t || t.is_empty()));
    if cfg.trim && trims {
        cx.label("kept whitespace");
        return fixed_without_trim(&mut cfg, &f, cx);
    }
    gen::cut_short(s, &f.to_string(), |w| std::fmt::Write::write_fmt(w, format_args!("{f}")))?;
    redisplay(&cfg, &f, cx)
}

/// What other settings make of a document, they make of its serialization, too.
fn c11_later(s: &mut Src, cx: &mut Ctx) -> R {
    let mut first = gen::cfg(s);
    first.norm = 0;
    first.trim = false;
    first.ignore_md = false;
    first.ignore_pi = false;
    if s.below(3) != 0 {
        first.ms = 2;
    }
    let o = Opts { max_items: 8, heavy_sections: s.coin(), ..Opts::default() };
    let mut src = doc::render(&doc::doc(s, &first, &o));
    if s.one_in(4) {
        src = doc::mutate(s, &src);
    }
    let mut then = first.clone();
    then.norm = s.below(3) as u8;
    then.ignore_md = s.coin();
    then.ignore_pi = s.coin();
    if first.ms == 2 {
        then.ms = s.range(1, 2) as u8;
    }
    cx.case(&(&src, &first, &then), || format!("{}\nthen: {then:?}", show_case(&first, &src)));
    let Ok(f) = first.build().parse(&src) else {
        return Err(Stop::Discard);
    };
    cx.nontrivial_if(f.len() > 3);
    if !in_domain(f.as_slice(), &first) {
        return Err(Stop::Discard);
    }
    let t = f.to_string();
    let p = then.build();
    match (p.parse(&src), p.parse(&t)) {
        (Ok(a), Ok(b)) => {
            let (a, b) = (merge_text(&owned(a.as_slice())), merge_text(&owned(b.as_slice())));
            ensure!(a == b, "serialized as {t:?}; {}", diff(&b, &a));
            Ok(())
        }
        (Err(_), Err(_)) => Ok(()),
        (a, b) => fail(format!("the document gives {a:?}, its serialization {t:?} gives {b:?}")),
    }
}

/// Names are still names, keyword lists have no whitespace around, texts do not start the document.
fn in_domain(evs: &[SgmlEvent], cfg: &Cfg) -> bool {
    let mut started = false;
    for e in evs {
        match e {
            SgmlEvent::OpenStartTag { name } | SgmlEvent::EndTag { name } => {
                started = true;
                if !name.is_empty() && !gen::is_name(name) {
                    return false;
                }
                // Normalizing again must not change it
                if refimpl::norm_name(name, cfg.norm) != **name {
                    return false;
                }
            }
            SgmlEvent::Attribute { name, .. } => {
                if !gen::is_name(name) || refimpl::norm_name(name, cfg.norm) != **name {
                    return false;
                }
            }
            SgmlEvent::MarkedSection { status_keywords, section } => {
                if refimpl::trim(status_keywords) != &**status_keywords
                    || status_keywords.contains(|c| "[]<>!%".contains(c))
                {
                    return false;
                }
                let _ = section;
            }
            SgmlEvent::Character(t) => {
                // Text of sections in the prolog would turn into the start of the content
                if !started && (refimpl::trim(t) != &**t || t.is_empty()) {
                    return false;
                }
                if !started {
                    started = true;
                }
            }
            SgmlEvent::MarkupDeclaration { .. } => {
                if started {
                    return false;
                }
            }
            SgmlEvent::ProcessingInstruction(_) => {}
            _ => {}
        }
    }
    // A document needs some content
    started
}

fn fixed_without_trim(cfg: &mut Cfg, f: &SgmlFragment, cx: &mut Ctx) -> R {
    cfg.trim = false;
    // Without the trimming the first text, if any, is still after the prolog
    redisplay(cfg, f, cx)
}

fn c11_edited(s: &mut Src, cx: &mut Ctx) -> R {
    // Built by hand from valid names, any text and any attribute values
    let mut evs: Vec<Ev> = vec![];
    let n = s.range(1, 8);
    let val = |s: &mut Src| -> String {
        match s.below(5) {
            0 => s
                .pick(&[
                    "", "\"", "'", "\"'", "&", "&amp;", "&#65;", "'&", "\"&#34;", "a\"b'c", "<", ">", "/", "]]>", "&#x22;", "&\"'",
                    "&#39;'\"", " ", "a&b", "&&#", "\u{0}",
                ])
                .to_string(),
            1 => {
                let mut o = String::new();
                for _ in 0..s.size(8) {
                    o.push_str(s.pick(&["\"", "'", "&", "#", "34", ";", "x", " ", "amp", "&#34;", "<", ">"]));
                }
                o
            }
            _ => gen::any_string(s, 400),
        }
    };
    for i in 0..n {
        let k = if i == 0 { 0 } else { s.below(4) };
        match k {
            0 => {
                evs.push(SgmlEvent::OpenStartTag { name: gen::name(s).into() });
                for _ in 0..s.size(4) {
                    evs.push(SgmlEvent::Attribute {
                        name: gen::name(s).into(),
                        value: if s.one_in(5) { None } else { Some(val(s).into()) },
                    });
                }
                evs.push(if s.one_in(5) {
                    SgmlEvent::XmlCloseEmptyElement
                } else {
                    SgmlEvent::CloseStartTag
                });
            }
            1 => evs.push(SgmlEvent::EndTag { name: gen::name(s).into() }),
            _ => evs.push(SgmlEvent::Character(val(s).into())),
        }
    }
    let cfg = Cfg {
        trim: false,
        ..Cfg::default()
    };
    cx.case(&format!("{evs:?}"), || format!("events:\n{}", show(&evs)));
    cx.nontrivial_if(evs.iter().any(|e| match e {
        SgmlEvent::Attribute { value: Some(v), .. } | SgmlEvent::Character(v) => {
            v.contains(|c| "\"'&<>".contains(c))
        }
        _ => false,
    }));
    redisplay(&cfg, &SgmlFragment::from(evs), cx)
}

// ---------------------------------------------------------------- table

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "Arbitrary Unicode strings, token soup, built documents and mutations of them (with long lines of one character spliced in) under random configurations, parsed twice, through five error types, and by a reused parser; deep and long inputs in processes of their own. Non-trivial: over 3 bytes (single inputs), or a history of at least two inputs given to one parser.",
            subs: vec![
                sub("total", c01_total, 400_000),
                sub("reuse", c01_reuse, 60_000),
                sub("default", c01_default, 120_000),
            ],
            probes: super::probes::c01(),
        },
        Prop {
            id: "C02",
            rule: "Documents built item by item with lexical variation (spacing, quoting, Unicode names, stray delimiters, comments, sections, declarations) under random configurations, compared with the events they were built to have. Non-trivial: at least 4 kinds of events, a tag with several attributes, or a prolog.",
            subs: vec![
                sub("built", c02_built, 500_000),
                sub("tags", c02_tags, 250_000),
                sub("prolog", c02_prolog, 250_000),
            ],
            probes: vec![],
        },
        Prop {
            id: "C03",
            rule: "Token soup, short strings over the markup alphabet, mutations of built documents, every truncation of built documents, and built documents with undefined references and unacceptable keywords; acceptance and events compared with an independent reference parser (or the construction). Non-trivial: contains markup (soup), was changed (mutations), has to be rejected (invalid).",
            subs: vec![
                sub("soup", c03_soup, 600_000),
                sub("short", c03_short, 1_000_000),
                sub("mutated", c03_mutated, 350_000),
                sub("invalid", c03_invalid, 150_000),
                sub("truncated", c03_truncated, 15_000),
            ],
            probes: vec![],
        },
        Prop {
            id: "C05",
            rule: "Documents dense in references (defined, undefined, character, function; with and without `;`) and one reference at every place of the syntax, under random lookups whose values look like markup, references or whitespace; and what the lookups were asked for, in order. Non-trivial: contains `&` (documents), `%` (keywords), over one lookup (lookups); every placement case.",
            subs: vec![
                sub("lookups", c05_lookups, 150_000),
                sub("built", c05_built, 350_000),
                sub("places", c05_places, 400_000),
                sub("keywords", c05_keywords, 200_000),
            ],
            probes: vec![],
        },
        Prop {
            id: "C06",
            rule: "Documents dense in whitespace, parsed with and without trimming; every kind of SGML, Unicode and referenced whitespace around texts and section contents; and mutated documents whose other events must not depend on trimming. Non-trivial: some text has whitespace around it.",
            subs: vec![
                sub("built", c06_built, 300_000),
                sub("edges", c06_edges, 500_000),
                sub("others", c06_others, 250_000),
            ],
            probes: vec![],
        },
        Prop {
            id: "C07",
            rule: "Keyword lists of 0 to 8 keywords in any case, order and spacing, with unknown and look-alike words, through the keyword functions; and single sections with such lists (directly or through parameter entities) in documents under every mode. Non-trivial: at least one keyword; every document case.",
            subs: vec![
                sub("keywords", c07_keywords, 600_000),
                sub("documents", c07_documents, 400_000),
            ],
            probes: vec![],
        },
        Prop {
            id: "C08",
            rule: "Documents dense in sections nested up to 5 deep, single sections around sequences of delimiters, and INCLUDE sections compared with their content in place. Non-trivial: has a section, delimiters inside a section, or an INCLUDE section to unwrap.",
            subs: vec![
                sub("built", c08_built, 300_000),
                sub("extent", c08_extent, 900_000),
                sub("in_place", c08_in_place, 200_000),
            ],
            probes: vec![],
        },
        Prop {
            id: "C09",
            rule: "Documents whose names come from all scripts and case mappings, parsed with names unchanged, lowered and uppered; and the normalization function on arbitrary strings. Non-trivial: some name changes.",
            subs: vec![
                sub("documents", c09_documents, 250_000),
                sub("function", c09_function, 800_000),
            ],
            probes: vec![],
        },
        Prop {
            id: "C10",
            rule: "Built, mutated and random documents parsed with and without ignoring declarations and instructions; and built documents with comments inserted between any two items, inside text and inside INCLUDE sections. Non-trivial: something is filtered, a comment is inserted.",
            subs: vec![
                sub("filter", c10_filter, 250_000),
                sub("comments", c10_comments, 250_000),
            ],
            probes: vec![],
        },
        Prop {
            id: "C11",
            rule: "Fragments parsed from built, mutated and random documents, and fragments made by hand out of valid names and arbitrary texts and values, formatted and parsed again, also with other settings and with writers that fail. Non-trivial: over 3 events; a text or value that has a delimiter.",
            subs: vec![
                sub("later", c11_later, 150_000),
                sub("parsed", c11_parsed, 350_000),
                sub("edited", c11_edited, 500_000),
            ],
            probes: vec![],
        },
    ]
}
