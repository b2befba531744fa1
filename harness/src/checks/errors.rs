//! C32: errors say what is wrong, whatever is around it and however they are passed on.

use super::de::{self, gen_doc, number_soup, parse, read};
use super::parse::show_case;
use crate::deser::*;
use crate::doc::{self, Opts};
use crate::engine::*;
use crate::gen::{self, Cfg};
use crate::refimpl::{self, Why};
use crate::{assume, ensure};
use sgmlish::de::DeserializationError;
use sgmlish::entities::{self, EntityError};
use sgmlish::parser::ContextualizedError;
use sgmlish::transforms::{self, NormalizationError};
use sgmlish::SgmlEvent;
use std::error::Error as _;
use std::num::{ParseFloatError, ParseIntError};

fn int_error(n: Num, t: &str) -> Option<ParseIntError> {
    match n {
        Num::I8 => t.parse::<i8>().err(),
        Num::I16 => t.parse::<i16>().err(),
        Num::I32 => t.parse::<i32>().err(),
        Num::I64 => t.parse::<i64>().err(),
        Num::U8 => t.parse::<u8>().err(),
        Num::U16 => t.parse::<u16>().err(),
        Num::U32 => t.parse::<u32>().err(),
        Num::U64 => t.parse::<u64>().err(),
        Num::F32 | Num::F64 => None,
    }
}
fn float_error(n: Num, t: &str) -> Option<ParseFloatError> {
    match n {
        Num::F32 => t.parse::<f32>().err(),
        Num::F64 => t.parse::<f64>().err(),
        _ => None,
    }
}

enum Wrong {
    Int(ParseIntError),
    Float(ParseFloatError),
    /// The message has this in it
    Says(String),
    /// The message is this
    Custom(String),
}

/// A text that is not what is wanted, and what there is to say about it.
fn wrong(s: &mut Src, ty: &Ty) -> Option<(Val, Wrong)> {
    let t = match ty {
        Ty::Bool => s.pick(&["yes", "no", "tru", "falsee", "on", " true", "01", "ＴＲＵＥ", "ſalse", "true\n", "2", "-1"]).to_string(),
        Ty::Char => match s.below(3) {
            0 => String::new(),
            1 => s.pick(&["ab", "e\u{301}", "\r\n", "&&", "  ", "𝒳𝒴"]).to_string(),
            _ => string(s),
        },
        Ty::Str => format!("no {}", string(s)),
        Ty::Num(_) => number_soup(s),
        Ty::Enum(en) => {
            let n = match s.below(3) {
                0 => "NoSuchVariant".to_owned(),
                1 => doc::odd_case(s, en.vars[0].name),
                _ => format!("{}x", en.vars[0].name),
            };
            if !gen::is_name(&n) || en.vars.iter().any(|v| v.name == n) {
                return None;
            }
            let v = Val::Enum(intern(&n), Box::new(Val::Unit));
            return Some((v, Wrong::Says(format!("unknown variant `{n}`, "))));
        }
        _ => return None,
    };
    let w = match ty {
        Ty::Num(n) => match (int_error(*n, &t), float_error(*n, &t)) {
            (Some(e), _) => Wrong::Int(e),
            (_, Some(e)) => Wrong::Float(e),
            _ => return None,
        },
        Ty::Char if t.chars().count() == 1 => return None,
        Ty::Str => Wrong::Custom(format!("refused: {t}")),
        _ => Wrong::Says(format!("{t:?}")),
    };
    Some((Val::Raw(t), w))
}

/// What becomes of it as an error of the library.
fn passed_on(e: DeserializationError) -> R {
    let (shown, source) = (e.to_string(), e.source().map(|x| x.to_string()));
    let kind = std::mem::discriminant(&e);
    let e = sgmlish::Error::from(e);
    ensure!(e.to_string() == shown, "passed on as {:?}, it was {shown:?}", e.to_string());
    let then = e.source().map(|x| x.to_string());
    ensure!(then == source, "passed on with source {then:?}, it was {source:?}");
    match &e {
        sgmlish::Error::DeserializationError(e) if std::mem::discriminant(e) == kind => Ok(()),
        e => fail(format!("passed on as {e:?}")),
    }
}

fn c32_scalars(s: &mut Src, cx: &mut Ctx) -> R {
    let depth = s.range(1, 3);
    let Some(d) = gen_doc(s, &TyOpts { seqs: 4, enums: 3, values: 2, ..TyOpts::default() }, depth) else {
        return Err(Stop::Discard);
    };
    let (ty, mut val) = (d.ty, d.val);
    let mut n = 0;
    each_leaf(&ty, &mut val, &mut |_, _| n += 1);
    assume!(n > 0);
    let (at, mut i) = (s.us(n), 0);
    let mut found = None;
    each_leaf(&ty, &mut val, &mut |t, v| {
        if i == at {
            if let Some((x, w)) = wrong(s, t) {
                *v = x.clone();
                found = Some((t.clone(), x, w));
            }
        }
        i += 1;
    });
    let Some((leaf, bad, want)) = found else { return Err(Stop::Discard) };
    let Some(el) = document(s, &ty, &val) else { return Err(Stop::Discard) };
    // (as an attribute's value, its name is true)
    if let (Ty::Bool, Val::Raw(t)) = (&leaf, &bad) {
        let n = el.count(&|e| e.attrs.iter().any(|(n, v)| v.as_ref() == Some(t) && n.eq_ignore_ascii_case(t)));
        assume!(n == 0);
    }
    let st = Style::any(s);
    let src = write(s, &el, &st);
    let cfg = cfg_for(s, &st);
    cx.case(&(&src, &ty), || format!("{bad:?} as {leaf:?}: {}", de::show(&ty, &val, &src)));
    cx.nontrivial_if(n > 1);
    let f = parse(&cfg, &src)?;
    let refuse = match (&leaf, &bad) {
        (Ty::Str, Val::Raw(t)) => t.clone(),
        _ => String::new(),
    };
    REFUSED.with(|r| *r.borrow_mut() = refuse);
    let got = read(&ty, f);
    REFUSED.with(|r| r.borrow_mut().clear());
    let e = match got {
        Ok(v) => return fail(format!("{bad:?} as {leaf:?} is read as {v:?}\ntype {ty:?}\ndocument {src}")),
        Err(e) => e,
    };
    let ok = match (&want, &e) {
        (Wrong::Int(a), DeserializationError::ParseIntError { source }) => {
            cx.label("integer");
            a == source && e.to_string().contains(&a.to_string())
        }
        (Wrong::Float(a), DeserializationError::ParseFloatError { source }) => {
            cx.label("float");
            a == source && e.to_string().contains(&a.to_string())
        }
        (Wrong::Says(t), DeserializationError::Message(m)) => {
            cx.label(if matches!(leaf, Ty::Enum(_)) { "variant" } else { "boolean or character" });
            m.contains(t) && e.to_string() == *m
        }
        (Wrong::Custom(t), DeserializationError::Message(m)) => {
            cx.label("custom");
            m == t && e.to_string() == *m
        }
        _ => false,
    };
    ensure!(ok, "{bad:?} as {leaf:?} is reported as {e:?}: {e}\ntype {ty:?}\ndocument {src}");
    passed_on(e)
}

fn c32_fields(s: &mut Src, cx: &mut Ctx) -> R {
    if s.coin() {
        cx.label("missing");
        de::missing(s, cx, true)
    } else {
        cx.label("duplicate");
        de::duplicate(s, cx, true)
    }
}

fn c32_tags(s: &mut Src, cx: &mut Ctx) -> R {
    let how = *s.pick(&[0, 2]);
    de::mismatched(s, cx, how, true)
}

fn c32_parsing(s: &mut Src, cx: &mut Ctx) -> R {
    let cfg = gen::cfg(s);
    let o = Opts { max_items: 5, invalid: true, ..Opts::default() };
    let mut src = doc::render(&doc::doc(s, &cfg, &o));
    if s.coin() {
        src = doc::mutate(s, &src);
    }
    assume!(!src.is_empty());
    // (see C26)
    assume!(!(src.contains('\u{c}') && src.contains("<![")));
    let Err(why) = refimpl::parse(&src, &cfg) else { return Err(Stop::Discard) };
    assume!(why.why != Why::Syntax);
    cx.case(&(&src, &cfg), || show_case(&cfg, &src));
    cx.nontrivial = true;
    let p = cfg.build();
    let e = match p.parse_with_detailed_errors::<ContextualizedError<&str>>(&src) {
        Err(e) => e,
        Ok(_) => return fail("accepted"),
    };
    let msg = p.parse(&src).err().map(|e| e.to_string()).unwrap_or_default();
    match why.why {
        Why::Undefined(name) => {
            let kind = if name.starts_with('#') { "character reference" } else { "entity" };
            cx.label(kind);
            match &e.error {
                Some(sgmlish::Error::EntityError(x)) => {
                    ensure!(x.entity == name, "undefined {name:?} is reported as {:?}", x.entity)
                }
                x => return fail(format!("undefined {name:?} is reported as {x:?}")),
            }
            // A parameter entity is an entity
            let parameter = src[why.pos..].starts_with('%');
            let want = if parameter { "entity" } else { kind };
            let at = e.context.iter().find(|(i, c)| {
                i.as_ptr() as usize - src.as_ptr() as usize == why.pos && (*c == "entity" || *c == "character reference")
            });
            if let Some((_, c)) = at {
                ensure!(*c == want, "undefined {name:?} is said to be {c:?}\n{msg}");
            }
            if !parameter {
                ensure!(msg.contains(&format!("in {want},")), "undefined {name:?} is no {want}:\n{msg}");
            }
            ensure!(msg.contains(&format!("'{name}' is not defined")), "undefined {name:?} is not said to be so:\n{msg}");
        }
        Why::Keyword => {
            cx.label("keyword");
            let kws = refimpl::expand_keywords(&src[why.pos..why.end], &cfg).unwrap_or_default();
            let Err(k) = refimpl::status_for(&kws, cfg.ms) else { return Ok(()) };
            match &e.error {
                Some(sgmlish::Error::InvalidMarkedSectionKeyword(x)) => {
                    // (all of them, where only one may stand)
                    let ok = if cfg.ms == 0 { x.contains(k.trim()) } else { *x == k };
                    ensure!(ok, "keyword {k:?} is reported as {x:?}")
                }
                x => return fail(format!("keyword {k:?} is reported as {x:?}")),
            }
        }
        Why::Syntax => {}
    }
    Ok(())
}

fn c32_passed_on(s: &mut Src, cx: &mut Ctx) -> R {
    if s.coin() {
        let n = gen::many(s, 300).unwrap_or(2);
        let mut t = String::new();
        for _ in 0..s.range(0, n) {
            t.push_str(*s.pick(&["a ", "é", "&#65;", "&#x42;", "<", "%", "\n", "& "]));
        }
        let name = gen::name(s);
        t.push_str(&format!("&{name};"));
        t.push_str(s.pick(&["", " z", "&#67;", "&other;"]));
        cx.case(&t, || t.clone());
        cx.nontrivial = true;
        let e: EntityError = match entities::expand_characters(&t) {
            Err(e) => e,
            Ok(x) => return fail(format!("{t:?} is expanded to {x:?}")),
        };
        let shown = e.to_string();
        ensure!(shown == format!("entity '{name}' is not defined"), "said of {name:?} in {t:?}: {shown}");
        match sgmlish::Error::from(e.clone()) {
            sgmlish::Error::EntityError(x) if x == e && sgmlish::Error::from(x.clone()).to_string() == shown => Ok(()),
            x => fail(format!("{e:?} is passed on as {x:?}")),
        }
    } else {
        let cfg = Cfg { norm: *s.pick(&[0, 1, 2]), trim: s.coin(), ..Cfg::default() };
        let o = Opts { max_items: 5, ..Opts::default() };
        let bad = match s.below(3) {
            0 => "<>".to_owned(),
            1 => "</>".to_owned(),
            _ => format!("</zz{}>", gen::name(s)),
        };
        let src = format!("{}{bad}", doc::render(&doc::doc(s, &cfg, &o)));
        let Ok(f) = cfg.build().parse(&src) else { return Err(Stop::Discard) };
        let empty = f.iter().any(|e| match e {
            SgmlEvent::OpenStartTag { name } | SgmlEvent::EndTag { name } => name.is_empty(),
            _ => false,
        });
        cx.case(&src, || src.clone());
        cx.nontrivial = true;
        let e = match transforms::normalize_end_tags(f) {
            Err(e) => e,
            Ok(x) => return fail(format!("{src:?} is normalized to {x:?}")),
        };
        let shown = e.to_string();
        match &e {
            NormalizationError::UnpairedEndTag(n) => {
                ensure!(shown.contains(&format!("</{n}>")), "said of {n:?}: {shown}")
            }
            NormalizationError::EmptyTagNotSupported => {
                ensure!(empty, "empty tags, it says, in {src:?}")
            }
        }
        let x = sgmlish::Error::from(e.clone());
        ensure!(x.to_string() == shown, "{e:?} is passed on as {x}");
        match x {
            sgmlish::Error::NormalizationError(x) if x == e => Ok(()),
            x => fail(format!("{e:?} is passed on as {x:?}")),
        }
    }
}

// ---------------------------------------------------------------- C35

fn lenient_doc(s: &mut Src) -> Option<(Ty, de::Doc)> {
    let depth = s.range(1, 3);
    let d = gen_doc(s, &TyOpts { seqs: 5, enums: 4, values: 3, ..TyOpts::default() }, depth)?;
    let ty = lenient(s, &d.ty);
    Some((ty, d))
}

/// Texts that are none of their types, within parts that may fail.
fn c35_texts(s: &mut Src, cx: &mut Ctx) -> R {
    let Some((ty, mut d)) = lenient_doc(s) else {
        return Err(Stop::Discard);
    };
    let mut n = 0;
    each_leaf(&d.ty, &mut d.val, &mut |_, _| n += 1);
    assume!(n > 0);
    let (at, more, mut i) = (s.us(n), s.one_in(3), 0);
    let (mut bad, mut variants) = (vec![], vec![]);
    each_leaf(&d.ty, &mut d.val, &mut |t, v| {
        // (not text that only the type itself refuses)
        if (i == at || more && s.one_in(3)) && *t != Ty::Str {
            if let Some((x, _)) = wrong(s, t) {
                match &x {
                    Val::Raw(t) => bad.push(t.clone()),
                    Val::Enum(n, _) => variants.push(*n),
                    _ => {}
                }
                *v = x;
            }
        }
        i += 1;
    });
    assume!(!variants.is_empty() || !bad.is_empty());
    let Some(el) = document(s, &d.ty, &d.val) else { return Err(Stop::Discard) };
    // (as an attribute's value, its name is true)
    let n = el.count(&|e| {
        e.attrs.iter().any(|(n, v)| v.as_ref().is_some_and(|v| bad.contains(v) && n.eq_ignore_ascii_case(v)))
    });
    assume!(n == 0);
    // Of a variant that is not known only the tag's name has been seen
    let variant = el.count(&|e| variants.iter().any(|n| n.eq_ignore_ascii_case(&e.name))) > 0;
    let st = Style::any(s);
    let src = write(s, &el, &st);
    let cfg = cfg_for(s, &st);
    cx.case(&(&src, &ty), || de::show(&ty, &d.val, &src));
    let want = with_failures(&ty, &d.val);
    cx.nontrivial_if(want.is_some());
    cx.label(if want.is_some() { "goes on" } else { "fails" });
    match (want, read(&ty, parse(&cfg, &src)?)) {
        (Some(a), Ok(b)) if a == b => Ok(()),
        (None, Err(_)) => Ok(()),
        (_, Err(_)) if variant => Ok(()),
        (_, Ok(b)) if variant && failures(&ty, &d.val, &b).is_some_and(|n| n > 0) => Ok(()),
        (want, got) => fail(format!("read as {got:?}\nexpected {want:?}\ntype {ty:?}\ndocument {src}")),
    }
}

/// Targets that find fault themselves at any point of their reading.
fn c35_faults(s: &mut Src, cx: &mut Ctx) -> R {
    let Some((ty, d)) = lenient_doc(s) else {
        return Err(Stop::Discard);
    };
    let mut el = d.el;
    if s.one_in(3) {
        de::add_extra(s, &mut el, &mut vec![]);
    }
    let st = Style::any(s);
    let src = write(s, &el, &st);
    let cfg = cfg_for(s, &st);
    let f = parse(&cfg, &src)?;
    let at = s.size(40) as u64;
    EARLY.with(|x| x.set(""));
    FAULT.with(|x| x.set(at));
    let got = read(&ty, f);
    let fired = FAULT.with(|x| x.replace(u64::MAX)) == u64::MAX;
    let early = EARLY.with(|x| x.get());
    // Where the name was that of a tag, nothing has been read yet
    let early = !early.is_empty() && el.count(&|e| e.name.eq_ignore_ascii_case(early)) > 0;
    cx.case(&(&src, &ty, at), || format!("after {at} steps: {}", de::show(&ty, &d.val, &src)));
    cx.nontrivial_if(fired && got.is_ok());
    cx.label(if !fired { "no fault" } else if got.is_ok() { "goes on" } else { "fails" });
    let ok = match &got {
        Ok(v) => failures(&ty, &d.val, v) == Some(fired as u32),
        Err(e) if fired => early || e.to_string() == "harness: fault",
        Err(_) => false,
    };
    ensure!(ok, "after {at} steps, read as {got:?}\nthe value is {:?}\ntype {ty:?}\ndocument {src}", d.val);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C32",
        rule: "Values of random types in which one scalar or variant anywhere is replaced by text that is not one, documents with a missing or repeated field, a renamed end tag or a cut, documents with an undefined reference or an invalid keyword, and texts and fragments that cannot be expanded or normalized: the error is about that, and stays so as an error of the library. Non-trivial: the value has more than one scalar; all of the others.",
        subs: vec![
            sub("scalars", c32_scalars, 300_000),
            sub("fields", c32_fields, 150_000),
            sub("tags", c32_tags, 200_000),
            sub("parsing", c32_parsing, 150_000),
            sub("passed-on", c32_passed_on, 150_000),
        ],
        probes: vec![],
    }, Prop {
        id: "C35",
        rule: "Values of random types some parts of which may fail without failing the whole, in documents where texts are replaced by ones that are none of their type, or read by targets that find fault themselves after a random number of steps (behind a key, a variant's name, an item, at the end of a part). Non-trivial: the whole is read in spite of the failure.",
        subs: vec![
            sub("texts", c35_texts, 500_000),
            sub("faults", c35_faults, 400_000),
        ],
        probes: vec![],
    }]
}
