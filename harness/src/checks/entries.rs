//! C33: a target is told of everything there is, each thing once and in order.

use super::de::{self, parse};
use crate::deser::*;
use crate::engine::*;
use crate::gen;
use crate::ensure;
use serde::de::{DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use std::fmt;

/// How something is looked at.
#[derive(Clone, Debug)]
enum Look {
    Skip,
    Unit,
    Text,
    Any,
    Some(Box<Look>),
    Newtype(Box<Look>),
    /// As a map: how each of its entries is looked at
    Map(Vec<Look>),
    /// As a struct of these fields
    Struct(Vec<&'static str>, Vec<Look>),
    /// As a sequence: how each of its items is
    Series(Vec<Look>),
    /// As a tuple of so many items
    Tuple(Vec<Look>),
    /// As an enum, of which this is the variant's kind
    Variant(Box<Kind>),
    /// Not at all, nor is anything behind it: before or behind its key
    Enough(bool),
}
#[derive(Clone, Debug)]
enum Kind {
    Unit,
    New(Look),
    Struct(Vec<&'static str>, Vec<Look>),
}

/// What was seen.
#[derive(Clone, Debug, PartialEq)]
enum Seen {
    Skipped,
    Unit,
    Text(String),
    Some(Box<Seen>),
    Entries(Vec<(String, Seen)>),
    Items(Vec<Seen>),
    Variant(String, Box<Seen>),
}

// ---------------------------------------------------------------- looking

/// A key, asked for in one of these ways.
struct Name(usize);
impl<'de> DeserializeSeed<'de> for Name {
    type Value = String;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        match self.0 % 5 {
            0 => d.deserialize_str(self),
            1 => d.deserialize_any(self),
            2 => d.deserialize_string(self),
            _ => d.deserialize_identifier(self),
        }
    }
}
impl<'de> Visitor<'de> for Name {
    type Value = String;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a name")
    }
    fn visit_str<E>(self, v: &str) -> Result<String, E> {
        Ok(v.to_owned())
    }
}

struct V<'l>(&'l Look);
impl<'de, 'l> DeserializeSeed<'de> for V<'l> {
    type Value = Seen;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Seen, D::Error> {
        match self.0 {
            Look::Skip | Look::Enough(_) => d.deserialize_ignored_any(IgnoredAny).map(|_| Seen::Skipped),
            Look::Unit => d.deserialize_unit(self),
            Look::Text => d.deserialize_string(self),
            Look::Any => d.deserialize_any(self),
            Look::Some(_) => d.deserialize_option(self),
            Look::Newtype(_) => d.deserialize_newtype_struct("N", self),
            Look::Map(_) => d.deserialize_map(self),
            Look::Struct(fields, _) => d.deserialize_struct("S", forever(fields), self),
            Look::Series(_) => d.deserialize_seq(self),
            Look::Tuple(l) => d.deserialize_tuple(l.len(), self),
            Look::Variant(_) => d.deserialize_enum("E", &[], self),
        }
    }
}
impl<'l> V<'l> {
    fn nth(l: &'l [Look], i: usize) -> V<'l> {
        V(l.get(i).unwrap_or(&Look::Skip))
    }
}
impl<'de, 'l> Visitor<'de> for V<'l> {
    type Value = Seen;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
    fn visit_str<E>(self, v: &str) -> Result<Seen, E> {
        Ok(Seen::Text(v.to_owned()))
    }
    fn visit_unit<E>(self) -> Result<Seen, E> {
        Ok(Seen::Unit)
    }
    fn visit_none<E>(self) -> Result<Seen, E> {
        Ok(Seen::Some(Box::new(Seen::Skipped)))
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Seen, D::Error> {
        match self.0 {
            Look::Some(l) => V(l).deserialize(d).map(|x| Seen::Some(Box::new(x))),
            _ => V(&Look::Skip).deserialize(d),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Seen, D::Error> {
        match self.0 {
            Look::Newtype(l) => V(l).deserialize(d),
            _ => V(&Look::Skip).deserialize(d),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Seen, A::Error> {
        let each: &[Look] = match self.0 {
            Look::Map(l) | Look::Struct(_, l) => l,
            Look::Variant(k) => match &**k {
                Kind::Struct(_, l) => l,
                _ => &[],
            },
            _ => &[],
        };
        let mut out = vec![];
        if let Some(Look::Enough(false)) = each.first() {
            return Ok(Seen::Entries(out));
        }
        while let Some(k) = a.next_key_seed(Name(out.len()))? {
            if let Some(Look::Enough(true)) = each.get(out.len()) {
                out.push((k, Seen::Skipped));
                break;
            }
            let v = match self.0 {
                Look::Any => a.next_value_seed(V(&Look::Any))?,
                _ => a.next_value_seed(V::nth(each, out.len()))?,
            };
            out.push((k, v));
            if let Some(Look::Enough(false)) = each.get(out.len()) {
                break;
            }
        }
        Ok(Seen::Entries(out))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Seen, A::Error> {
        let mut out = vec![];
        match self.0 {
            Look::Tuple(l) => {
                for x in l {
                    match a.next_element_seed(V(x))? {
                        Some(x) => out.push(x),
                        None => break,
                    }
                }
            }
            Look::Series(l) => {
                while let Some(x) = a.next_element_seed(V::nth(l, out.len()))? {
                    out.push(x);
                }
            }
            _ => while a.next_element::<IgnoredAny>()?.is_some() {},
        }
        Ok(Seen::Items(out))
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Seen, A::Error> {
        let (name, a) = a.variant_seed(Name(3))?;
        let k = match self.0 {
            Look::Variant(k) => &**k,
            _ => &Kind::Unit,
        };
        let x = match k {
            Kind::Unit => a.unit_variant().map(|_| Seen::Unit)?,
            Kind::New(l) => a.newtype_variant_seed(V(l))?,
            Kind::Struct(fields, _) => a.struct_variant(forever(fields), self)?,
        };
        Ok(Seen::Variant(name, Box::new(x)))
    }
}

// ---------------------------------------------------------------- what there is to see

fn texts(e: &El, out: &mut String) {
    for k in &e.kids {
        match k {
            Kid::Text(t) => out.push_str(t),
            Kid::El(e) => texts(e, out),
        }
    }
}
fn text_of(e: &El) -> String {
    let mut t = String::new();
    texts(e, &mut t);
    t
}

fn any(e: &El) -> Seen {
    if e.attrs.is_empty() && e.text_only() {
        let t = text_of(e);
        return if t.is_empty() { Seen::Unit } else { Seen::Text(t) };
    }
    let mut out: Vec<(String, Seen)> =
        e.attrs.iter().map(|(n, v)| (n.clone(), Seen::Text(v.clone().unwrap_or_default()))).collect();
    if e.text_only() {
        out.push(("$value".into(), Seen::Text(text_of(e))));
    }
    for k in &e.kids {
        if let Kid::El(k) = k {
            out.push((k.name.clone(), any(k)));
        }
    }
    Seen::Entries(out)
}

fn wrapped(s: &mut Src, l: Look, x: Seen) -> (Look, Seen) {
    match s.below(8) {
        0 => (Look::Some(Box::new(l)), Seen::Some(Box::new(x))),
        1 => (Look::Newtype(Box::new(l)), x),
        _ => (l, x),
    }
}

fn text_look(s: &mut Src, t: &str) -> (Look, Seen) {
    let (l, x) = match s.below(5) {
        0 => (Look::Skip, Seen::Skipped),
        1 => (Look::Unit, Seen::Unit),
        2 => (Look::Variant(Box::new(Kind::Unit)), Seen::Variant(t.to_owned(), Box::new(Seen::Unit))),
        _ => (Look::Text, Seen::Text(t.to_owned())),
    };
    wrapped(s, l, x)
}

fn attr_look(s: &mut Src, v: &Option<String>) -> (Look, Seen) {
    let t = v.as_deref().unwrap_or("");
    if s.one_in(5) {
        return wrapped(s, Look::Any, Seen::Text(t.to_owned()));
    }
    text_look(s, t)
}

/// The entries of an element, as a struct that has a `$value` or a map or other struct.
fn entries(s: &mut Src, e: &El, value: bool) -> (Vec<Look>, Vec<(String, Seen)>) {
    let (mut looks, mut seen) = all_entries(s, e, value);
    if s.one_in(8) {
        let i = s.us(looks.len() + 1);
        let behind = i < seen.len() && s.coin();
        looks.truncate(i);
        looks.push(Look::Enough(behind));
        seen.truncate(i + behind as usize);
        if behind {
            seen[i].1 = Seen::Skipped;
        }
    }
    (looks, seen)
}
fn all_entries(s: &mut Src, e: &El, value: bool) -> (Vec<Look>, Vec<(String, Seen)>) {
    let (mut looks, mut seen) = (vec![], vec![]);
    let mut put = |k: &str, (l, x): (Look, Seen)| {
        looks.push(l);
        seen.push((k.to_owned(), x));
    };
    for (n, v) in &e.attrs {
        let l = attr_look(s, v);
        put(n, l);
    }
    if value && e.text_only() {
        let l = text_look(s, &text_of(e));
        put("$value", l);
        return (looks, seen);
    }
    let mut i = 0;
    while i < e.kids.len() {
        let Kid::El(k) = &e.kids[i] else {
            i += 1;
            continue;
        };
        let key = if value { "$value" } else { &k.name };
        // How many elements in a row can be taken together
        let mut run = vec![];
        for x in &e.kids[i..] {
            match x {
                Kid::El(x) if value || x.name == k.name => run.push(x),
                _ => break,
            }
        }
        let interrupted = matches!(e.kids.get(i + run.len()), Some(Kid::Text(_)));
        match s.below(6) {
            0 | 1 if !interrupted => {
                let (ls, xs): (Vec<_>, Vec<_>) = run.iter().map(|x| look(s, x, value)).unzip();
                put(key, (Look::Series(ls), Seen::Items(xs)));
                i += run.len();
            }
            2 => {
                let n = s.range(1, run.len());
                let (ls, xs): (Vec<_>, Vec<_>) = run[..n].iter().map(|x| look(s, x, value)).unzip();
                put(key, (Look::Tuple(ls), Seen::Items(xs)));
                i += n;
            }
            _ => {
                let l = look(s, k, value);
                put(key, l);
                i += 1;
            }
        }
    }
    (looks, seen)
}

fn fields(s: &mut Src, e: &El, value: bool) -> Vec<&'static str> {
    // (which ones it has but for `$value` is nothing to the deserializer)
    let mut f = vec![];
    for n in e.attrs.iter().map(|a| &a.0[..]).chain(["a", "zz"]) {
        if s.coin() {
            f.push(intern(n));
        }
    }
    if value {
        let at = s.range(0, f.len());
        f.insert(at, "$value");
    }
    f
}

/// `named`: its name is to be told by itself
fn look(s: &mut Src, e: &El, named: bool) -> (Look, Seen) {
    let deep = e.attrs.len() + e.kids.len() > 0;
    let (l, x) = match s.below(12) {
        0 => (Look::Skip, Seen::Skipped),
        1 => (Look::Unit, Seen::Unit),
        2 => (Look::Text, Seen::Text(text_of(e))),
        3 => (Look::Any, any(e)),
        4 | 5 if !deep => (Look::Text, Seen::Text(text_of(e))),
        4 | 5 | 6 if named => {
            let (k, x) = match s.below(4) {
                0 if !deep => (Kind::Unit, Seen::Unit),
                // (with elements in it, it would be about the first of these)
                0 | 1 if e.text_only() => (Kind::New(Look::Text), Seen::Text(text_of(e))),
                _ => {
                    let value = s.coin();
                    let (l, x) = entries(s, e, value);
                    (Kind::Struct(fields(s, e, value), l), Seen::Entries(x))
                }
            };
            (Look::Variant(Box::new(k)), Seen::Variant(e.name.clone(), Box::new(x)))
        }
        4 | 5 if e.text_only() => {
            let t = text_of(e);
            (Look::Variant(Box::new(Kind::Unit)), Seen::Variant(t, Box::new(Seen::Unit)))
        }
        6..=8 => {
            let (l, x) = entries(s, e, false);
            (Look::Map(l), Seen::Entries(x))
        }
        n => {
            let value = n != 9;
            let (l, x) = entries(s, e, value);
            (Look::Struct(fields(s, e, value), l), Seen::Entries(x))
        }
    };
    wrapped(s, l, x)
}

fn c33_entries(s: &mut Src, cx: &mut Ctx) -> R {
    let depth = s.range(1, 3);
    let mut el = junk(s, "r", depth);
    if s.coin() {
        // With series
        let has = |e: &El| !e.text_only();
        let n = el.count(&has);
        if n > 0 {
            let (i, m) = (s.us(n), s.size(6));
            el.at(i, &has, &mut |e| {
                let first = e.kids.iter().position(|k| matches!(k, Kid::El(_))).unwrap();
                let x = e.kids[first].clone();
                e.kids.splice(first..first, vec![x; m]);
            });
        }
    }
    let mut n = 0;
    el.visit(&mut |e| n += 1 + e.attrs.len());
    if n > 2000 {
        return Err(Stop::Discard);
    }
    let (l, want) = match s.below(3) {
        0 => {
            let (l, x) = entries(s, &el, false);
            (Look::Map(l), Seen::Entries(x))
        }
        k => {
            let (l, x) = entries(s, &el, k == 1);
            (Look::Struct(fields(s, &el, k == 1), l), Seen::Entries(x))
        }
    };
    let mut st = Style::any(s);
    st.ignored = s.one_in(4);
    st.sections = s.one_in(3);
    let src = write(s, &el, &st);
    let cfg = cfg_for(s, &st);
    cx.case(&(&src, format!("{l:?}")), || format!("{l:?}\ndocument {src}"));
    cx.nontrivial_if(n > 3);
    let f = parse(&cfg, &src)?;
    let mut d = match sgmlish::de::SgmlDeserializer::from_fragment(f) {
        Ok(d) => d,
        Err(e) => return fail(format!("{e}")),
    };
    match V(&l).deserialize(&mut d) {
        Ok(got) => {
            ensure!(got == want, "seen {got:?}\nexpected {want:?}");
            Ok(())
        }
        Err(e) => fail(format!("{e:?}\nexpected {want:?}")),
    }
}

/// A struct that takes nothing but its fields takes exactly the documents that have nothing else.
fn c33_strict(s: &mut Src, cx: &mut Ctx) -> R {
    let depth = s.range(1, 3);
    let Some(mut d) = de::gen_doc(s, &de::mixed_opts(), depth) else {
        return Err(Stop::Discard);
    };
    let mut names = vec![];
    if s.below(3) != 0 {
        de::add_extra(s, &mut d.el, &mut names);
    }
    let st = Style::any(s);
    let src = write(s, &d.el, &st);
    let cfg = cfg_for(s, &st);
    cx.case(&(&src, &d.ty), || de::show(&d.ty, &d.val, &src));
    cx.nontrivial = true;
    let f = parse(&cfg, &src)?;
    let got = strictly(|| de::read(&d.ty, f));
    if names.is_empty() {
        cx.label("nothing unknown");
        return de::same(&d.ty, &d.val, got, &src);
    }
    cx.label("something unknown");
    match got {
        Ok(v) => fail(format!("with the unknown {names:?}, it is read as {v:?}")),
        Err(e) => {
            let t = e.to_string();
            ensure!(
                names.iter().any(|n| t.contains(&format!("unknown field `{n}`"))),
                "the unknown are {names:?}, but what is reported is: {t}"
            );
            Ok(())
        }
    }
}

/// One deserializer reads one root element after the other.
fn c34_turns(s: &mut Src, cx: &mut Ctx) -> R {
    let st = Style::any(s);
    let o = TyOpts { enums: 6, ..de::mixed_opts() };
    let n = gen::many(s, 60).unwrap_or(s.range(1, 5));
    let mut docs: Vec<(Ty, Val)> = vec![];
    let mut src = String::new();
    let mut series = false;
    let depth = if n > 5 { 1 } else { s.range(1, 2) };
    for _ in 0..n {
        // Often the same type as before, and often elements of the same name
        let mut ty = match docs.last() {
            Some((ty, _)) if s.below(3) != 0 => ty.clone(),
            _ => TG { o: &o }.root(s, depth),
        };
        let mut val = match docs.last() {
            Some((t, v)) if *t == ty && s.one_in(4) => v.clone(),
            _ => value(s, &ty),
        };
        let Some(mut els) = roots(s, &ty, &val) else {
            return Err(Stop::Discard);
        };
        series |= els.len() > 1;
        for el in &mut els {
            if s.one_in(4) {
                de::add_extra(s, el, &mut vec![]);
            }
            src.push_str(&write(s, el, &st));
        }
        // Some are not read as what they are, only skipped
        if els.len() == 1 && s.one_in(5) {
            (ty, val) = (Ty::Unit, Val::Unit);
        }
        docs.push((ty, val));
    }
    let types: Vec<&Ty> = docs.iter().map(|d| &d.0).collect();
    let cfg = cfg_for(s, &st);
    cx.case(&(&src, &types), || format!("{types:?}\ndocument {src}"));
    cx.nontrivial_if(n > 1);
    cx.label_if(n > 5, "over 5 elements");
    cx.label_if(series, "tuples of root elements");
    let f = parse(&cfg, &src)?;
    let mut d = match sgmlish::de::SgmlDeserializer::from_fragment(f) {
        Ok(d) => d,
        Err(e) => return fail(format!("{e}")),
    };
    FUEL.with(|f| f.set(10_000_000));
    for (i, (ty, val)) in docs.iter().enumerate() {
        let got = Seed(ty).deserialize(&mut d);
        if got.as_ref().ok() != Some(val) {
            return fail(format!("element {i} of {n} is read as {got:?}\nexpected {val:?}\ntypes {types:?}\n{src}"));
        }
    }
    let ty = &s.pick(&docs).0;
    if let Ok(v) = Seed(ty).deserialize(&mut d) {
        return fail(format!("after the last element, {v:?} is read as {ty:?}\n{src}"));
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C33",
        rule: "Elements of random attributes, text and child elements, read by targets that look at each entry in a random way (skipped, as text, as a map or struct with or without `$value`, as a series or tuple, as an enum, as anything), may stop before or behind any key, and keep what they are told; and random types that refuse unknown fields, with documents to which something was added or not. Non-trivial: over 3 attributes and elements; all strict cases.",
        subs: vec![
            sub("entries", c33_entries, 400_000),
            sub("strict", c33_strict, 200_000),
        ],
        probes: vec![],
    }, Prop {
        id: "C34",
        rule: "Documents of one to five (now and then up to sixty) root elements, written for values of random types - often the same type and the same name again - and read one after the other through one deserializer, some of them only skipped. Non-trivial: more than one element.",
        subs: vec![sub("turns", c34_turns, 250_000)],
        probes: vec![],
    }]
}
