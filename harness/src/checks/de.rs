//! Properties of deserialization: C16-C24.

use crate::checks::stdlib;
use crate::deser::*;
use crate::engine::*;
use crate::gen::{self, Cfg};
use crate::refimpl;
use crate::{assume, ensure};
use sgmlish::de::DeserializationError;
use sgmlish::{SgmlEvent, SgmlFragment};
use std::rc::Rc;

/// More than any document here has
const PLENTY: u64 = 1_000_000;

pub fn read(ty: &Ty, f: SgmlFragment) -> Result<Val, DeserializationError> {
    FUEL.with(|x| x.set(PLENTY));
    from_fragment(ty, f)
}

pub fn parse<'a>(cfg: &Cfg, src: &'a str) -> Result<SgmlFragment<'a>, Stop> {
    match cfg.build().parse(src) {
        Ok(f) => Ok(f),
        Err(e) => fail(format!("the document was rejected by the parser: {e}\n{src}")),
    }
}

pub struct Doc {
    pub ty: Ty,
    pub val: Val,
    pub el: El,
}

pub fn gen_doc(s: &mut Src, o: &TyOpts, depth: usize) -> Option<Doc> {
    let many = gen::many(s, 400);
    let mut ty = TG { o }.root(s, depth);
    let mut val = value(s, &ty);
    if let (Some(m), Ty::Struct(_)) = (many, &ty) {
        for _ in 0..m {
            ty = Ty::Struct(St::new(vec![Field { name: "deep", ty, default: false }]));
            val = Val::Struct(vec![val]);
        }
    }
    let el = document(s, &ty, &val)?;
    Some(Doc { ty, val, el })
}

fn size(e: &El) -> usize {
    let mut n = 0;
    e.visit(&mut |e| n += 1 + e.attrs.len());
    n
}

pub fn show(ty: &Ty, val: &Val, src: &str) -> String {
    format!("type {ty:?}\nvalue {val:?}\ndocument {src}")
}

pub fn same(ty: &Ty, want: &Val, got: Result<Val, DeserializationError>, src: &str) -> R {
    match got {
        Ok(v) if v == *want => Ok(()),
        Ok(v) => fail(format!("read as {v:?}\nexpected {want:?}\ntype {ty:?}\ndocument {src}")),
        Err(e) => fail(format!("rejected: {e}\nexpected {want:?}\ntype {ty:?}\ndocument {src}")),
    }
}
fn rejected(ty: &Ty, why: &str, got: Result<Val, DeserializationError>, src: &str) -> R {
    match got {
        Err(_) => Ok(()),
        Ok(v) => fail(format!("{why}, but read as {v:?}\ntype {ty:?}\ndocument {src}")),
    }
}

/// Attributes on elements read for their content alone.
fn ignored_attrs(s: &mut Src, el: &mut El) {
    if s.one_in(3) {
        el.visit_mut(&mut |e| {
            if matches!(e.extra, Extra::Attrs) && s.one_in(3) {
                for _ in 0..s.range(1, 2) {
                    let n = s.pick(&["a", "value", "zz", "Unit", "\u{e9}"]).to_string();
                    extra_attr(s, e, n);
                }
            }
        });
    }
}

fn roundtrip(s: &mut Src, cx: &mut Ctx, o: &TyOpts, depth: usize) -> R {
    let Some(mut d) = gen_doc(s, o, depth) else {
        return Err(Stop::Discard);
    };
    ignored_attrs(s, &mut d.el);
    let st = Style::any(s);
    let src = write(s, &d.el, &st);
    let cfg = cfg_for(s, &st);
    cx.case(&(&src, &d.ty), || show(&d.ty, &d.val, &src));
    cx.nontrivial_if(size(&d.el) > 3);
    cx.label_if(d.el.count(&|e| e.joined) > 0, "series");
    cx.label_if(d.el.count(&|e| e.st.as_ref().map_or(false, |s| s.has_value())) > 0, "$value");
    cx.label_if(d.el.count(&|e| !e.attrs.is_empty()) > 0, "attributes");
    cx.label_if(size(&d.el) > 30, "large");
    same(&d.ty, &d.val, read(&d.ty, parse(&cfg, &src)?), &src)
}

/// Without `Option` and newtypes around it.
fn core(t: &Ty) -> &Ty {
    match t {
        Ty::Opt(t) | Ty::Newtype(t) => core(t),
        t => t,
    }
}

// ---------------------------------------------------------------- C16

fn c16_values(s: &mut Src, cx: &mut Ctx) -> R {
    let depth = s.range(1, 3);
    roundtrip(s, cx, &TyOpts { seqs: 3, enums: 1, values: 1, ..TyOpts::default() }, depth)
}

fn has_field(e: &El, n: &str) -> bool {
    let elements = e.st.as_ref().map_or(false, |st| !st.has_value());
    e.attrs.iter().any(|(a, _)| a == n) || elements && e.kids.iter().any(|k| matches!(k, Kid::El(x) if x.name == n))
}

/// What a faulty document is to be told about
fn expected(named: bool, ty: &Ty, why: &str, message: &str, got: Result<Val, DeserializationError>, src: &str) -> R {
    match got {
        Err(e) if named && e.to_string() != message => {
            fail(format!("{why}, but what is reported is: {e}\ntype {ty:?}\ndocument {src}"))
        }
        got => rejected(ty, why, got, src),
    }
}

fn c16_missing(s: &mut Src, cx: &mut Ctx) -> R {
    missing(s, cx, false)
}
pub fn missing(s: &mut Src, cx: &mut Ctx, named: bool) -> R {
    let depth = s.range(1, 3);
    let Some(mut d) = gen_doc(s, &TyOpts { seqs: 2, enums: 2, ..TyOpts::default() }, depth) else {
        return Err(Stop::Discard);
    };
    fn required(e: &El) -> Vec<&'static str> {
        e.st.as_ref().map_or(vec![], |st| {
            st.fields
                .iter()
                .filter(|f| f.name != "$value" && !f.default && !matches!(f.ty, Ty::Opt(_)) && has_field(e, f.name))
                .map(|f| f.name)
                .collect()
        })
    }
    let p = |e: &El| !required(e).is_empty();
    let n = d.el.count(&p);
    assume!(n > 0);
    let i = s.us(n);
    let mut gone = "";
    d.el.at(i, &p, &mut |e| {
        let f = *s.pick(&required(e));
        gone = f;
        e.attrs.retain(|(a, _)| a != f);
        if has_field(e, f) {
            e.kids.retain(|k| !matches!(k, Kid::El(x) if x.name == f));
        }
        // Elsewhere it does not count
        if let (Extra::Other(st), true) = (&e.extra, s.coin()) {
            let n = other_name(s, st);
            let mut x = El::new(&n);
            x.attrs.push((f.to_owned(), Some("1".into())));
            x.kids.push(Kid::El(El::text(f, "1".into())));
            let at = s.range(0, e.kids.len());
            if !matches!(e.kids.get(at), Some(Kid::El(k)) if k.joined) {
                e.kids.insert(at, Kid::El(x));
            }
        }
    });
    let st = Style::any(s);
    let src = write(s, &d.el, &st);
    let cfg = cfg_for(s, &st);
    cx.case(&(&src, &d.ty), || format!("without {gone:?}: {}", show(&d.ty, &d.val, &src)));
    cx.nontrivial = true;
    let (why, msg) = (format!("field {gone:?} is missing"), format!("missing field `{gone}`"));
    expected(named, &d.ty, &why, &msg, read(&d.ty, parse(&cfg, &src)?), &src)
}

fn c16_duplicate(s: &mut Src, cx: &mut Ctx) -> R {
    duplicate(s, cx, false)
}
pub fn duplicate(s: &mut Src, cx: &mut Ctx, named: bool) -> R {
    let depth = s.range(1, 3);
    let Some(mut d) = gen_doc(s, &TyOpts { seqs: 3, enums: 2, ..TyOpts::default() }, depth) else {
        return Err(Stop::Discard);
    };
    fn present(e: &El) -> Vec<Field> {
        e.st.as_ref().map_or(vec![], |st| {
            st.fields
                .iter()
                .filter(|f| f.name != "$value" && has_field(e, f.name))
                .cloned()
                .collect()
        })
    }
    let p = |e: &El| !present(e).is_empty();
    let n = d.el.count(&p);
    assume!(n > 0);
    let i = s.us(n);
    let mut twice = "";
    let mut done = false;
    d.el.at(i, &p, &mut |e| {
        let f = s.pick(&present(e)).clone();
        twice = f.name;
        if let Some(at) = e.attrs.iter().position(|(a, _)| a == f.name) {
            done = true;
            let a = e.attrs[at].clone();
            if matches!(e.extra, Extra::Other(_)) && s.coin() {
                // As an element, too
                let x = El::text(f.name, a.1.unwrap_or_default());
                let at = s.range(0, e.kids.len());
                if matches!(e.kids.get(at), Some(Kid::El(k)) if k.joined) {
                    e.kids.push(Kid::El(x));
                } else {
                    e.kids.insert(at, Kid::El(x));
                }
            } else {
                let at = s.range(0, e.attrs.len());
                e.attrs.insert(at, a);
            }
            return;
        }
        let first = e.kids.iter().position(|k| matches!(k, Kid::El(x) if x.name == f.name)).unwrap();
        let n = e.kids[first..].iter().take_while(|k| matches!(k, Kid::El(x) if x.name == f.name)).count();
        let copy: Vec<Kid> = e.kids[first..first + n].to_vec();
        let series = matches!(core(&f.ty), Ty::Seq(_));
        let mut ends: Vec<usize> = (0..=e.kids.len())
            .filter(|&at| !matches!(e.kids.get(at), Some(Kid::El(k)) if k.joined))
            .collect();
        if series {
            // (next to it, it would be more of the same)
            ends.retain(|&at| at != first && at != first + n);
        }
        if ends.is_empty() {
            return;
        }
        done = true;
        let at = *s.pick(&ends);
        e.kids.splice(at..at, copy);
    });
    assume!(done);
    let st = Style::any(s);
    let src = write(s, &d.el, &st);
    let cfg = cfg_for(s, &st);
    cx.case(&(&src, &d.ty), || format!("with {twice:?} twice: {}", show(&d.ty, &d.val, &src)));
    cx.nontrivial = true;
    let (why, msg) = (format!("field {twice:?} is there twice"), format!("duplicate field `{twice}`"));
    expected(named, &d.ty, &why, &msg, read(&d.ty, parse(&cfg, &src)?), &src)
}

// Types as a user writes them, next to their descriptions.
mod derived {
    use super::*;
    use serde::Deserialize;

    #[derive(Deserialize)]
    pub struct Rec {
        id: u32,
        name: Option<String>,
        #[serde(default)]
        flag: bool,
        #[serde(default, rename = "item")]
        items: Vec<Line>,
        pair: Option<(i8, String)>,
        kind: K,
        #[serde(rename = "é")]
        e: N,
        unit: (),
        #[serde(rename = "Row")]
        row: Option<Box<Rec2>>,
        kinds: Option<Vec<K>>,
    }
    #[derive(Deserialize)]
    pub struct N(f64);
    #[derive(Deserialize)]
    #[serde(rename_all = "UPPERCASE")]
    pub struct Rec2 {
        a: char,
        b: Option<i64>,
        c: Option<Box<Rec>>,
    }
    #[derive(Deserialize)]
    pub struct Line {
        #[serde(rename = "$value")]
        text: String,
        size: Option<f64>,
        #[serde(default)]
        selected: bool,
    }
    #[derive(Deserialize)]
    pub enum K {
        Unit,
        New(String),
        #[serde(rename = "tuple")]
        Tuple(u8, bool),
        Struct {
            a: char,
            b: Option<i64>,
        },
        Content {
            x: Option<u8>,
            #[serde(rename = "$value")]
            v: Vec<Sub>,
        },
    }
    #[derive(Deserialize)]
    #[serde(rename_all = "kebab-case")]
    pub enum Sub {
        OneTwo,
        Three(i32),
        Four { k: Option<K2> },
    }
    #[derive(Deserialize)]
    pub enum K2 {
        A,
        B,
    }

    fn opt<T>(v: &Option<T>, f: impl Fn(&T) -> Val) -> Val {
        match v {
            None => Val::None,
            Some(v) => Val::Some(Box::new(f(v))),
        }
    }
    fn seq<T>(v: &[T], f: impl Fn(&T) -> Val) -> Val {
        Val::Seq(v.iter().map(f).collect())
    }
    fn text(v: &str) -> Val {
        Val::Str(v.to_owned())
    }
    fn en(n: &'static str, v: Val) -> Val {
        Val::Enum(n, Box::new(v))
    }
    impl Rec {
        pub fn val(&self) -> Val {
            Val::Struct(vec![
                Val::Int(self.id as i128),
                opt(&self.name, |x| text(x)),
                Val::Bool(self.flag),
                seq(&self.items, |l| {
                    Val::Struct(vec![
                        text(&l.text),
                        opt(&l.size, |x| Val::F64(x.to_bits())),
                        Val::Bool(l.selected),
                    ])
                }),
                opt(&self.pair, |p| Val::Seq(vec![Val::Int(p.0 as i128), text(&p.1)])),
                self.kind.val(),
                Val::F64(self.e.0.to_bits()),
                {
                    let () = self.unit;
                    Val::Unit
                },
                opt(&self.row, |r| {
                    Val::Struct(vec![
                        Val::Char(r.a),
                        opt(&r.b, |x| Val::Int(*x as i128)),
                        opt(&r.c, |x| x.val()),
                    ])
                }),
                opt(&self.kinds, |k| seq(k, |k| k.val())),
            ])
        }
    }
    impl K {
        fn val(&self) -> Val {
            match self {
                K::Unit => en("Unit", Val::Unit),
                K::New(x) => en("New", text(x)),
                K::Tuple(a, b) => en("tuple", Val::Seq(vec![Val::Int(*a as i128), Val::Bool(*b)])),
                K::Struct { a, b } => en(
                    "Struct",
                    Val::Struct(vec![Val::Char(*a), opt(b, |x| Val::Int(*x as i128))]),
                ),
                K::Content { x, v } => en(
                    "Content",
                    Val::Struct(vec![
                        opt(x, |x| Val::Int(*x as i128)),
                        seq(v, |v| match v {
                            Sub::OneTwo => en("one-two", Val::Unit),
                            Sub::Three(n) => en("three", Val::Int(*n as i128)),
                            Sub::Four { k } => en(
                                "four",
                                Val::Struct(vec![opt(k, |k| match k {
                                    K2::A => en("A", Val::Unit),
                                    K2::B => en("B", Val::Unit),
                                })]),
                            ),
                        }),
                    ]),
                ),
            }
        }
    }

    fn field(name: &'static str, ty: Ty) -> Field {
        Field { name, ty, default: false }
    }
    fn option(t: Ty) -> Ty {
        Ty::Opt(Rc::new(t))
    }
    fn list(t: Ty) -> Ty {
        Ty::Seq(Rc::new(t))
    }
    fn kind_ty() -> Ty {
        let v = |name, kind| Var { name, kind };
        let k2 = Ty::Enum(En::new(vec![v("A", Kind::Unit), v("B", Kind::Unit)]));
        let sub = Ty::Enum(En::new(vec![
            v("one-two", Kind::Unit),
            v("three", Kind::New(Ty::Num(Num::I32))),
            v("four", Kind::Struct(St::new(vec![field("k", option(k2))]))),
        ]));
        Ty::Enum(En::new(vec![
            v("Unit", Kind::Unit),
            v("New", Kind::New(Ty::Str)),
            v("tuple", Kind::Tup(vec![Ty::Num(Num::U8), Ty::Bool])),
            v(
                "Struct",
                Kind::Struct(St::new(vec![field("a", Ty::Char), field("b", option(Ty::Num(Num::I64)))])),
            ),
            v(
                "Content",
                Kind::Struct(St::new(vec![
                    field("x", option(Ty::Num(Num::U8))),
                    field("$value", list(sub)),
                ])),
            ),
        ]))
    }
    pub fn rec_ty(depth: usize) -> Ty {
        let d = |name, ty| Field { name, ty, default: true };
        let row = Ty::Struct(St::new(vec![
            field("A", Ty::Char),
            field("B", option(Ty::Num(Num::I64))),
            field("C", option(if depth == 0 { Ty::Unit } else { rec_ty(depth - 1) })),
        ]));
        Ty::Struct(St::new(vec![
            field("id", Ty::Num(Num::U32)),
            field("name", option(Ty::Str)),
            d("flag", Ty::Bool),
            d(
                "item",
                list(Ty::Struct(St::new(vec![
                    field("$value", Ty::Str),
                    field("size", option(Ty::Num(Num::F64))),
                    d("selected", Ty::Bool),
                ]))),
            ),
            field("pair", option(Ty::Tup(Rc::new(vec![Ty::Num(Num::I8), Ty::Str])))),
            field("kind", kind_ty()),
            field("é", Ty::Newtype(Rc::new(Ty::Num(Num::F64)))),
            field("unit", Ty::Unit),
            field("Row", option(row)),
            field("kinds", option(list(kind_ty()))),
        ]))
    }
    /// Nothing of the innermost record
    pub fn prune(v: &mut Val, depth: usize) {
        if let Val::Struct(f) = v {
            if let Val::Some(r) = &mut f[8] {
                if let Val::Struct(r) = &mut **r {
                    match &mut r[2] {
                        c if depth == 0 => *c = Val::None,
                        Val::Some(c) => prune(c, depth - 1),
                        _ => {}
                    }
                }
            }
        }
    }
}

fn c16_derived(s: &mut Src, cx: &mut Ctx) -> R {
    let depth = s.weighted(&[4, 2, 1]);
    let ty = derived::rec_ty(depth);
    let mut val = value(s, &ty);
    derived::prune(&mut val, depth);
    let Some(el) = document(s, &ty, &val) else {
        return Err(Stop::Discard);
    };
    let st = Style::any(s);
    let src = write(s, &el, &st);
    let cfg = cfg_for(s, &st);
    cx.case(&src, || format!("value {val:?}\ndocument {src}"));
    cx.nontrivial = true;
    let f = parse(&cfg, &src)?;
    let r = if s.coin() {
        sgmlish::from_fragment::<derived::Rec>(f)
    } else {
        f.deserialize::<derived::Rec>()
    };
    same(&ty, &val, r.map(|r| r.val()), &src)
}

// ---------------------------------------------------------------- C17

pub fn number_soup(s: &mut Src) -> String {
    const P: [&str; 46] = [
        "0", "1", "9", "12", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535",
        "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
        "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
        "18446744073709551615", "18446744073709551616", "-", "+", ".", "e", "E", "_", " ", "inf", "nan", "infinity",
        "NaN", "0x", ",", "1e308", "1e-400", "-0", "٣", "\u{2212}",
    ];
    match s.below(8) {
        0 => String::new(),
        1 => s.pick(&P).to_string(),
        2 => {
            let n = *s.pick(&P);
            format!("{}{}{}", s.pick(&["+", "-", " ", "0", "00", "", "\n"]), n, s.pick(&["", " ", ".0", "e0", "\t", ".", "0"]))
        }
        3 => string(s),
        4 => (s.bits() >> s.below(64)).to_string(),
        5 => format!("-{}", s.bits() >> s.below(64)),
        6 => format!("{:?}", f64::from_bits(s.bits())),
        _ => (0..s.range(1, 4)).map(|_| *s.pick(&P)).collect(),
    }
}

pub fn model_scalar(ty: &Ty, t: &str, attr: Option<&str>) -> Option<Val> {
    match ty {
        Ty::Num(n) => parse_num(*n, t),
        Ty::Bool => {
            if let Some(name) = attr {
                if t.is_empty() || t.eq_ignore_ascii_case(name) {
                    return Some(Val::Bool(true));
                }
            }
            match t.to_ascii_lowercase().as_str() {
                "1" | "true" => Some(Val::Bool(true)),
                "0" | "false" => Some(Val::Bool(false)),
                _ => None,
            }
        }
        Ty::Char => {
            let mut c = t.chars();
            let x = c.next()?;
            c.next().is_none().then_some(Val::Char(x))
        }
        Ty::Str | Ty::Bytes => Some(Val::Str(t.to_owned())),
        Ty::Opt(i) => model_scalar(i, t, attr).map(|v| Val::Some(Box::new(v))),
        Ty::Newtype(i) => model_scalar(i, t, attr),
        _ => unreachable!(),
    }
}

/// An element of that text, some of it in elements within.
pub fn spread(s: &mut Src, name: &str, t: &str, depth: usize) -> El {
    let mut e = El::new(name);
    e.extra = Extra::Attrs;
    let cs: Vec<char> = t.chars().collect();
    let many = if depth > 0 { gen::many(s, 300) } else { None };
    let n = match many {
        Some(m) => m,
        None if depth == 0 || s.coin() => 1,
        None => s.range(1, 4),
    };
    let mut cuts: Vec<usize> = (1..n).map(|_| s.range(0, cs.len())).collect();
    cuts.push(0);
    cuts.push(cs.len());
    cuts.sort();
    for w in cuts.windows(2) {
        let c: String = cs[w[0]..w[1]].iter().collect();
        if n > 1 && s.coin() {
            let n = s.pick(&["b", "i", name, "v", "1"][..4]).to_string();
            let mut x = spread(s, &n, &c, depth - 1);
            if s.one_in(3) {
                x.attrs.push(("v".into(), Some("7".into())));
            }
            e.kids.push(Kid::El(x));
        } else if !c.is_empty() {
            e.kids.push(Kid::Text(c));
        }
    }
    // (two texts in a row are one)
    let mut kids: Vec<Kid> = vec![];
    for k in e.kids.drain(..) {
        match (kids.last_mut(), k) {
            (Some(Kid::Text(a)), Kid::Text(b)) => a.push_str(&b),
            (_, k) => kids.push(k),
        }
    }
    e.kids = kids;
    // One element within the other
    for _ in 0..if depth > 0 { gen::many(s, 300).unwrap_or(0) } else { 0 } {
        let mut x = El::new(name);
        x.extra = Extra::Attrs;
        x.kids.push(Kid::El(e));
        e = x;
    }
    e
}

fn c17_scalars(s: &mut Src, cx: &mut Ctx) -> R {
    let mut ty = match s.below(12) {
        0 => Ty::Bool,
        1 => Ty::Char,
        2 => Ty::Str,
        3 => Ty::Bytes,
        _ => Ty::Num(*s.pick(&NUMS)),
    };
    let name = *s.pick(&["v", "flag", "TRUE", "é", "x1", "Inf", "e"]);
    let t = match (&ty, s.below(4)) {
        (Ty::Bool, 0..=2) => {
            let w = s
                .pick(&["true", "false", "1", "0", "", "yes", "no", "tru", "falsee", "on", " true", "01", "ＴＲＵＥ", "ſalse"])
                .to_string();
            match s.below(4) {
                0 => crate::doc::odd_case(s, name),
                1 => w,
                _ => crate::doc::odd_case(s, &w),
            }
        }
        (Ty::Char, 0) => gen::any_char(s).to_string(),
        (Ty::Char, 1) => s.pick(&["", "ab", " ", "é", "e\u{301}", "\r\n", "<", "&"]).to_string(),
        _ => number_soup(s),
    };
    while s.one_in(4) {
        ty = if s.coin() && !matches!(ty, Ty::Opt(_)) {
            Ty::Opt(Rc::new(ty))
        } else {
            Ty::Newtype(Rc::new(ty))
        };
    }
    let (root, el, want, how) = match s.below(6) {
        0 => {
            let want = model_scalar(&ty, &t, None);
            (ty.clone(), spread(s, name, &t, 2), want, "root")
        }
        1..=3 => {
            // A field
            let want = model_scalar(&ty, &t, None);
            let mut e = El::new("r");
            if s.coin() {
                e.attrs.push(("q".into(), Some("5".into())));
            }
            if s.coin() {
                e.kids.push(Kid::El(El::text("w", "8".into())));
            }
            e.kids.push(Kid::El(spread(s, name, &t, 2)));
            if s.coin() {
                e.kids.push(Kid::El(El::text("w2", "9".into())));
            }
            let f = Field { name: intern(name), ty: ty.clone(), default: false };
            (
                Ty::Struct(St::new(vec![f])),
                e,
                want.map(|v| Val::Struct(vec![v])),
                "element",
            )
        }
        _ => {
            let none = t.is_empty() && s.coin();
            let want = model_scalar(&ty, &t, Some(name));
            let mut e = El::new("r");
            if s.coin() {
                e.attrs.push(("q".into(), Some("5".into())));
            }
            e.attrs.push((name.into(), if none { None } else { Some(t.clone()) }));
            if s.coin() {
                e.attrs.push(("w".into(), None));
            }
            if s.coin() {
                e.kids.push(Kid::El(El::text("w2", "9".into())));
            }
            let f = Field { name: intern(name), ty: ty.clone(), default: false };
            (
                Ty::Struct(St::new(vec![f])),
                e,
                want.map(|v| Val::Struct(vec![v])),
                "attribute",
            )
        }
    };
    let st = Style::any(s);
    let src = write(s, &el, &st);
    let cfg = cfg_for(s, &st);
    cx.case(&(&src, &root), || format!("{t:?} as {root:?}: {want:?}\ndocument {src}"));
    cx.nontrivial_if(!t.is_empty());
    cx.label(how);
    cx.label(if want.is_some() { "accepted" } else { "refused" });
    let got = read(&root, parse(&cfg, &src)?);
    match want {
        Some(v) => same(&root, &v, got, &src),
        None => rejected(&root, &format!("{t:?} is no such value"), got, &src),
    }
}

/// The same text from an attribute, an element and a root.
fn c17_agree(s: &mut Src, cx: &mut Ctx) -> R {
    let o = TyOpts::default();
    let ty = TG { o: &o }.scalar(s);
    let v = value(s, &ty);
    let t = if s.coin() { scalar_text(s, &ty, &v).unwrap() } else { number_soup(s) };
    assume!(!(ty == Ty::Bool && (t.is_empty() || t.eq_ignore_ascii_case("v"))));
    let f = Field { name: "v", ty: ty.clone(), default: false };
    let root = Ty::Struct(St::new(vec![f]));
    let mut a = El::new("r");
    a.attrs.push(("v".into(), Some(t.clone())));
    let mut b = El::new("r");
    b.kids.push(Kid::El(spread(s, "v", &t, 2)));
    let st = Style::any(s);
    let cfg = cfg_for(s, &st);
    let (sa, sb) = (write(s, &a, &st), write(s, &b, &st));
    cx.case(&(&sa, &sb, &ty), || format!("{root:?}\n{sa}\n{sb}"));
    cx.nontrivial_if(!t.is_empty());
    let (ra, rb) = (read(&root, parse(&cfg, &sa)?), read(&root, parse(&cfg, &sb)?));
    match (&ra, &rb) {
        (Ok(x), Ok(y)) if x == y => Ok(()),
        (Err(_), Err(_)) => Ok(()),
        _ => fail(format!("attribute gives {ra:?}\nelement gives {rb:?}\ntype {root:?}\n{sa}\n{sb}")),
    }
}

// ---------------------------------------------------------------- C18

fn seq_opts() -> TyOpts {
    TyOpts { seqs: 14, enums: 2, values: 1, ..TyOpts::default() }
}
fn c18_values(s: &mut Src, cx: &mut Ctx) -> R {
    let depth = s.range(1, 3);
    roundtrip(s, cx, &seq_opts(), depth)
}

/// A plain series among other fields, of any length.
fn c18_series(s: &mut Src, cx: &mut Ctx) -> R {
    let o = TyOpts { seqs: 2, values: 2, ..TyOpts::default() };
    let tg = TG { o: &o };
    let item = tg.item(s, 1);
    let arity = if s.one_in(3) { s.range(1, 4) } else { 0 };
    let seq = if arity > 0 {
        Ty::Seq(Rc::new(Ty::Tup(Rc::new(vec![item.clone(); arity]))))
    } else {
        Ty::Seq(Rc::new(item.clone()))
    };
    let many = gen::many(s, 150);
    let n = match s.below(4) {
        0 => s.range(0, 3),
        1 => s.range(0, 8),
        2 => s.range(0, 30),
        _ => s.range(0, 70),
    };
    let one = |s: &mut Src, t: &Ty| loop_present(s, t);
    let mut vals: Vec<Val> = (0..n)
        .map(|_| {
            if arity > 0 {
                Val::Seq((0..arity).map(|_| one(s, &item)).collect())
            } else {
                one(s, &item)
            }
        })
        .collect();
    if let Some(m) = many {
        crate::doc::repeat(&mut vals, m);
    }
    let other = tg.field(s, 1);
    let ov = loop_present(s, &other);
    let st = St::new(vec![
        Field { name: "before", ty: other.clone(), default: false },
        Field { name: "it", ty: seq, default: true },
        Field { name: "after", ty: other, default: false },
    ]);
    let ty = Ty::Struct(st);
    let val = Val::Struct(vec![ov.clone(), Val::Seq(vals), ov]);
    let mut el = element(s, "r", &ty, &val);
    // Also inside elements of the series' name
    let (mut ty, mut val) = (ty, val);
    for _ in 0..s.below(3) {
        let t = St::new(vec![Field { name: "it", ty: Ty::Seq(Rc::new(ty)), default: false }]);
        el.name = "it".into();
        let mut e = El::new("it");
        e.kids.push(Kid::El(el.clone()));
        let mut vs = vec![val.clone()];
        if s.coin() {
            el.joined = true;
            e.kids.push(Kid::El(el));
            vs.push(val);
        }
        el = e;
        ty = Ty::Struct(t);
        val = Val::Struct(vec![Val::Seq(vs)]);
    }
    let style = Style::any(s);
    let src = write(s, &el, &style);
    let cfg = cfg_for(s, &style);
    cx.case(&(&src, &ty), || show(&ty, &val, &src));
    cx.nontrivial_if(n > 1);
    cx.label_if(arity > 0, "tuples");
    cx.label_if(n > 30, "long");
    same(&ty, &val, read(&ty, parse(&cfg, &src)?), &src)
}
fn loop_present(s: &mut Src, t: &Ty) -> Val {
    present(s, t)
}

fn other_name(s: &mut Src, st: &St) -> String {
    loop {
        let n = match s.below(3) {
            0 => gen::name(s),
            1 => s.pick(&["extra", "item", "x", "a", "Unit", "zz"]).to_string(),
            _ => {
                // Nearly one of its own
                let n = if st.fields.is_empty() { "n" } else { st.fields[s.us(st.fields.len())].name };
                match s.below(3) {
                    0 => format!("{n}s"),
                    1 => crate::doc::odd_case(s, n),
                    _ => format!("x{n}"),
                }
            }
        };
        if n.len() < 60 && gen::is_name(&n) && st.field(&n).is_none() {
            return n;
        }
        if gen::is_name("other-one") && st.field("other-one").is_none() && s.coin() {
            return "other-one".into();
        }
    }
}

fn c18_interrupted(s: &mut Src, cx: &mut Ctx) -> R {
    let depth = s.range(1, 3);
    let Some(mut d) = gen_doc(s, &seq_opts(), depth) else {
        return Err(Stop::Discard);
    };
    /// Positions within a series
    fn inside(e: &El) -> Vec<usize> {
        let Some(st) = &e.st else { return vec![] };
        if st.has_value() {
            return vec![];
        }
        (0..e.kids.len())
            .filter(|&i| {
                matches!(&e.kids[i], Kid::El(k) if k.joined
                    && st.field(&k.name).map_or(false, |f| matches!(core(&f.ty), Ty::Seq(_) | Ty::Tup(_) | Ty::TupStruct(_))))
            })
            .collect()
    }
    let p = |e: &El| !inside(e).is_empty();
    let n = d.el.count(&p);
    assume!(n > 0);
    let i = s.us(n);
    d.el.at(i, &p, &mut |e| {
        let at = *s.pick(&inside(e));
        let st = e.st.clone().unwrap();
        let alone: Vec<usize> = (0..e.kids.len())
            .filter(|&i| {
                matches!(&e.kids[i], Kid::El(k) if !k.joined)
                    && !matches!(e.kids.get(i + 1), Some(Kid::El(k)) if k.joined)
            })
            .collect();
        if !alone.is_empty() && s.coin() {
            // Another field goes in there
            let from = *s.pick(&alone);
            let k = e.kids.remove(from);
            e.kids.insert(if from < at { at - 1 } else { at }, k);
        } else {
            let n = other_name(s, &st);
            let x = junk(s, &n, 1);
            e.kids.insert(at, Kid::El(x));
        }
    });
    let st = Style::any(s);
    let src = write(s, &d.el, &st);
    let cfg = cfg_for(s, &st);
    cx.case(&(&src, &d.ty), || show(&d.ty, &d.val, &src));
    cx.nontrivial = true;
    rejected(&d.ty, "a series is interrupted", read(&d.ty, parse(&cfg, &src)?), &src)
}

fn c18_short(s: &mut Src, cx: &mut Ctx) -> R {
    let depth = s.range(1, 2);
    let Some(mut d) = gen_doc(s, &seq_opts(), depth) else {
        return Err(Stop::Discard);
    };
    /// Last elements of tuples
    fn last(e: &El) -> Vec<usize> {
        let Some(st) = &e.st else { return vec![] };
        if st.has_value() {
            return vec![];
        }
        (0..e.kids.len())
            .filter(|&i| {
                let Kid::El(k) = &e.kids[i] else { return false };
                let ends = !matches!(e.kids.get(i + 1), Some(Kid::El(k)) if k.joined);
                let Some(f) = st.field(&k.name) else { return false };
                ends && k.joined
                    && match core(&f.ty) {
                        Ty::Tup(_) | Ty::TupStruct(_) => true,
                        Ty::Seq(t) => match core(t) {
                            Ty::Tup(t) | Ty::TupStruct(t) => t.len() > 1,
                            _ => false,
                        },
                        _ => false,
                    }
            })
            .collect()
    }
    let p = |e: &El| !last(e).is_empty();
    let n = d.el.count(&p);
    assume!(n > 0);
    let i = s.us(n);
    d.el.at(i, &p, &mut |e| {
        let at = *s.pick(&last(e));
        e.kids.remove(at);
    });
    let st = Style::any(s);
    let src = write(s, &d.el, &st);
    let cfg = cfg_for(s, &st);
    cx.case(&(&src, &d.ty), || show(&d.ty, &d.val, &src));
    cx.nontrivial = true;
    rejected(&d.ty, "a tuple lacks an element", read(&d.ty, parse(&cfg, &src)?), &src)
}

// ---------------------------------------------------------------- C19

fn c19_values(s: &mut Src, cx: &mut Ctx) -> R {
    let depth = s.range(1, 3);
    roundtrip(s, cx, &TyOpts { seqs: 3, enums: 16, values: 3, ..TyOpts::default() }, depth)
}

/// One enum between other fields.
fn around(name: &'static str, e: Ty) -> Ty {
    Ty::Struct(St::new(vec![
        Field { name: "before", ty: Ty::Opt(Rc::new(Ty::Str)), default: false },
        Field { name, ty: e, default: false },
        Field { name: "after", ty: Ty::Opt(Rc::new(Ty::Str)), default: false },
    ]))
}

/// Every way of giving one value of an enum.
fn c19_agree(s: &mut Src, cx: &mut Ctx) -> R {
    let o = TyOpts { enums: 6, values: 3, ..TyOpts::default() };
    let tg = TG { o: &o };
    let ty = tg.enumeration(s, 2);
    let v = value(s, &ty);
    let unit = matches!(&v, Val::Enum(_, d) if **d == Val::Unit) && scalar_text(s, &ty, &v).is_some();
    let name = *s.pick(&["kind", "Unit", "a", "item", "New"]);
    let wrapped = match s.below(4) {
        0 => Ty::Opt(Rc::new(ty.clone())),
        1 => Ty::Newtype(Rc::new(ty.clone())),
        _ => ty.clone(),
    };
    let got = |v: Val| match wrapped {
        Ty::Opt(_) => Val::Some(Box::new(v)),
        _ => v,
    };
    let text = |t: &str| Val::Some(Box::new(Val::Str(t.to_owned())));
    let want = Val::Struct(vec![text("1"), got(v.clone()), text("2")]);
    let mut e = El::new("r");
    let before = El::text("before", "1".into());
    let after = El::text("after", "2".into());
    let mut ty_ = around(intern(name), wrapped.clone());
    let mut want_ = want;
    let tag = match &v {
        Val::Enum(n, _) => n.to_string(),
        _ => unreachable!(),
    };
    let how = match s.below(6) {
        0 if unit => {
            e.attrs.push((name.into(), Some(tag.clone())));
            if s.coin() {
                e.attrs.push(("after".into(), Some("2".into())));
                e.kids.push(Kid::El(before));
            } else {
                e.kids.push(Kid::El(before));
                e.kids.push(Kid::El(after));
            }
            "attribute"
        }
        1 if unit => {
            e.kids = vec![before, spread(s, name, &tag, 0), after].into_iter().map(Kid::El).collect();
            "text"
        }
        2 | 3 => {
            let mut k = El::new(name);
            k.kids = variant(s, &ty, &v).into_iter().map(Kid::El).collect();
            k.extra = Extra::Attrs;
            e.kids = vec![before, k, after].into_iter().map(Kid::El).collect();
            "tag in the field's element"
        }
        4 => {
            // Root
            ty_ = ty.clone();
            want_ = v.clone();
            let mut k = variant(s, &ty, &v);
            assume!(k.len() == 1);
            e = k.remove(0);
            "root"
        }
        _ => {
            // As the content of an element
            ty_ = Ty::Struct(St::new(vec![
                Field { name: "before", ty: Ty::Opt(Rc::new(Ty::Str)), default: false },
                Field { name: "$value", ty: wrapped.clone(), default: false },
                Field { name: "after", ty: Ty::Opt(Rc::new(Ty::Str)), default: false },
            ]));
            e.attrs.push(("before".into(), Some("1".into())));
            e.attrs.push(("after".into(), Some("2".into())));
            if unit && s.coin() {
                e.kids.push(Kid::Text(tag.clone()));
            } else {
                e.kids = variant(s, &ty, &v).into_iter().map(Kid::El).collect();
            }
            "content"
        }
    };
    ignored_attrs(s, &mut e);
    let st = Style::any(s);
    let src = write(s, &e, &st);
    let cfg = cfg_for(s, &st);
    cx.case(&(&src, &ty_), || show(&ty_, &want_, &src));
    cx.nontrivial = true;
    cx.label(how);
    same(&ty_, &want_, read(&ty_, parse(&cfg, &src)?), &src)
}

fn c19_wrong(s: &mut Src, cx: &mut Ctx) -> R {
    let o = TyOpts { enums: 4, values: 2, ..TyOpts::default() };
    let tg = TG { o: &o };
    let ty = tg.enumeration(s, 1);
    let Ty::Enum(en) = &ty else { unreachable!() };
    let data: Vec<&Var> = en.vars.iter().filter(|v| v.kind != Kind::Unit).collect();
    // The name of no variant, or that of a variant which needs more than that
    let (tag, carries) = if !data.is_empty() && s.coin() {
        (s.pick(&data).name.to_owned(), true)
    } else {
        let near = en.vars[s.us(en.vars.len())].name;
        let n = match s.below(4) {
            0 => crate::doc::odd_case(s, near),
            1 => format!("{near}s"),
            2 => s.pick(&["", "unit", "0", "None", "kind", "true"]).to_string(),
            _ => string(s),
        };
        assume!(!en.vars.iter().any(|v| v.name == n));
        (n, false)
    };
    let wrapped = match s.below(4) {
        0 => Ty::Opt(Rc::new(ty.clone())),
        1 => Ty::Newtype(Rc::new(ty.clone())),
        _ => ty.clone(),
    };
    let name = *s.pick(&["kind", "Unit", "a", "item", "New"]);
    let mut e = El::new("r");
    let mut root = around(intern(name), wrapped.clone());
    // Something it could be mistaken for
    let plausible = |s: &mut Src| -> Vec<El> {
        let v = value(s, &ty);
        let mut l = variant(s, &ty, &v);
        if carries {
            let var = en.vars.iter().find(|v| v.name == tag).unwrap();
            let d = match &var.kind {
                Kind::New(t) => present(s, t),
                Kind::Tup(t) => Val::Seq(t.iter().map(|t| present(s, t)).collect()),
                Kind::Struct(_) => {
                    // A value of this very variant
                    let one = Ty::Enum(En::new(vec![var.clone()]));
                    match value(s, &one) {
                        Val::Enum(_, d) => *d,
                        _ => unreachable!(),
                    }
                }
                Kind::Unit => unreachable!(),
            };
            l = variant(s, &ty, &Val::Enum(var.name, Box::new(d)));
        }
        l
    };
    let mut kids: Vec<El> = vec![];
    let how = match s.below(5) {
        0 => {
            e.attrs.push((name.into(), Some(tag.clone())));
            if s.coin() {
                kids.extend(plausible(s));
            }
            "attribute"
        }
        1 | 2 => {
            kids.push(spread(s, name, &tag, 0));
            if s.coin() {
                kids.extend(plausible(s));
            }
            "text"
        }
        3 => {
            root = Ty::Struct(St::new(vec![Field { name: "$value", ty: wrapped.clone(), default: false }]));
            if !tag.is_empty() {
                e.kids.push(Kid::Text(tag.clone()));
            }
            "content"
        }
        _ => {
            assume!(!carries && gen::is_name(&tag) && tag.len() < 60);
            let mut k = El::new(name);
            k.kids.push(Kid::El(junk(s, &tag, 1)));
            kids.push(k);
            "tag"
        }
    };
    if how != "content" {
        if s.coin() {
            kids.push(El::text("after", "2".into()));
        }
        if s.coin() {
            kids.insert(0, El::text("before", "1".into()));
        }
    }
    e.kids.extend(kids.into_iter().map(Kid::El));
    let mut el = e;
    if s.one_in(3) {
        // In a series, with plausible markup after it
        let f = Field { name: "in", ty: Ty::Seq(Rc::new(root)), default: false };
        root = Ty::Struct(St::new(vec![f]));
        el.name = "in".into();
        let mut o = El::new("r");
        o.kids.push(Kid::El(el));
        o.kids.extend(plausible(s).into_iter().map(Kid::El));
        el = o;
    }
    let st = Style::any(s);
    let src = write(s, &el, &st);
    let cfg = cfg_for(s, &st);
    cx.case(&(&src, &root), || format!("{root:?}\n{src}"));
    cx.nontrivial = true;
    cx.label(how);
    cx.label(if carries { "carries data" } else { "unknown" });
    rejected(&root, &format!("{tag:?} names no variant, or not all of it"), read(&root, parse(&cfg, &src)?), &src)
}

// ---------------------------------------------------------------- C20

fn c20_values(s: &mut Src, cx: &mut Ctx) -> R {
    let depth = s.range(1, 3);
    roundtrip(s, cx, &TyOpts { seqs: 4, enums: 2, values: 20, ..TyOpts::default() }, depth)
}

/// Content of every kind between neighbours that have content of their own.
fn c20_content(s: &mut Src, cx: &mut Ctx) -> R {
    let o = TyOpts { values: 6, ..TyOpts::default() };
    let tg = TG { o: &o };
    let st = tg.st(s, 2, true);
    let t = Ty::Struct(st);
    let n = s.range(0, 4);
    let mut kids: Vec<El> = vec![];
    let mut want = vec![];
    let series = s.coin();
    for i in 0..n {
        let v = value(s, &t);
        let name = if series { "it".to_owned() } else { format!("e{i}") };
        let mut e = element(s, &name, &t, &v);
        e.joined = series && i > 0;
        kids.push(e);
        want.push((name, v));
    }
    let mut root = El::new("r");
    root.kids = kids.into_iter().map(Kid::El).collect();
    let (ty, want) = if series {
        let f = Field { name: "it", ty: Ty::Seq(Rc::new(t)), default: true };
        let w = Val::Seq(want.into_iter().map(|x| x.1).collect());
        let l = El::text("last", "more".into());
        root.kids.push(Kid::El(l));
        let g = Field { name: "last", ty: Ty::Str, default: false };
        (Ty::Struct(St::new(vec![f, g])), Val::Struct(vec![w, Val::Str("more".into())]))
    } else {
        (Ty::Map(Rc::new(t)), Val::Map(want))
    };
    // Text that belongs to nobody
    let mut noise = vec![];
    if !series {
        for k in root.kids.drain(..) {
            if s.one_in(3) {
                noise.push(Kid::Text("stray".into()));
            }
            noise.push(k);
        }
        if s.one_in(3) {
            noise.push(Kid::Text("stray".into()));
        }
        root.kids = noise;
    }
    let style = Style::any(s);
    let src = write(s, &root, &style);
    let cfg = cfg_for(s, &style);
    cx.case(&(&src, &ty), || show(&ty, &want, &src));
    cx.nontrivial_if(n > 0);
    same(&ty, &want, read(&ty, parse(&cfg, &src)?), &src)
}

// ---------------------------------------------------------------- C21

fn soup_name(s: &mut Src) -> String {
    s.pick(&["a", "a", "b", "item", "Unit", "New", "name", "x", "$value", "", "credit", "A"]).to_string()
}

/// A type that refers to names and shapes as they are in the soup.
fn any_ty(s: &mut Src) -> Ty {
    let o = TyOpts { seqs: 6, enums: 6, values: 6, ..TyOpts::default() };
    let tg = TG { o: &o };
    match s.below(8) {
        0 => Ty::Chaos,
        1 => Ty::Seq(Rc::new(tg.field(s, 2))),
        2 => Ty::Opt(Rc::new(tg.field(s, 2))),
        3 => Ty::Tup(Rc::new((0..s.below(4)).map(|_| tg.field(s, 2)).collect())),
        4 => wild(s, 3),
        _ => tg.root(s, 2),
    }
}
/// No regard for what makes sense.
fn wild(s: &mut Src, depth: usize) -> Ty {
    if depth == 0 {
        return match s.below(8) {
            0 => Ty::Chaos,
            1 => Ty::Unit,
            2 => Ty::Str,
            3 => Ty::Bool,
            4 => Ty::Tup(Rc::new(vec![])),
            5 => Ty::Struct(St::new(vec![])),
            6 => Ty::Num(Num::I32),
            _ => Ty::UnitStruct,
        };
    }
    let mut names: Vec<&'static str> = vec![];
    match s.below(9) {
        0 => Ty::Opt(Rc::new(wild(s, depth - 1))),
        1 => Ty::Newtype(Rc::new(wild(s, depth - 1))),
        2 => Ty::Seq(Rc::new(wild(s, depth - 1))),
        3 => Ty::Tup(Rc::new((0..s.below(4)).map(|_| wild(s, depth - 1)).collect())),
        4 => Ty::Map(Rc::new(wild(s, depth - 1))),
        5 | 6 => {
            for _ in 0..s.below(4) {
                let n = intern(*s.pick(&["a", "b", "item", "$value", "name", "x", ""]));
                if !names.contains(&n) {
                    names.push(n);
                }
            }
            Ty::Struct(St::new(
                names
                    .into_iter()
                    .map(|name| Field { name, ty: wild(s, depth - 1), default: s.coin() })
                    .collect(),
            ))
        }
        _ => {
            for _ in 0..s.range(0, 3) {
                let n = intern(*s.pick(&["a", "b", "item", "Unit", "New", "x", "$value"]));
                if !names.contains(&n) {
                    names.push(n);
                }
            }
            Ty::Enum(En::new(
                names
                    .into_iter()
                    .map(|name| Var {
                        name,
                        kind: match s.below(4) {
                            0 => Kind::Unit,
                            1 => Kind::New(wild(s, depth - 1)),
                            2 => Kind::Tup((0..s.below(4)).map(|_| wild(s, depth - 1)).collect()),
                            _ => match wild(s, depth) {
                                Ty::Struct(st) => Kind::Struct(st),
                                t => Kind::New(t),
                            },
                        },
                    })
                    .collect(),
            ))
        }
    }
}

/// Streams as the parser makes them: tags are complete, and anything may follow anything.
fn soup(s: &mut Src) -> Vec<Vec<SgmlEvent<'static>>> {
    let n = s.size(60);
    let mut v: Vec<Vec<SgmlEvent<'static>>> = vec![];
    let mut open: Vec<String> = vec![];
    for _ in 0..n {
        match s.weighted(&[6, 5, 4, 1, 1]) {
            0 => {
                let n = soup_name(s);
                let mut tag = vec![SgmlEvent::OpenStartTag { name: n.clone().into() }];
                if n.is_empty() {
                    tag.push(SgmlEvent::CloseStartTag);
                } else {
                    for _ in 0..s.weighted(&[5, 2, 1]) {
                        let mut name = soup_name(s);
                        if name.is_empty() {
                            name = "b".into();
                        }
                        let value = match s.below(4) {
                            0 => None,
                            1 => Some(soup_name(s).into()),
                            2 => Some("1".into()),
                            _ => Some(string(s).into()),
                        };
                        tag.push(SgmlEvent::Attribute { name: name.into(), value });
                    }
                    if s.one_in(8) {
                        tag.push(SgmlEvent::XmlCloseEmptyElement);
                    } else {
                        tag.push(SgmlEvent::CloseStartTag);
                        open.push(n);
                    }
                }
                v.push(tag);
            }
            1 => {
                let n = match open.pop() {
                    Some(n) if !s.one_in(10) => n,
                    _ => soup_name(s),
                };
                v.push(vec![SgmlEvent::EndTag { name: n.into() }]);
            }
            2 => v.push(vec![SgmlEvent::Character(match s.below(4) {
                0 => string(s).into(),
                1 => soup_name(s).into(),
                2 => "1".into(),
                _ => "".into(),
            })]),
            3 => v.push(complete(unsupported(s))),
            _ => {
                if let Some(n) = open.pop() {
                    v.push(vec![SgmlEvent::EndTag { name: n.into() }]);
                }
            }
        }
    }
    while let Some(n) = open.pop() {
        if s.one_in(12) {
            continue;
        }
        v.push(vec![SgmlEvent::EndTag { name: n.into() }]);
    }
    v
}
/// An empty start tag is closed right away.
fn complete(e: SgmlEvent<'static>) -> Vec<SgmlEvent<'static>> {
    match e {
        SgmlEvent::OpenStartTag { .. } => vec![e, SgmlEvent::CloseStartTag],
        e => vec![e],
    }
}

fn unsupported(s: &mut Src) -> SgmlEvent<'static> {
    match s.below(5) {
        0 => SgmlEvent::MarkupDeclaration { keyword: "DOCTYPE".into(), body: "a".into() },
        1 => SgmlEvent::ProcessingInstruction("<?pi>".into()),
        2 => SgmlEvent::MarkedSection { status_keywords: "CDATA".into(), section: "<a>".into() },
        3 => SgmlEvent::OpenStartTag { name: "".into() },
        _ => SgmlEvent::EndTag { name: "".into() },
    }
}

fn total(s: &mut Src, cx: &mut Ctx, ty: &Ty, evs: Vec<SgmlEvent<'static>>) -> R {
    let p: Vec<u64> = (0..s.size(80)).map(|_| s.bits() >> 8).collect();
    let n = evs.len() as u64;
    cx.case(&(format!("{evs:?}"), ty, &p), || format!("{ty:?}\n{}", refimpl::show(&evs)));
    cx.nontrivial_if(n > 4);
    set_plan(p.clone());
    // Each level of the type may look at the same event, but not again and again
    let fuel = 64 * (n + 4);
    FUEL.with(|f| f.set(fuel));
    let f: SgmlFragment = evs.into();
    let again = hash64(&format!("{f:?}")) % 3 == 0;
    let r = from_fragment(ty, f.clone());
    FUEL.with(|f| f.set(u64::MAX));
    if again {
        // Once more, with someone listening to what it logs
        set_plan(p);
        FUEL.with(|f| f.set(fuel));
        let r2 = with_logging(|| from_fragment(ty, f));
        FUEL.with(|f| f.set(u64::MAX));
        let (a, b) = (format!("{r:?}"), format!("{r2:?}"));
        ensure!(a == b, "gives {}\nand the second time, with logging: {}", cut(&a, 400), cut(&b, 400));
    }
    cx.label(if r.is_ok() { "value" } else { "error" });
    if let Err(e) = &r {
        let m = e.to_string();
        ensure!(m != OUT_OF_FUEL, "over {fuel} entries were asked for, for {n} events");
        let _ = format!("{e:?}");
    }
    Ok(())
}

fn c21_soup(s: &mut Src, cx: &mut Ctx) -> R {
    let ty = any_ty(s);
    let evs = soup(s).concat();
    total(s, cx, &ty, evs)
}

fn c21_chaos(s: &mut Src, cx: &mut Ctx) -> R {
    let evs = if s.coin() {
        soup(s).concat()
    } else {
        let e = junk(s, "a", 3);
        events(&e).into_iter().map(|x| x.0).collect()
    };
    total(s, cx, &Ty::Chaos, evs)
}

/// The same by targets that may go on after an error.
fn c21_easy(s: &mut Src, cx: &mut Ctx) -> R {
    EASY.with(|e| e.set(true));
    let r = match s.below(4) {
        0 => c21_parsed(s, cx),
        _ => c21_chaos(s, cx),
    };
    EASY.with(|e| e.set(false));
    r
}

/// A document that fits, changed somewhere.
fn c21_mutated(s: &mut Src, cx: &mut Ctx) -> R {
    let o = TyOpts { seqs: 5, enums: 5, values: 5, ..TyOpts::default() };
    let Some(d) = gen_doc(s, &o, 2) else {
        return Err(Stop::Discard);
    };
    let mut evs: Vec<Vec<SgmlEvent<'static>>> = vec![];
    for (e, _) in events(&d.el) {
        match e {
            SgmlEvent::Attribute { .. } | SgmlEvent::CloseStartTag => evs.last_mut().unwrap().push(e),
            _ => evs.push(vec![e]),
        }
    }
    for _ in 0..s.range(1, 4) {
        if evs.is_empty() {
            break;
        }
        let at = s.us(evs.len());
        match s.below(5) {
            0 => {
                evs.remove(at);
            }
            1 => {
                let x = evs[at].clone();
                let to = s.range(0, evs.len());
                evs.insert(to, x);
            }
            2 => {
                let to = s.us(evs.len());
                evs.swap(at, to);
            }
            3 => evs.truncate(at),
            _ => {
                let x = soup(s);
                evs.splice(at..at, x.into_iter().take(4));
            }
        }
    }
    let ty = if s.one_in(5) { any_ty(s) } else { d.ty };
    total(s, cx, &ty, evs.concat())
}

/// Parsed text, normalized or not.
fn c21_parsed(s: &mut Src, cx: &mut Ctx) -> R {
    let cfg = gen::cfg(s);
    let src = match s.below(3) {
        0 => crate::doc::soup(s),
        _ => {
            let d = crate::doc::doc(s, &cfg, &crate::doc::Opts::default());
            crate::doc::render(&d)
        }
    };
    let Ok(mut f) = cfg.build().parse(&src) else {
        return Err(Stop::Discard);
    };
    if s.coin() {
        if let Ok(g) = sgmlish::transforms::normalize_end_tags(f.clone()) {
            f = g;
        }
    }
    let evs: Vec<SgmlEvent<'static>> = f.into_iter().map(|e| e.into_owned()).collect();
    let ty = if s.coin() { Ty::Chaos } else { any_ty(s) };
    total(s, cx, &ty, evs)
}

// ---------------------------------------------------------------- C22

/// The events of an element, and for each whether the place before it is read.
fn events(e: &El) -> Vec<(SgmlEvent<'static>, bool)> {
    fn go(e: &El, skipped: bool, o: &mut Vec<(SgmlEvent<'static>, bool)>) {
        o.push((SgmlEvent::OpenStartTag { name: e.name.clone().into() }, !skipped));
        for (n, v) in &e.attrs {
            let value = v.clone().map(Into::into);
            o.push((SgmlEvent::Attribute { name: n.clone().into(), value }, false));
        }
        o.push((SgmlEvent::CloseStartTag, false));
        let inner = skipped || matches!(e.extra, Extra::All);
        for k in &e.kids {
            match k {
                Kid::El(k) => go(k, inner, o),
                Kid::Text(t) => o.push((SgmlEvent::Character(t.clone().into()), !inner)),
            }
        }
        o.push((SgmlEvent::EndTag { name: e.name.clone().into() }, !inner));
    }
    let mut o = vec![];
    go(e, false, &mut o);
    o
}

/// Splits some texts, so that something can come in the middle.
fn split_texts(s: &mut Src, evs: Vec<(SgmlEvent<'static>, bool)>) -> Vec<(SgmlEvent<'static>, bool)> {
    let mut o = vec![];
    for (e, r) in evs {
        match &e {
            SgmlEvent::Character(t) if s.coin() => {
                let cs: Vec<char> = t.chars().collect();
                let at = s.range(0, cs.len());
                let (a, b): (String, String) = (cs[..at].iter().collect(), cs[at..].iter().collect());
                o.push((SgmlEvent::Character(a.into()), r));
                o.push((SgmlEvent::Character(b.into()), r));
            }
            _ => o.push((e, r)),
        }
    }
    o
}

pub fn mixed_opts() -> TyOpts {
    TyOpts { seqs: 5, enums: 4, values: 4, ..TyOpts::default() }
}

fn c22_unsupported(s: &mut Src, cx: &mut Ctx) -> R {
    let Some(mut d) = gen_doc(s, &mixed_opts(), 2) else {
        return Err(Stop::Discard);
    };
    if s.coin() {
        add_extra(s, &mut d.el, &mut vec![]);
    }
    let evs = split_texts(s, events(&d.el));
    let places: Vec<usize> = (0..evs.len()).filter(|&i| evs[i].1).collect();
    let at = *s.pick(&places);
    let mut evs: Vec<_> = evs.into_iter().map(|x| x.0).collect();
    let bad = unsupported(s);
    evs.splice(at..at, complete(bad.clone()));
    cx.case(&(format!("{evs:?}"), &d.ty), || format!("{:?}\nat {at}: {}", d.ty, refimpl::show(&evs)));
    cx.nontrivial_if(evs.len() > 5);
    let text = refimpl::show(&evs);
    match read(&d.ty, evs.into()) {
        Err(DeserializationError::Unsupported(e)) if e == bad => Ok(()),
        // An empty tag may also be an element too many, or the end of another one
        Err(_) if matches!(bad, SgmlEvent::OpenStartTag { .. } | SgmlEvent::EndTag { .. }) => Ok(()),
        Err(e) => fail(format!("reported as: {e}\nat {at}: {bad:?}\ntype {:?}\n{text}", d.ty)),
        Ok(v) => fail(format!("read as {v:?}\nin spite of {bad:?} at {at}\ntype {:?}\n{text}", d.ty)),
    }
}

fn c22_mismatched(s: &mut Src, cx: &mut Ctx) -> R {
    let how = s.below(4);
    mismatched(s, cx, how, false)
}
pub fn mismatched(s: &mut Src, cx: &mut Ctx, how: u64, named: bool) -> R {
    let Some(mut d) = gen_doc(s, &mixed_opts(), 2) else {
        return Err(Stop::Discard);
    };
    if s.coin() {
        add_extra(s, &mut d.el, &mut vec![]);
    }
    let mut evs: Vec<_> = split_texts(s, events(&d.el)).into_iter().map(|x| x.0).collect();
    let ends: Vec<usize> = (0..evs.len()).filter(|&i| matches!(evs[i], SgmlEvent::EndTag { .. })).collect();
    let mut report = None;
    let how = match how {
        0 => {
            let i = *s.pick(&ends);
            let SgmlEvent::EndTag { name } = &mut evs[i] else { unreachable!() };
            let n = match s.below(4) {
                0 => crate::doc::odd_case(s, name),
                1 => format!("{name}x"),
                2 => soup_name(s),
                _ => gen::name(s),
            };
            assume!(*name != n && !n.is_empty());
            report = Some((name.to_string(), n.clone()));
            *name = n.into();
            "another name"
        }
        1 => {
            let i = *s.pick(&ends);
            evs.remove(i);
            "no end tag"
        }
        2 => {
            let i = s.range(1, evs.len() - 1);
            evs.truncate(i);
            "cut off"
        }
        _ => {
            // Outside of tags, before the last end tag
            let mut open: Vec<String> = vec![];
            let mut places = vec![];
            for (i, e) in evs.iter().enumerate() {
                if !matches!(e, SgmlEvent::Attribute { .. } | SgmlEvent::CloseStartTag) {
                    places.push((i, open.last().cloned()));
                }
                match e {
                    SgmlEvent::OpenStartTag { name } => open.push(name.to_string()),
                    SgmlEvent::EndTag { .. } => {
                        open.pop();
                    }
                    _ => {}
                }
            }
            let (at, cur) = s.pick(&places).clone();
            let n = match s.below(3) {
                0 => soup_name(s),
                1 => cur.as_ref().map_or("x".into(), |c| crate::doc::odd_case(s, c)),
                _ => {
                    // An element that is open, but not the innermost
                    match &evs[0] {
                        SgmlEvent::OpenStartTag { name } => name.to_string(),
                        _ => unreachable!(),
                    }
                }
            };
            assume!(!n.is_empty() && cur.as_deref() != Some(&n[..]));
            evs.insert(at, SgmlEvent::EndTag { name: n.into() });
            "one more end tag"
        }
    };
    let text = refimpl::show(&evs);
    cx.case(&(&text, &d.ty), || format!("{how}: {:?}\n{text}", d.ty));
    cx.nontrivial_if(evs.len() > 5);
    cx.label(how);
    let got = read(&d.ty, evs.into());
    match (&got, report) {
        (Err(DeserializationError::MismatchedCloseTag { expected, found }), Some((a, b)))
            if *expected == a && *found == b => {}
        (Err(DeserializationError::UnexpectedEof), None) => {}
        (Err(e), r) if named => {
            return fail(format!("{how} ({r:?}), but what is reported is: {e:?}\ntype {:?}\n{text}", d.ty))
        }
        _ => {}
    }
    rejected(&d.ty, how, got, &text)
}

// ---------------------------------------------------------------- C23

fn extra_attr(s: &mut Src, e: &mut El, n: String) {
    let v = if s.one_in(3) { None } else { Some(string(s)) };
    let at = s.range(0, e.attrs.len());
    e.attrs.insert(at, (n, v));
}

/// Adds what the type does not mention; gives how much.
/// `unknown` gets the names of those that a struct hears of.
pub fn add_extra(s: &mut Src, el: &mut El, unknown: &mut Vec<String>) -> usize {
    let mut added = 0;
    el.visit_mut(&mut |e| {
        // (inside of what was added there is nothing to add)
        let n = s.weighted(&[3, 2, 1]);
        for _ in 0..n {
            match e.extra.clone() {
                Extra::Nothing => {}
                Extra::Attrs => {
                    let n = s.pick(&["a", "value", "zz", "Unit", "é"]).to_string();
                    let m = gen::many(s, 300).unwrap_or(1);
                    extra_attr(s, e, n);
                    if m > 1 {
                        let a = e.attrs[0].clone();
                        e.attrs.extend(vec![a; m]);
                    }
                    added += 1;
                }
                Extra::OtherAttrs(st) => {
                    let n = other_name(s, &st);
                    unknown.push(n.clone());
                    extra_attr(s, e, n);
                    added += 1;
                }
                Extra::Other(st) => {
                    let n = other_name(s, &st);
                    if s.one_in(3) {
                        unknown.push(n.clone());
                        extra_attr(s, e, n);
                    } else {
                        let places: Vec<usize> = (0..=e.kids.len())
                            .filter(|&at| !matches!(e.kids.get(at), Some(Kid::El(k)) if k.joined))
                            .collect();
                        let at = *s.pick(&places);
                        let depth = if s.one_in(10) { 6 } else { 2 };
                        let x = if s.one_in(4) {
                            // Like the element itself
                            let mut x = El::new(&n);
                            x.kids.push(Kid::El(e.clone()));
                            x.visit_mut(&mut |e| e.extra = Extra::All);
                            x
                        } else {
                            junk(s, &n, depth)
                        };
                        if s.huge || size(&x) < 60 {
                            unknown.push(n);
                            e.kids.insert(at, Kid::El(x));
                        }
                    }
                    added += 1;
                }
                Extra::All => {
                    if s.one_in(4) {
                        let n = s.pick(&["a", "zz", "b"]).to_string();
                        let x = junk(s, &n, 1);
                        let at = s.range(0, e.kids.len());
                        e.kids.insert(at, Kid::El(x));
                        added += 1;
                    }
                }
            }
        }
    });
    added
}

fn c23_extra(s: &mut Src, cx: &mut Ctx) -> R {
    let depth = s.range(1, 3);
    let Some(mut d) = gen_doc(s, &mixed_opts(), depth) else {
        return Err(Stop::Discard);
    };
    let plain = size(&d.el);
    let mut added = add_extra(s, &mut d.el, &mut vec![]);
    let st = Style::any(s);
    let mut src = write(s, &d.el, &st);
    if s.one_in(3) {
        added += 1;
        for _ in 0..gen::many(s, 100).unwrap_or(s.range(1, 3)) {
            src.push_str(s.pick(&[
                "<a>1</a>", "<b>", "</b>", "text", "<a/>", "<?pi>", "</>", "<a x=1>", "<!-- c -->", " ", "<Unit>", "</r></r>",
            ]));
        }
    }
    let cfg = cfg_for(s, &st);
    cx.case(&(&src, &d.ty), || show(&d.ty, &d.val, &src));
    cx.nontrivial_if(added > 0);
    cx.label_if(added > 4, "over 4 additions");
    cx.label_if(plain > 20, "large");
    same(&d.ty, &d.val, read(&d.ty, parse(&cfg, &src)?), &src)
}

/// Unit-typed fields take exactly their own element or attribute.
fn c23_units(s: &mut Src, cx: &mut Ctx) -> R {
    let o = TyOpts { seqs: 3, ..TyOpts::default() };
    let tg = TG { o: &o };
    let mut fields = vec![];
    let n = s.range(2, 5);
    for i in 0..n {
        let ty = match s.below(3) {
            0 => Ty::Unit,
            1 => Ty::UnitStruct,
            _ => tg.field(s, 1),
        };
        fields.push(Field { name: intern(&format!("f{i}")), ty, default: false });
    }
    let ty = Ty::Struct(St::new(fields));
    let val = value(s, &ty);
    let mut el = element(s, "r", &ty, &val);
    add_extra(s, &mut el, &mut vec![]);
    let st = Style::any(s);
    let src = write(s, &el, &st);
    let cfg = cfg_for(s, &st);
    cx.case(&(&src, &ty), || show(&ty, &val, &src));
    cx.nontrivial = true;
    same(&ty, &val, read(&ty, parse(&cfg, &src)?), &src)
}

// ---------------------------------------------------------------- C28

fn any_opts() -> TyOpts {
    TyOpts { any: 1, ..TyOpts::default() }
}
fn c28_values(s: &mut Src, cx: &mut Ctx) -> R {
    let depth = s.range(1, 3);
    roundtrip(s, cx, &any_opts(), depth)
}
fn c28_trees(s: &mut Src, cx: &mut Ctx) -> R {
    let ty = match s.below(6) {
        0 => Ty::Opt(Rc::new(Ty::Any)),
        1 => Ty::Newtype(Rc::new(Ty::Any)),
        2 => Ty::Map(Rc::new(Ty::Any)),
        _ => Ty::Any,
    };
    let val = present(s, &ty);
    let Some(el) = document(s, &ty, &val) else {
        return Err(Stop::Discard);
    };
    let st = Style::any(s);
    let src = write(s, &el, &st);
    let cfg = cfg_for(s, &st);
    cx.case(&(&src, &ty), || show(&ty, &val, &src));
    cx.nontrivial_if(size(&el) > 2);
    cx.label_if(size(&el) > 20, "large");
    same(&ty, &val, read(&ty, parse(&cfg, &src)?), &src)
}

mod buffered {
    use super::*;
    use serde::Deserialize;
    use std::collections::BTreeMap;

    #[derive(Deserialize, Debug, PartialEq, Clone)]
    pub struct Part {
        pub w: String,
        pub h: Option<String>,
    }
    #[derive(Deserialize, Debug, PartialEq, Clone)]
    pub struct Flat {
        pub a: String,
        pub n: i32,
        #[serde(flatten)]
        pub part: Part,
        #[serde(flatten)]
        pub rest: BTreeMap<String, String>,
    }
    #[derive(Deserialize, Debug, PartialEq, Clone)]
    #[serde(tag = "type")]
    pub enum Shape {
        Empty,
        Circle { r: String },
        #[serde(rename = "rect")]
        Rect(Part),
        Text {
            #[serde(rename = "$value")]
            text: String,
            lang: Option<String>,
        },
    }
    #[derive(Deserialize, Debug, PartialEq, Clone)]
    #[serde(untagged)]
    pub enum Either {
        Part(Part),
        Mark { mark: String },
        Content {
            #[serde(rename = "$value")]
            text: String,
        },
        Text(String),
        Nothing,
    }
    #[derive(Deserialize, Debug, PartialEq, Clone)]
    #[serde(tag = "t", content = "c")]
    pub enum Adjacent {
        None,
        New(String),
        Struct { w: String, h: Option<String> },
    }
    #[derive(Deserialize, Debug, PartialEq, Clone)]
    pub struct Root {
        #[serde(default)]
        pub flat: Vec<Flat>,
        #[serde(default)]
        pub shape: Vec<Shape>,
        #[serde(default)]
        pub either: Vec<Either>,
        #[serde(default)]
        pub adj: Vec<Adjacent>,
        pub end: Option<String>,
    }

    fn text(s: &mut Src) -> String {
        let t = string(s);
        if t.is_empty() {
            "x".into()
        } else {
            t
        }
    }
    /// An attribute or an element
    fn put(s: &mut Src, e: &mut El, attrs_only: bool, k: &str, v: &str) {
        if attrs_only || s.coin() {
            e.attrs.push((k.into(), Some(v.into())));
        } else {
            let mut x = El::new(k);
            x.kids.push(Kid::Text(v.into()));
            e.kids.push(Kid::El(x));
        }
    }
    fn mixed(s: &mut Src, e: &mut El) {
        shuffle(s, &mut e.attrs);
        shuffle(s, &mut e.kids);
    }
    fn part(s: &mut Src) -> Part {
        let h = if s.coin() { Some(text(s)) } else { None };
        Part { w: text(s), h }
    }
    fn put_part(s: &mut Src, e: &mut El, p: &Part) {
        put(s, e, false, "w", &p.w);
        if let Some(h) = &p.h {
            put(s, e, false, "h", h);
        }
    }
    fn flat(s: &mut Src) -> (Flat, El) {
        let mut e = El::new("flat");
        let mut rest = BTreeMap::new();
        for _ in 0..s.below(4) {
            let n = match s.below(4) {
                0 => gen::name(s),
                _ => s.pick(&["b", "c", "wh", "A", "W", "x-y", "flat", "rest", "part"]).to_string(),
            };
            if !["a", "n", "w", "h"].contains(&&*n) && n.len() < 60 {
                rest.insert(n, text(s));
            }
        }
        let f = Flat { a: text(s), n: s.bits() as i32, part: part(s), rest };
        put(s, &mut e, false, "a", &f.a);
        put(s, &mut e, false, "n", &f.n.to_string());
        put_part(s, &mut e, &f.part);
        for (k, v) in &f.rest {
            put(s, &mut e, false, k, v);
        }
        (f, e)
    }
    fn shape(s: &mut Src) -> (Shape, El) {
        let mut e = El::new("shape");
        let v = match s.below(4) {
            0 => Shape::Empty,
            1 => Shape::Circle { r: text(s) },
            2 => Shape::Rect(part(s)),
            _ => {
                let text_ = string(s);
                Shape::Text { text: text_, lang: if s.coin() { Some(string(s)) } else { None } }
            }
        };
        match &v {
            Shape::Empty => put(s, &mut e, false, "type", "Empty"),
            Shape::Circle { r } => {
                put(s, &mut e, false, "type", "Circle");
                put(s, &mut e, false, "r", r);
            }
            Shape::Rect(p) => {
                put(s, &mut e, false, "type", "rect");
                put_part(s, &mut e, p);
            }
            Shape::Text { text, lang } => {
                put(s, &mut e, true, "type", "Text");
                if let Some(l) = lang {
                    put(s, &mut e, true, "lang", l);
                }
                if !text.is_empty() {
                    e.kids.push(Kid::Text(text.clone()));
                }
            }
        }
        if s.one_in(4) && !matches!(v, Shape::Text { .. }) {
            put(s, &mut e, false, "unknown", "1");
        }
        (v, e)
    }
    fn either(s: &mut Src) -> (Either, El) {
        let mut e = El::new("either");
        let v = match s.below(5) {
            0 => Either::Part(part(s)),
            1 => Either::Mark { mark: text(s) },
            2 => Either::Content { text: string(s) },
            3 => Either::Text(text(s)),
            _ => Either::Nothing,
        };
        match &v {
            Either::Part(p) => put_part(s, &mut e, p),
            Either::Mark { mark } => put(s, &mut e, false, "mark", mark),
            Either::Content { text } => {
                put(s, &mut e, true, "attr", "1");
                if !text.is_empty() {
                    e.kids.push(Kid::Text(text.clone()));
                }
            }
            Either::Text(t) => e.kids.push(Kid::Text(t.clone())),
            Either::Nothing => {}
        }
        (v, e)
    }
    fn adjacent(s: &mut Src) -> (Adjacent, El) {
        let mut e = El::new("adj");
        let v = match s.below(3) {
            0 => Adjacent::None,
            1 => Adjacent::New(text(s)),
            _ => {
                let p = part(s);
                Adjacent::Struct { w: p.w, h: p.h }
            }
        };
        let t = match &v {
            Adjacent::None => "None",
            Adjacent::New(t) => {
                put(s, &mut e, false, "c", t);
                "New"
            }
            Adjacent::Struct { w, h } => {
                let mut c = El::new("c");
                put_part(s, &mut c, &Part { w: w.clone(), h: h.clone() });
                mixed(s, &mut c);
                e.kids.push(Kid::El(c));
                "Struct"
            }
        };
        put(s, &mut e, false, "t", t);
        (v, e)
    }
    fn series<T>(s: &mut Src, r: &mut El, f: fn(&mut Src) -> (T, El)) -> Vec<T> {
        let n = s.weighted(&[4, 4, 2, 1]);
        let mut out = vec![];
        for _ in 0..n {
            let (v, mut e) = f(s);
            mixed(s, &mut e);
            r.kids.push(Kid::El(e));
            out.push(v);
        }
        out
    }
    pub fn root(s: &mut Src) -> (Root, El) {
        let mut e = El::new("root");
        let v = Root {
            flat: series(s, &mut e, flat),
            shape: series(s, &mut e, shape),
            either: series(s, &mut e, either),
            adj: series(s, &mut e, adjacent),
            end: if s.coin() { Some(text(s)) } else { None },
        };
        if let Some(t) = &v.end {
            put(s, &mut e, false, "end", t);
        }
        (v, e)
    }
}

/// Types for which serde's derive reads what there is first, and decides then.
fn c28_derived(s: &mut Src, cx: &mut Ctx) -> R {
    let (want, el) = buffered::root(s);
    let st = Style::any(s);
    let src = write(s, &el, &st);
    let cfg = cfg_for(s, &st);
    cx.case(&src, || format!("{want:?}\ndocument {src}"));
    cx.nontrivial_if(size(&el) > 3);
    let got = sgmlish::from_fragment::<buffered::Root>(parse(&cfg, &src)?);
    match got {
        Ok(v) if v == want => Ok(()),
        Ok(v) => fail(format!("read as {v:?}\nexpected {want:?}\ndocument {src}")),
        Err(e) => fail(format!("rejected: {e}\nexpected {want:?}\ndocument {src}")),
    }
}

// ---------------------------------------------------------------- C24

fn pipeline_style(s: &mut Src) -> Style {
    Style {
        trim: true,
        comments: s.coin(),
        cdata: s.coin(),
        sections: s.coin(),
        refs: s.coin(),
        omit: s.below(3) != 0,
        xml: s.coin(),
        case: s.below(3) != 0,
        ignored: s.one_in(4),
    }
}

fn pipeline(cfg: &Cfg, ty: &Ty, src: &str) -> Result<Result<Val, DeserializationError>, Stop> {
    let f = parse(cfg, src)?;
    let f = match sgmlish::transforms::normalize_end_tags(f) {
        Ok(f) => f,
        Err(e) => return fail(format!("end tags cannot be normalized: {e}\n{src}")),
    };
    Ok(read(ty, f))
}

fn c24_values(s: &mut Src, cx: &mut Ctx) -> R {
    let depth = s.range(1, 3);
    let o = TyOpts { lower: true, ..mixed_opts() };
    let ty = TG { o: &o }.root(s, depth);
    let mut val = value(s, &ty);
    lower_keys(&mut val);
    let mut docs = vec![];
    for _ in 0..2 {
        let Some(mut el) = document(s, &ty, &val) else {
            return Err(Stop::Discard);
        };
        lower_names(&mut el);
        let st = pipeline_style(s);
        let src = write(s, &el, &st);
        let mut cfg = cfg_for(s, &st);
        cfg.norm = 1;
        docs.push((cfg, src));
    }
    cx.case(&(&docs[0].1, &docs[1].1, &ty), || format!("{}\nand {}", show(&ty, &val, &docs[0].1), docs[1].1));
    cx.nontrivial_if(docs[0].1 != docs[1].1);
    for (cfg, src) in &docs {
        same(&ty, &val, pipeline(cfg, &ty, src)?, src)?;
    }
    Ok(())
}
/// Names that are up to the document, as they come out of name normalization.
fn lower_names(el: &mut El) {
    el.visit_mut(&mut |e| {
        e.name = refimpl::norm_name(&e.name, 1);
        for a in &mut e.attrs {
            a.0 = refimpl::norm_name(&a.0, 1);
        }
    });
}

fn lower_keys(v: &mut Val) {
    match v {
        Val::Map(m) => {
            let mut seen: Vec<String> = vec![];
            m.retain_mut(|(k, v)| {
                *k = refimpl::norm_name(k, 1);
                lower_keys(v);
                let new = gen::is_name(k) && refimpl::norm_name(k, 1) == *k && !seen.contains(k);
                seen.push(k.clone());
                new
            });
        }
        Val::Seq(l) | Val::Struct(l) => l.iter_mut().for_each(lower_keys),
        Val::Some(v) | Val::Enum(_, v) => lower_keys(v),
        _ => {}
    }
}

/// `<x/>` is an empty element, whether or not end tags were normalized.
fn c24_slash(s: &mut Src, cx: &mut Ctx) -> R {
    let (ty, want, el) = if s.one_in(3) {
        let ty = any_ty(s);
        let n = soup_name(s);
        (ty, None, junk(s, &n, 3))
    } else {
        let depth = s.range(1, 3);
        let Some(mut d) = gen_doc(s, &mixed_opts(), depth) else {
            return Err(Stop::Discard);
        };
        if s.coin() {
            add_extra(s, &mut d.el, &mut vec![]);
        }
        (d.ty, Some(d.val), d.el)
    };
    let full: Vec<_> = events(&el).into_iter().map(|x| x.0).collect();
    // The elements with nothing in them, not even a text that is empty
    let mut slashed = vec![];
    let mut n = 0;
    for e in full.clone() {
        if matches!(e, SgmlEvent::EndTag { .. }) && slashed.last() == Some(&SgmlEvent::CloseStartTag) && !s.one_in(4) {
            *slashed.last_mut().unwrap() = SgmlEvent::XmlCloseEmptyElement;
            n += 1;
        } else {
            slashed.push(e);
        }
    }
    if n == 0 {
        return Err(Stop::Discard);
    }
    let text = refimpl::show(&slashed);
    cx.case(&(&text, &ty), || format!("{ty:?}\n{text}"));
    cx.nontrivial_if(slashed.len() > 5);
    cx.label_if(n > 3, "over 3 empty elements");
    let plan: Vec<u64> = (0..s.size(40)).map(|_| s.bits() >> 8).collect();
    let ask = |evs: Vec<SgmlEvent<'static>>| {
        set_plan(plan.clone());
        FUEL.with(|f| f.set(64 * (full.len() as u64 + 4)));
        let r = read(&ty, evs.into());
        FUEL.with(|f| f.set(u64::MAX));
        r
    };
    let got = ask(slashed);
    if let Some(want) = &want {
        return same(&ty, want, got, &text);
    }
    let normal = format!("{:?}", ask(full.clone()));
    let got = format!("{got:?}");
    ensure!(got == normal, "read as {got}\nand with end tags: {normal}\ntype {ty:?}\n{text}");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C16",
            rule: "Random types (structs, maps, options, newtypes, series, tuples, enums, scalars, nested) with random values, written as documents in random representations and read back through derive-like and derived implementations; documents that lack a required field or have one twice; durations, ranges, bounds, results and maps with keys of several types of the standard library. Non-trivial: over 3 elements and attributes; all of the faulty documents.",
            subs: vec![
                sub("values", c16_values, 300_000),
                sub("derived", c16_derived, 150_000),
                sub("missing", c16_missing, 200_000),
                sub("duplicate", c16_duplicate, 200_000),
                sub("std", stdlib::c16_std, 200_000),
            ],
            probes: vec![],
        },
        Prop {
            id: "C17",
            rule: "Texts around the grammar and limits of Rust's numbers, booleans, characters and strings, as root, field element (in pieces, some within further elements) and attribute, under options and newtypes, against Rust's own parsing of the text; addresses, paths, non-zero, wrapping and atomic numbers and other types of the standard library, in any place. Non-trivial: the text is not empty.",
            subs: vec![
                sub("scalars", c17_scalars, 800_000),
                sub("agree", c17_agree, 300_000),
                sub("std", stdlib::c17_std, 300_000),
            ],
            probes: vec![],
        },
        Prop {
            id: "C18",
            rule: "Random types rich in series and tuples, and plain series of 0 to 70 items or groups among other fields and inside elements of the same name, read back; series interrupted by another field or an unknown element, and tuples that lack an element; the standard library's collections and arrays. Non-trivial: more than one item; over 3 elements and attributes; all of the faulty documents.",
            subs: vec![
                sub("values", c18_values, 250_000),
                sub("series", c18_series, 200_000),
                sub("interrupted", c18_interrupted, 200_000),
                sub("short", c18_short, 200_000),
                sub("std", stdlib::c18_std, 200_000),
            ],
            probes: vec![],
        },
        Prop {
            id: "C19",
            rule: "Random types rich in enums of all kinds of variants, read back; a single enum given in each of its representations between other fields; names of no variant and names of data-carrying variants as text, attribute, content and tag, before markup that looks like the data. Non-trivial: over 3 elements and attributes; all of the others.",
            subs: vec![
                sub("values", c19_values, 250_000),
                sub("agree", c19_agree, 300_000),
                sub("wrong", c19_wrong, 300_000),
            ],
            probes: vec![],
        },
        Prop {
            id: "C20",
            rule: "Random types rich in $value fields of all kinds, read back; a series or a map of such elements with stray text between them. Non-trivial: over 3 elements and attributes; at least one element with content.",
            subs: vec![
                sub("values", c20_values, 250_000),
                sub("content", c20_content, 250_000),
            ],
            probes: vec![],
        },
        Prop {
            id: "C21",
            rule: "Random and mutated event streams and parsed documents against random types and against a type that asks for arbitrary things in arbitrary order; the entries handed out are counted. Non-trivial: more than 4 events.",
            subs: vec![
                sub("soup", c21_soup, 400_000),
                sub("chaos", c21_chaos, 400_000),
                sub("easy", c21_easy, 400_000),
                sub("mutated", c21_mutated, 300_000),
                sub("parsed", c21_parsed, 200_000),
            ],
            probes: super::probes::c21(),
        },
        Prop {
            id: "C22",
            rule: "Documents that fit a random type, with one unsupported event at any place that is read, or one end tag renamed, removed or added, or cut off. Non-trivial: more than 5 events.",
            subs: vec![
                sub("unsupported", c22_unsupported, 400_000),
                sub("mismatched", c22_mismatched, 400_000),
            ],
            probes: vec![],
        },
        Prop {
            id: "C23",
            rule: "Documents for random types with attributes, elements and trailing material that their types do not mention. Non-trivial: something was added.",
            subs: vec![
                sub("extra", c23_extra, 350_000),
                sub("units", c23_units, 200_000),
            ],
            probes: vec![],
        },
        Prop {
            id: "C24",
            rule: "Values of random types with lower-case names, each written twice with independent choices of representation, case, omitted end tags, sections, comments, references, whitespace, and read through parser, end-tag normalization and deserialization; documents for random types with empty elements closed by `/>` and not normalized. Non-trivial: the two documents differ; over 5 events.",
            subs: vec![sub("values", c24_values, 250_000), sub("slash", c24_slash, 200_000)],
            probes: vec![],
        },
        Prop {
            id: "C28",
            rule: "Random element trees read as a tree of whatever is there; random types in which such parts occur as fields, items, entries and content; and derived types with flattened, untagged, internally and adjacently tagged parts. Non-trivial: over 2 or 3 elements and attributes.",
            subs: vec![
                sub("trees", c28_trees, 300_000),
                sub("values", c28_values, 250_000),
                sub("derived", c28_derived, 200_000),
            ],
            probes: vec![],
        },
    ]
}
