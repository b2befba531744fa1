//! The types of the standard library as targets: parts of C16, C17 and C18.

use crate::checks::de::{number_soup, parse, same, show, spread};
use crate::deser::*;
use crate::engine::*;
use crate::gen;
use serde::de::DeserializeOwned;
use serde::Deserialize;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, LinkedList, VecDeque};
use std::fmt::Debug;
use std::num::*;
use std::ops::Bound;
use std::rc::Rc;
use std::str::FromStr;

/// What the harness' own type for the target is, and the value read in its terms.
pub trait Std: DeserializeOwned {
    fn ty() -> Ty;
    fn val(&self) -> Val;
    /// The value written, as the target holds it.
    fn held(v: &Val) -> Val {
        v.clone()
    }
    /// A key of a map
    fn key(_: &mut Src) -> Option<String> {
        None
    }
}

fn sorted(mut v: Vec<Val>, dedup: bool) -> Val {
    v.sort_by_cached_key(|x| format!("{x:?}"));
    if dedup {
        v.dedup();
    }
    Val::Seq(v)
}
fn items<T: Std>(v: &Val) -> Vec<Val> {
    match v {
        Val::Seq(vs) => vs.iter().map(T::held).collect(),
        _ => vec![],
    }
}

macro_rules! ints {
    ($($t:ty, $n:ident;)*) => { $(
        impl Std for $t {
            fn ty() -> Ty {
                Ty::Num(Num::$n)
            }
            fn val(&self) -> Val {
                Val::Int(*self as i128)
            }
        }
    )* };
}
ints! { u8, U8; u16, U16; i8, I8; i64, I64; u64, U64; i32, I32; }
#[cfg(target_pointer_width = "64")]
ints! { usize, U64; isize, I64; }

impl Std for bool {
    fn ty() -> Ty {
        Ty::Bool
    }
    fn val(&self) -> Val {
        Val::Bool(*self)
    }
}
impl Std for char {
    fn ty() -> Ty {
        Ty::Char
    }
    fn val(&self) -> Val {
        Val::Char(*self)
    }
    fn key(s: &mut Src) -> Option<String> {
        Some(s.pick(&["a", "Z", "é", "七", "q", "x"]).to_string())
    }
}
impl Std for String {
    fn ty() -> Ty {
        Ty::Str
    }
    fn val(&self) -> Val {
        Val::Str(self.clone())
    }
}
impl Std for Box<str> {
    fn ty() -> Ty {
        Ty::Str
    }
    fn val(&self) -> Val {
        Val::Str(self.to_string())
    }
}
impl<T: Std> Std for Option<T> {
    fn ty() -> Ty {
        Ty::Opt(Rc::new(T::ty()))
    }
    fn val(&self) -> Val {
        match self {
            Some(v) => Val::Some(Box::new(v.val())),
            None => Val::None,
        }
    }
    fn held(v: &Val) -> Val {
        match v {
            Val::Some(v) => Val::Some(Box::new(T::held(v))),
            v => v.clone(),
        }
    }
}
macro_rules! seqs {
    ($($t:ident;)*) => { $(
        impl<T: Std> Std for $t<T> {
            fn ty() -> Ty {
                Ty::Seq(Rc::new(T::ty()))
            }
            fn val(&self) -> Val {
                Val::Seq(self.iter().map(|v| v.val()).collect())
            }
            fn held(v: &Val) -> Val {
                Val::Seq(items::<T>(v))
            }
            fn key(s: &mut Src) -> Option<String> {
                T::key(s)
            }
        }
    )* };
}
seqs! { Vec; VecDeque; LinkedList; }
impl<T: Std> Std for Box<[T]> {
    fn ty() -> Ty {
        Ty::Seq(Rc::new(T::ty()))
    }
    fn val(&self) -> Val {
        Val::Seq(self.iter().map(|v| v.val()).collect())
    }
    fn held(v: &Val) -> Val {
        Val::Seq(items::<T>(v))
    }
}
impl<T: Std> Std for Box<T> {
    fn ty() -> Ty {
        Ty::Newtype(Rc::new(T::ty()))
    }
    fn val(&self) -> Val {
        (**self).val()
    }
    fn held(v: &Val) -> Val {
        T::held(v)
    }
    fn key(s: &mut Src) -> Option<String> {
        T::key(s)
    }
}
impl<T: Std + Ord> Std for BTreeSet<T> {
    fn ty() -> Ty {
        Ty::Seq(Rc::new(T::ty()))
    }
    fn val(&self) -> Val {
        sorted(self.iter().map(|v| v.val()).collect(), false)
    }
    fn held(v: &Val) -> Val {
        sorted(items::<T>(v), true)
    }
}
impl<T: Std + Eq + std::hash::Hash> Std for HashSet<T> {
    fn ty() -> Ty {
        Ty::Seq(Rc::new(T::ty()))
    }
    fn val(&self) -> Val {
        sorted(self.iter().map(|v| v.val()).collect(), false)
    }
    fn held(v: &Val) -> Val {
        sorted(items::<T>(v), true)
    }
}
impl<T: Std + Ord> Std for BinaryHeap<T> {
    fn ty() -> Ty {
        Ty::Seq(Rc::new(T::ty()))
    }
    fn val(&self) -> Val {
        sorted(self.iter().map(|v| v.val()).collect(), false)
    }
    fn held(v: &Val) -> Val {
        sorted(items::<T>(v), false)
    }
}
macro_rules! arrays {
    ($($n:literal)*) => { $(
        impl<T: Std> Std for [T; $n] {
            fn ty() -> Ty {
                Ty::Tup(Rc::new(vec![T::ty(); $n]))
            }
            fn val(&self) -> Val {
                Val::Seq(self.iter().map(|v| v.val()).collect())
            }
            fn held(v: &Val) -> Val {
                Val::Seq(items::<T>(v))
            }
        }
    )* };
}
arrays! { 1 2 3 5 32 }

fn entries(mut es: Vec<(String, Val)>) -> Val {
    es.sort_by(|a, b| a.0.cmp(&b.0));
    Val::Map(es)
}
macro_rules! maps {
    ($($t:ident: $($b:ident)*;)*) => { $(
        impl<K: Std $(+ $b)*, V: Std> Std for $t<K, V> {
            fn ty() -> Ty {
                Ty::Map(Rc::new(V::ty()))
            }
            fn val(&self) -> Val {
                let es = self.iter().map(|(k, v)| match k.val() {
                    Val::Str(k) => (k, v.val()),
                    Val::Char(k) => (k.to_string(), v.val()),
                    Val::Enum(k, _) => (k.to_owned(), v.val()),
                    _ => unreachable!(),
                });
                entries(es.collect())
            }
            fn held(v: &Val) -> Val {
                match v {
                    Val::Map(es) => entries(es.iter().map(|(k, v)| (k.clone(), V::held(v))).collect()),
                    v => v.clone(),
                }
            }
            fn key(s: &mut Src) -> Option<String> {
                K::key(s)
            }
        }
    )* };
}
use std::hash::Hash;
maps! { BTreeMap: Ord; HashMap: Eq Hash; }

/// Names that are keys of a map
#[derive(Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Key {
    One,
    #[serde(rename = "two")]
    Two,
    #[serde(alias = "drei")]
    Three,
}
impl Std for Key {
    fn ty() -> Ty {
        let var = |name| Var { name, kind: Kind::Unit };
        Ty::Enum(En::new(["One", "two", "Three", "drei"].map(var).into()))
    }
    fn val(&self) -> Val {
        let n = match self {
            Key::One => "One",
            Key::Two => "two",
            Key::Three => "Three",
        };
        Val::Enum(n, Box::new(Val::Unit))
    }
    fn held(v: &Val) -> Val {
        match v {
            Val::Enum("drei", u) => Val::Enum("Three", u.clone()),
            v => v.clone(),
        }
    }
    fn key(s: &mut Src) -> Option<String> {
        Some(s.pick(&["One", "two", "Three"]).to_string())
    }
}
#[derive(Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[serde(transparent)]
pub struct Name(String);
impl Std for Name {
    fn ty() -> Ty {
        Ty::Newtype(Rc::new(Ty::Str))
    }
    fn val(&self) -> Val {
        Val::Str(self.0.clone())
    }
}

fn fields(fs: &[(&'static str, Ty)]) -> Ty {
    let fs = fs.iter().map(|(name, ty)| Field { name, ty: ty.clone(), default: false });
    Ty::Struct(St::new(fs.collect()))
}
fn held2<A: Std, B: Std>(v: &Val) -> Val {
    match v {
        Val::Struct(v) => Val::Struct(vec![A::held(&v[0]), B::held(&v[1])]),
        v => v.clone(),
    }
}
impl Std for std::time::Duration {
    fn ty() -> Ty {
        fields(&[("secs", Ty::Num(Num::U32)), ("nanos", Ty::Num(Num::U16))])
    }
    fn val(&self) -> Val {
        Val::Struct(vec![Val::Int(self.as_secs() as i128), Val::Int(self.subsec_nanos() as i128)])
    }
}
impl Std for std::time::SystemTime {
    fn ty() -> Ty {
        fields(&[("secs_since_epoch", Ty::Num(Num::U32)), ("nanos_since_epoch", Ty::Num(Num::U16))])
    }
    fn val(&self) -> Val {
        self.duration_since(std::time::UNIX_EPOCH).unwrap().val()
    }
}
impl<T: Std> Std for std::ops::Range<T> {
    fn ty() -> Ty {
        fields(&[("start", T::ty()), ("end", T::ty())])
    }
    fn val(&self) -> Val {
        Val::Struct(vec![self.start.val(), self.end.val()])
    }
    fn held(v: &Val) -> Val {
        held2::<T, T>(v)
    }
}
impl<T: Std> Std for std::ops::RangeInclusive<T> {
    fn ty() -> Ty {
        fields(&[("start", T::ty()), ("end", T::ty())])
    }
    fn val(&self) -> Val {
        Val::Struct(vec![self.start().val(), self.end().val()])
    }
    fn held(v: &Val) -> Val {
        held2::<T, T>(v)
    }
}
impl<T: Std> Std for std::ops::RangeFrom<T> {
    fn ty() -> Ty {
        fields(&[("start", T::ty())])
    }
    fn val(&self) -> Val {
        Val::Struct(vec![self.start.val()])
    }
}
impl<T: Std> Std for std::ops::RangeTo<T> {
    fn ty() -> Ty {
        fields(&[("end", T::ty())])
    }
    fn val(&self) -> Val {
        Val::Struct(vec![self.end.val()])
    }
}
impl<T: Std> Std for Bound<T> {
    fn ty() -> Ty {
        let var = |name, kind| Var { name, kind };
        Ty::Enum(En::new(vec![
            var("Unbounded", Kind::Unit),
            var("Included", Kind::New(T::ty())),
            var("Excluded", Kind::New(T::ty())),
        ]))
    }
    fn val(&self) -> Val {
        match self {
            Bound::Unbounded => Val::Enum("Unbounded", Box::new(Val::Unit)),
            Bound::Included(v) => Val::Enum("Included", Box::new(v.val())),
            Bound::Excluded(v) => Val::Enum("Excluded", Box::new(v.val())),
        }
    }
}
impl<T: Std, E: Std> Std for Result<T, E> {
    fn ty() -> Ty {
        let var = |name, kind| Var { name, kind };
        Ty::Enum(En::new(vec![var("Ok", Kind::New(T::ty())), var("Err", Kind::New(E::ty()))]))
    }
    fn val(&self) -> Val {
        match self {
            Ok(v) => Val::Enum("Ok", Box::new(v.val())),
            Err(v) => Val::Enum("Err", Box::new(v.val())),
        }
    }
}
impl Std for () {
    fn ty() -> Ty {
        Ty::Unit
    }
    fn val(&self) -> Val {
        Val::Unit
    }
}
impl<T> Std for std::marker::PhantomData<T> {
    fn ty() -> Ty {
        Ty::UnitStruct
    }
    fn val(&self) -> Val {
        Val::Unit
    }
}

/// Among others
#[derive(Deserialize)]
struct Field_<T> {
    before: Option<u8>,
    it: T,
    after: String,
}
/// Among others, where none is a series of none
#[derive(Deserialize)]
#[serde(bound = "T: DeserializeOwned + Default")]
struct Series<T> {
    before: Option<u8>,
    #[serde(default)]
    it: T,
    after: String,
}
fn among<T: Std>(default: bool) -> Ty {
    Ty::Struct(St::new(vec![
        Field { name: "before", ty: Ty::Opt(Rc::new(Ty::Num(Num::U8))), default: false },
        Field { name: "it", ty: T::ty(), default },
        Field { name: "after", ty: Ty::Str, default: false },
    ]))
}
fn all(before: &Option<u8>, it: Val, after: &String) -> Val {
    Val::Struct(vec![before.val(), it, after.val()])
}
fn held_among<T: Std>(v: &Val) -> Val {
    match v {
        Val::Struct(v) => Val::Struct(vec![v[0].clone(), T::held(&v[1]), v[2].clone()]),
        v => v.clone(),
    }
}
impl<T: Std> Std for Field_<T> {
    fn ty() -> Ty {
        among::<T>(false)
    }
    fn val(&self) -> Val {
        all(&self.before, self.it.val(), &self.after)
    }
    fn held(v: &Val) -> Val {
        held_among::<T>(v)
    }
    fn key(s: &mut Src) -> Option<String> {
        T::key(s)
    }
}
impl<T: Std + Default> Std for Series<T> {
    fn ty() -> Ty {
        among::<T>(true)
    }
    fn val(&self) -> Val {
        all(&self.before, self.it.val(), &self.after)
    }
    fn held(v: &Val) -> Val {
        held_among::<T>(v)
    }
}

/// Gives the entries of maps keys that their type takes.
fn rekey<T: Std>(s: &mut Src, v: &mut Val) {
    match v {
        Val::Map(es) => {
            let mut seen = vec![];
            es.retain_mut(|(k, _)| {
                if let Some(n) = T::key(s) {
                    *k = n;
                }
                let new = !seen.contains(k);
                seen.push(k.clone());
                new
            });
            es.iter_mut().for_each(|(_, v)| rekey::<T>(s, v));
        }
        Val::Struct(v) | Val::Seq(v) => v.iter_mut().for_each(|v| rekey::<T>(s, v)),
        Val::Some(v) => rekey::<T>(s, v),
        _ => {}
    }
}

fn target<T: Std>(s: &mut Src, cx: &mut Ctx) -> R {
    let ty = T::ty();
    let mut val = value(s, &ty);
    rekey::<T>(s, &mut val);
    let Some(el) = document(s, &ty, &val) else { return Err(Stop::Discard) };
    let st = Style::any(s);
    let src = write(s, &el, &st);
    let cfg = cfg_for(s, &st);
    let name = std::any::type_name::<T>();
    cx.case(&(&src, name), || format!("{name}\n{}", show(&ty, &val, &src)));
    cx.nontrivial = true;
    let got = sgmlish::from_fragment::<T>(parse(&cfg, &src)?);
    same(&ty, &T::held(&val), got.map(|v| v.val()), &src)
}

type Check = fn(&mut Src, &mut Ctx) -> R;

pub fn c16_std(s: &mut Src, cx: &mut Ctx) -> R {
    use std::ops::*;
    use std::time::*;
    const T: [Check; 22] = [
        target::<Duration>,
        target::<Field_<Duration>>,
        target::<Field_<Vec<Duration>>>,
        target::<Field_<SystemTime>>,
        target::<Field_<Range<i8>>>,
        target::<Range<String>>,
        target::<Field_<RangeInclusive<char>>>,
        target::<Field_<Option<RangeFrom<u16>>>>,
        target::<Field_<RangeTo<i64>>>,
        target::<Field_<Bound<u8>>>,
        target::<Field_<Vec<Bound<String>>>>,
        target::<Field_<Result<u16, String>>>,
        target::<Field_<Range<Bound<i8>>>>,
        target::<BTreeMap<String, String>>,
        target::<Field_<BTreeMap<char, u8>>>,
        target::<Field_<HashMap<Key, Option<String>>>>,
        target::<HashMap<Name, Vec<u16>>>,
        target::<Field_<Vec<HashMap<Key, BTreeMap<Key, bool>>>>>,
        target::<Field_<Box<Field_<Box<Option<Box<u8>>>>>>>,
        target::<Field_<()>>,
        target::<Field_<std::marker::PhantomData<u8>>>,
        target::<HashMap<Key, (Box<Range<usize>>,)>>,
    ];
    s.pick(&T)(s, cx)
}
impl<A: Std> Std for (A,) {
    fn ty() -> Ty {
        Ty::Tup(Rc::new(vec![A::ty()]))
    }
    fn val(&self) -> Val {
        Val::Seq(vec![self.0.val()])
    }
}

pub fn c18_std(s: &mut Src, cx: &mut Ctx) -> R {
    const T: [Check; 20] = [
        target::<Series<VecDeque<u16>>>,
        target::<Series<LinkedList<String>>>,
        target::<Series<BTreeSet<u8>>>,
        target::<Series<BTreeSet<String>>>,
        target::<Series<HashSet<char>>>,
        target::<Series<HashSet<Key>>>,
        target::<Series<BinaryHeap<i8>>>,
        target::<Series<Box<[bool]>>>,
        target::<Series<Box<[Box<str>]>>>,
        target::<Field_<[u8; 1]>>,
        target::<Field_<[String; 2]>>,
        target::<Field_<[Key; 5]>>,
        target::<Field_<[i8; 32]>>,
        target::<Series<Vec<[u8; 3]>>>,
        target::<Series<VecDeque<[Key; 2]>>>,
        target::<Series<Vec<Series<VecDeque<Series<BTreeSet<u8>>>>>>>,
        target::<Series<LinkedList<std::ops::Range<u8>>>>,
        target::<Field_<Option<[Option<String>; 2]>>>,
        target::<HashMap<Name, HashSet<u8>>>,
        target::<Field_<HashMap<Key, [bool; 2]>>>,
    ];
    s.pick(&T)(s, cx)
}

// ---------------------------------------------------------------- texts

#[derive(Deserialize)]
struct Content<T> {
    #[serde(rename = "$value")]
    it: T,
}
#[derive(Deserialize)]
struct Wrapped<T>(T);
#[derive(Deserialize)]
enum Variant<T> {
    Other,
    It(T),
}
#[derive(Deserialize)]
struct Many<T> {
    it: Vec<T>,
}

/// Reads the text from any place as a `T`, which is to be what `model` says.
fn text<T: DeserializeOwned>(
    s: &mut Src,
    cx: &mut Ctx,
    t: &str,
    want: Option<String>,
    show: fn(&T) -> String,
) -> R {
    let st = Style::any(s);
    let how = *s.pick(&["root", "element", "attribute", "content", "wrapped", "items", "variant"]);
    let many = s.range(1, 3);
    let el = match how {
        "root" | "content" | "wrapped" => spread(s, "it", t, 2),
        "variant" => spread(s, "It", t, 2),
        "items" => {
            let mut e = El::new("r");
            for _ in 0..many {
                let mut k = spread(s, "it", t, 2);
                k.joined = true;
                e.kids.push(Kid::El(k));
            }
            e
        }
        "element" => {
            let mut e = El::new("r");
            e.kids.push(Kid::El(spread(s, "it", t, 2)));
            e.kids.push(Kid::El(El::text("after", "x".into())));
            e
        }
        _ => {
            let mut e = El::new("r");
            e.attrs.push(("it".into(), Some(t.into())));
            e.attrs.push(("after".into(), Some("x".into())));
            e
        }
    };
    // (their content is text, or else it would be all about the elements)
    if matches!(how, "content" | "variant") && el.kids.iter().any(|k| matches!(k, Kid::El(_))) {
        return Err(Stop::Discard);
    }
    let src = write(s, &el, &st);
    let cfg = cfg_for(s, &st);
    let name = std::any::type_name::<T>();
    cx.case(&(&src, name, how), || format!("{t:?} as {name} ({how}): {want:?}\ndocument {src}"));
    cx.nontrivial_if(!t.is_empty());
    cx.label(how);
    cx.label(if want.is_some() { "accepted" } else { "refused" });
    let f = parse(&cfg, &src)?;
    let got = match how {
        "root" => sgmlish::from_fragment::<T>(f),
        "content" => sgmlish::from_fragment::<Content<T>>(f).map(|x| x.it),
        "variant" => match sgmlish::from_fragment::<Variant<T>>(f) {
            Ok(Variant::It(x)) => Ok(x),
            Ok(Variant::Other) => return fail(format!("another variant is read\ndocument {src}")),
            Err(e) => Err(e),
        },
        "wrapped" => sgmlish::from_fragment::<Wrapped<Option<T>>>(f).map(|x| x.0.unwrap()),
        "items" => match sgmlish::from_fragment::<Many<T>>(f) {
            Ok(mut x) if x.it.len() == many => Ok(x.it.pop().unwrap()),
            Ok(x) => return fail(format!("{} items instead of {many}\ndocument {src}", x.it.len())),
            Err(e) => Err(e),
        },
        _ => match sgmlish::from_fragment::<Field_<T>>(f) {
            Ok(x) if x.after != "x" => {
                return fail(format!("after it {:?} is read\ndocument {src}", x.after))
            }
            x => x.map(|x| x.it),
        },
    };
    match (want, got.map(|x| show(&x))) {
        (Some(a), Ok(b)) if a == b => Ok(()),
        (None, Err(_)) => Ok(()),
        (a, b) => fail(format!("{t:?} is read as {b:?}\nexpected {a:?}\ntype {name} ({how})\ndocument {src}")),
    }
}

fn parsed<T: DeserializeOwned + FromStr + Debug>(s: &mut Src, cx: &mut Ctx, t: &str) -> R {
    let want = t.parse::<T>().ok().map(|x| format!("{x:?}"));
    text::<T>(s, cx, t, want, |x| format!("{x:?}"))
}
/// Where the type shows itself like the number it holds
fn like<T: DeserializeOwned + Debug, N: FromStr, M: Debug>(
    s: &mut Src,
    cx: &mut Ctx,
    t: &str,
    wrap: fn(N) -> Option<M>,
) -> R {
    let want = t.parse::<N>().ok().and_then(wrap).map(|x| format!("{x:?}"));
    text::<T>(s, cx, t, want, |x| format!("{x:?}"))
}

fn address(s: &mut Src) -> String {
    const P: [&str; 24] = [
        "127.0.0.1", "0.0.0.0", "255.255.255.255", "256.0.0.1", "1.2.3", "01.2.3.4", "1.2.3.4.", "::", "::1", "1::",
        "2001:db8::ff00:42:8329", "::ffff:1.2.3.4", "fe80::1%1", ":::", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7", "g::", "",
        "localhost", " ::1", "FFFF::a", "12345::", "1::2::3", "::1.2.3",
    ];
    let port = ["", ":0", ":80", ":65535", ":65536", ":", ":x", ":080"];
    match s.below(6) {
        0 => std::net::Ipv4Addr::from(s.bits() as u32).to_string(),
        1 => std::net::Ipv6Addr::from((s.bits() as u128) << 64 | s.bits() as u128).to_string(),
        2 => format!("{}{}", s.pick(&P), s.pick(&port)),
        3 => format!("[{}]{}", s.pick(&P), s.pick(&port)),
        4 => s.pick(&P).to_string(),
        _ => number_soup(s),
    }
}

pub fn c17_std(s: &mut Src, cx: &mut Ctx) -> R {
    use std::net::*;
    use std::sync::atomic::*;
    let cx = &mut *cx;
    if s.one_in(3) {
        let t = address(s);
        return match s.below(6) {
            0 => parsed::<IpAddr>(s, cx, &t),
            1 => parsed::<Ipv4Addr>(s, cx, &t),
            2 => parsed::<Ipv6Addr>(s, cx, &t),
            3 => parsed::<SocketAddr>(s, cx, &t),
            4 => parsed::<SocketAddrV4>(s, cx, &t),
            _ => parsed::<SocketAddrV6>(s, cx, &t),
        };
    }
    let t = if s.one_in(6) { gen::any_char(s).to_string() } else { number_soup(s) };
    let t = &*t;
    match s.below(26) {
        0 => like::<NonZeroU8, u8, _>(s, cx, t, NonZeroU8::new),
        1 => like::<NonZeroI16, i16, _>(s, cx, t, NonZeroI16::new),
        2 => like::<NonZeroU32, u32, _>(s, cx, t, NonZeroU32::new),
        3 => like::<NonZeroI64, i64, _>(s, cx, t, NonZeroI64::new),
        4 => like::<NonZeroUsize, usize, _>(s, cx, t, NonZeroUsize::new),
        5 => like::<Wrapping<i8>, i8, _>(s, cx, t, |n| Some(Wrapping(n))),
        6 => like::<Wrapping<u64>, u64, _>(s, cx, t, |n| Some(Wrapping(n))),
        7 => {
            like::<std::cmp::Reverse<u8>, u8, _>(s, cx, t, |n| Some(std::cmp::Reverse(n)))
        }
        8 => like::<AtomicU16, u16, _>(s, cx, t, Some),
        9 => like::<AtomicI32, i32, _>(s, cx, t, Some),
        10 => like::<AtomicU64, u64, _>(s, cx, t, Some),
        11 => like::<AtomicUsize, usize, _>(s, cx, t, Some),
        12 => parsed::<usize>(s, cx, t),
        13 => parsed::<isize>(s, cx, t),
        14 => like::<std::cell::Cell<i16>, i16, _>(s, cx, t, |n| Some(std::cell::Cell::new(n))),
        15 => like::<std::cell::RefCell<u32>, u32, _>(s, cx, t, |n| Some(std::cell::RefCell::new(n))),
        16 => like::<std::sync::Mutex<f32>, f32, _>(s, cx, t, |n| Some(std::sync::Mutex::new(n))),
        17 => like::<std::sync::RwLock<f64>, f64, _>(s, cx, t, |n| Some(std::sync::RwLock::new(n))),
        18 => parsed::<std::path::PathBuf>(s, cx, t),
        19 => text::<Box<std::path::Path>>(s, cx, t, Some(t.into()), |p| p.to_str().unwrap().into()),
        20 => text::<Box<str>>(s, cx, t, Some(t.into()), |p| p.to_string()),
        21 => text::<std::borrow::Cow<'static, str>>(s, cx, t, Some(t.into()), |p| p.to_string()),
        22 => text::<std::ffi::CString>(s, cx, t, std::ffi::CString::new(t).ok().map(|c| format!("{c:?}")), |p| {
            format!("{p:?}")
        }),
        23 => parsed::<char>(s, cx, t),
        24 => parsed::<String>(s, cx, t),
        _ => like::<Wrapping<f64>, f64, _>(s, cx, t, |n| Some(Wrapping(n))),
    }
}
