//! Types described at run time, their values, and the documents that hold them.
//!
//! `Seed` follows what serde's derived implementations do (defaults, duplicate and missing
//! fields, unknown fields and variants), so a `Ty` stands for a type a user could have declared.

use crate::doc::{self, Attr, Item};
use crate::engine::Src;
use crate::gen;
use crate::refimpl;
use serde::de::{self, DeserializeSeed, Deserializer, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::Deserialize;
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::fmt;
use std::rc::Rc;

// ---------------------------------------------------------------- types

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Num {
    I8,
    I16,
    I32,
    I64,
    U8,
    U16,
    U32,
    U64,
    F32,
    F64,
}
pub const NUMS: [Num; 10] = [
    Num::I32,
    Num::U8,
    Num::I8,
    Num::U64,
    Num::F64,
    Num::I64,
    Num::U32,
    Num::I16,
    Num::U16,
    Num::F32,
];

#[derive(Clone, Debug, PartialEq, Hash)]
pub enum Ty {
    Bool,
    Num(Num),
    Str,
    Char,
    Bytes,
    Unit,
    UnitStruct,
    Opt(Rc<Ty>),
    Newtype(Rc<Ty>),
    Seq(Rc<Ty>),
    Tup(Rc<Vec<Ty>>),
    TupStruct(Rc<Vec<Ty>>),
    Struct(Rc<St>),
    Map(Rc<Ty>),
    Enum(Rc<En>),
    /// Does not say what it is: takes what the document has
    Any,
    /// Asks for arbitrary things, as the thread's plan says
    Chaos,
    /// Is `Val::Failed` where the type cannot be read
    Try(Rc<Ty>),
}

#[derive(Clone, PartialEq, Hash)]
pub struct St {
    pub fields: Vec<Field>,
    names: Vec<&'static str>,
}
#[derive(Clone, Debug, PartialEq, Hash)]
pub struct Field {
    pub name: &'static str,
    pub ty: Ty,
    pub default: bool,
}
#[derive(Clone, PartialEq, Hash)]
pub struct En {
    pub vars: Vec<Var>,
    names: Vec<&'static str>,
}
#[derive(Clone, Debug, PartialEq, Hash)]
pub struct Var {
    pub name: &'static str,
    pub kind: Kind,
}
#[derive(Clone, Debug, PartialEq, Hash)]
pub enum Kind {
    Unit,
    New(Ty),
    Tup(Vec<Ty>),
    Struct(Rc<St>),
}
impl fmt::Debug for St {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("{")?;
        for x in &self.fields {
            write!(f, " {:?}{}: {:?},", x.name, if x.default { "?" } else { "" }, x.ty)?;
        }
        f.write_str(" }")
    }
}
impl fmt::Debug for En {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for x in &self.vars {
            write!(f, "|{:?}: {:?}", x.name, x.kind)?;
        }
        Ok(())
    }
}

pub fn intern(n: &str) -> &'static str {
    thread_local!(static NAMES: RefCell<HashSet<&'static str>> = RefCell::new(HashSet::new()));
    NAMES.with(|m| {
        let mut m = m.borrow_mut();
        match m.get(n) {
            Some(x) => x,
            None => {
                let x: &'static str = Box::leak(n.to_owned().into_boxed_str());
                m.insert(x);
                x
            }
        }
    })
}

impl St {
    pub fn new(fields: Vec<Field>) -> Rc<St> {
        let names = fields.iter().map(|f| f.name).collect();
        Rc::new(St { fields, names })
    }
    pub fn has_value(&self) -> bool {
        self.names.contains(&"$value")
    }
    pub fn field(&self, name: &str) -> Option<&Field> {
        self.fields.iter().find(|f| f.name == name)
    }
}
impl En {
    pub fn new(vars: Vec<Var>) -> Rc<En> {
        let names = vars.iter().map(|f| f.name).collect();
        Rc::new(En { vars, names })
    }
}

// ---------------------------------------------------------------- values

#[derive(Clone, PartialEq)]
pub enum Val {
    Unit,
    Bool(bool),
    Int(i128),
    F32(u32),
    F64(u64),
    Str(String),
    Char(char),
    None,
    Some(Box<Val>),
    Seq(Vec<Val>),
    /// Entries in document order
    Map(Vec<(String, Val)>),
    /// Values in the order of the type's fields
    Struct(Vec<Val>),
    Enum(&'static str, Box<Val>),
    /// Text in place of a scalar
    Raw(String),
    Failed,
}

impl fmt::Debug for Val {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Val::Unit => f.write_str("()"),
            Val::Bool(b) => write!(f, "{b}"),
            Val::Int(n) => write!(f, "{n}"),
            Val::F32(b) => write!(f, "{:?}f32", f32::from_bits(*b)),
            Val::F64(b) => write!(f, "{:?}f64", f64::from_bits(*b)),
            Val::Str(s) => write!(f, "{s:?}"),
            Val::Char(c) => write!(f, "{c:?}"),
            Val::None => f.write_str("None"),
            Val::Some(v) => write!(f, "Some({v:?})"),
            Val::Seq(v) => write!(f, "{v:?}"),
            Val::Map(v) => f.debug_map().entries(v.iter().map(|(k, v)| (k, v))).finish(),
            Val::Struct(v) => f.debug_tuple("S").field(v).finish(),
            Val::Enum(n, v) => write!(f, "{n}({v:?})"),
            Val::Raw(t) => write!(f, "<{t:?}>"),
            Val::Failed => f.write_str("Failed"),
        }
    }
}

/// Runs on every scalar and enum of a value.
pub fn each_leaf(ty: &Ty, v: &mut Val, f: &mut dyn FnMut(&Ty, &mut Val)) {
    match (ty, v) {
        (Ty::Bool | Ty::Num(_) | Ty::Str | Ty::Char | Ty::Bytes, v) => f(ty, v),
        (Ty::Opt(t), Val::Some(v)) => each_leaf(t, v, f),
        (Ty::Newtype(t), v) => each_leaf(t, v, f),
        (Ty::Seq(t), Val::Seq(vs)) => vs.iter_mut().for_each(|v| each_leaf(t, v, f)),
        (Ty::Tup(t) | Ty::TupStruct(t), Val::Seq(vs)) => {
            t.iter().zip(vs).for_each(|(t, v)| each_leaf(t, v, f));
        }
        (Ty::Struct(st), Val::Struct(vs)) => {
            st.fields.iter().zip(vs).for_each(|(x, v)| each_leaf(&x.ty, v, f));
        }
        (Ty::Map(t), Val::Map(es)) => es.iter_mut().for_each(|(_, v)| each_leaf(t, v, f)),
        (Ty::Enum(en), v) => {
            f(ty, v);
            let Val::Enum(n, data) = v else { return };
            match en.vars.iter().find(|x| x.name == *n).map(|x| &x.kind) {
                Some(Kind::New(t)) => each_leaf(t, data, f),
                Some(Kind::Tup(t)) => match &mut **data {
                    Val::Seq(vs) => t.iter().zip(vs).for_each(|(t, v)| each_leaf(t, v, f)),
                    _ => {}
                },
                Some(Kind::Struct(st)) => match &mut **data {
                    Val::Struct(vs) => {
                        st.fields.iter().zip(vs).for_each(|(x, v)| each_leaf(&x.ty, v, f));
                    }
                    _ => {}
                },
                _ => {}
            }
        }
        _ => {}
    }
}

fn default_val(ty: &Ty) -> Val {
    match ty {
        Ty::Bool => Val::Bool(false),
        Ty::Num(Num::F32) => Val::F32(0),
        Ty::Num(Num::F64) => Val::F64(0),
        Ty::Num(_) => Val::Int(0),
        Ty::Str | Ty::Bytes => Val::Str(String::new()),
        Ty::Char => Val::Char('\0'),
        Ty::Opt(_) => Val::None,
        Ty::Seq(_) => Val::Seq(vec![]),
        Ty::Map(_) => Val::Map(vec![]),
        Ty::Try(t) => default_val(t),
        _ => Val::Unit,
    }
}

fn is_series(ty: &Ty) -> bool {
    match ty {
        Ty::Opt(t) | Ty::Newtype(t) | Ty::Try(t) => is_series(t),
        Ty::Seq(_) | Ty::Tup(_) | Ty::TupStruct(_) => true,
        Ty::Enum(en) => en.vars.iter().any(|v| matches!(v.kind, Kind::Tup(_))),
        _ => false,
    }
}

/// The type with some of its parts allowed to fail. Where a part is a series of elements, there is
/// no telling how much of it belongs to the failure.
pub fn lenient(s: &mut Src, ty: &Ty) -> Ty {
    fn all(s: &mut Src, t: &[Ty]) -> Vec<Ty> {
        t.iter().map(|t| lenient(s, t)).collect()
    }
    fn st(s: &mut Src, st: &St) -> Rc<St> {
        let field = |f: &Field| Field { name: f.name, ty: lenient(s, &f.ty), default: f.default };
        St::new(st.fields.iter().map(field).collect())
    }
    let t = match ty {
        // (an option that is absent must still be seen to be one)
        Ty::Opt(t) => return Ty::Opt(Rc::new(lenient(s, t))),
        Ty::Newtype(t) => Ty::Newtype(Rc::new(lenient(s, t))),
        Ty::Seq(t) => Ty::Seq(Rc::new(lenient(s, t))),
        Ty::Tup(t) => Ty::Tup(Rc::new(all(s, t))),
        Ty::TupStruct(t) => Ty::TupStruct(Rc::new(all(s, t))),
        Ty::Struct(x) => Ty::Struct(st(s, x)),
        Ty::Map(t) => Ty::Map(Rc::new(lenient(s, t))),
        Ty::Enum(en) => {
            let var = |v: &Var| {
                let kind = match &v.kind {
                    Kind::Unit => Kind::Unit,
                    Kind::New(t) => Kind::New(lenient(s, t)),
                    Kind::Tup(t) => Kind::Tup(all(s, t)),
                    Kind::Struct(x) => Kind::Struct(st(s, x)),
                };
                Var { name: v.name, kind }
            };
            Ty::Enum(En::new(en.vars.iter().map(var).collect()))
        }
        t => t.clone(),
    };
    if !is_series(&t) && s.one_in(3) {
        Ty::Try(Rc::new(t))
    } else {
        t
    }
}

/// What is read where texts that are none of the type are to fail.
pub fn with_failures(ty: &Ty, v: &Val) -> Option<Val> {
    fn st(st: &St, vs: &[Val]) -> Option<Val> {
        let vs = st.fields.iter().zip(vs).map(|(f, v)| with_failures(&f.ty, v));
        Some(Val::Struct(vs.collect::<Option<_>>()?))
    }
    fn all(t: &[Ty], vs: &[Val]) -> Option<Val> {
        Some(Val::Seq(t.iter().zip(vs).map(|(t, v)| with_failures(t, v)).collect::<Option<_>>()?))
    }
    Some(match (ty, v) {
        (_, Val::Raw(_)) if !matches!(ty, Ty::Try(_) | Ty::Newtype(_)) => return None,
        (Ty::Try(t), v) => with_failures(t, v).unwrap_or(Val::Failed),
        (Ty::Newtype(t), v) => with_failures(t, v)?,
        (Ty::Opt(t), Val::Some(v)) => Val::Some(Box::new(with_failures(t, v)?)),
        (Ty::Seq(t), Val::Seq(vs)) => {
            Val::Seq(vs.iter().map(|v| with_failures(t, v)).collect::<Option<_>>()?)
        }
        (Ty::Tup(t) | Ty::TupStruct(t), Val::Seq(vs)) => all(t, vs)?,
        (Ty::Struct(x), Val::Struct(vs)) => st(x, vs)?,
        (Ty::Map(t), Val::Map(es)) => {
            let es = es.iter().map(|(k, v)| Some((k.clone(), with_failures(t, v)?)));
            Val::Map(es.collect::<Option<_>>()?)
        }
        (Ty::Enum(en), Val::Enum(n, data)) => {
            let data = match (&en.vars.iter().find(|x| x.name == *n)?.kind, &**data) {
                (Kind::New(t), v) => with_failures(t, v)?,
                (Kind::Tup(t), Val::Seq(vs)) => all(t, vs)?,
                (Kind::Struct(x), Val::Struct(vs)) => st(x, vs)?,
                (_, v) => v.clone(),
            };
            Val::Enum(n, Box::new(data))
        }
        (_, v) => v.clone(),
    })
}

/// How many parts have failed; nothing if the rest is not the same.
pub fn failures(ty: &Ty, want: &Val, got: &Val) -> Option<u32> {
    fn all<'a>(i: impl Iterator<Item = (&'a Ty, (&'a Val, &'a Val))>) -> Option<u32> {
        i.map(|(t, (a, b))| failures(t, a, b)).sum()
    }
    Some(match (ty, want, got) {
        (Ty::Try(_), _, Val::Failed) => 1,
        (Ty::Try(t) | Ty::Newtype(t), a, b) => failures(t, a, b)?,
        (Ty::Opt(t), Val::Some(a), Val::Some(b)) => failures(t, a, b)?,
        (Ty::Seq(t), Val::Seq(a), Val::Seq(b)) if a.len() == b.len() => {
            all(a.iter().zip(b).map(|x| (&**t, x)))?
        }
        (Ty::Tup(t) | Ty::TupStruct(t), Val::Seq(a), Val::Seq(b)) if a.len() == b.len() => {
            all(t.iter().zip(a.iter().zip(b)))?
        }
        (Ty::Struct(st), Val::Struct(a), Val::Struct(b)) => {
            all(st.fields.iter().map(|f| &f.ty).zip(a.iter().zip(b)))?
        }
        (Ty::Map(t), Val::Map(a), Val::Map(b)) => {
            if !a.iter().map(|x| &x.0).eq(b.iter().map(|x| &x.0)) {
                return None;
            }
            all(a.iter().zip(b).map(|(a, b)| (&**t, (&a.1, &b.1))))?
        }
        (Ty::Enum(en), Val::Enum(m, a), Val::Enum(n, b)) if m == n => {
            match (&en.vars.iter().find(|x| x.name == *n)?.kind, &**a, &**b) {
                (Kind::New(t), a, b) => failures(t, a, b)?,
                (Kind::Tup(t), Val::Seq(a), Val::Seq(b)) => all(t.iter().zip(a.iter().zip(b)))?,
                (Kind::Struct(st), Val::Struct(a), Val::Struct(b)) => {
                    all(st.fields.iter().map(|f| &f.ty).zip(a.iter().zip(b)))?
                }
                (_, a, b) => return (a == b).then_some(0),
            }
        }
        (_, a, b) => return (a == b).then_some(0),
    })
}

pub fn parse_num(n: Num, t: &str) -> Option<Val> {
    Some(match n {
        Num::I8 => Val::Int(t.parse::<i8>().ok()? as i128),
        Num::I16 => Val::Int(t.parse::<i16>().ok()? as i128),
        Num::I32 => Val::Int(t.parse::<i32>().ok()? as i128),
        Num::I64 => Val::Int(t.parse::<i64>().ok()? as i128),
        Num::U8 => Val::Int(t.parse::<u8>().ok()? as i128),
        Num::U16 => Val::Int(t.parse::<u16>().ok()? as i128),
        Num::U32 => Val::Int(t.parse::<u32>().ok()? as i128),
        Num::U64 => Val::Int(t.parse::<u64>().ok()? as i128),
        Num::F32 => Val::F32(t.parse::<f32>().ok()?.to_bits()),
        Num::F64 => Val::F64(t.parse::<f64>().ok()?.to_bits()),
    })
}

// ---------------------------------------------------------------- deserialization

thread_local! {
    static STRICT: Cell<bool> = Cell::new(false);
    static ROOT: RefCell<Ty> = RefCell::new(Ty::Unit);
    /// Map entries, sequence items and variants handed out
    pub static ENTRIES: Cell<u64> = Cell::new(0);
    pub static FUEL: Cell<u64> = Cell::new(u64::MAX);
    static PLAN: RefCell<(Vec<u64>, usize)> = RefCell::new((vec![], 0));
    /// A text that `Ty::Str` does not take
    pub static REFUSED: RefCell<String> = RefCell::new(String::new());
    static DEPTH: Cell<u32> = Cell::new(0);
    /// After how many more steps a target finds fault itself
    pub static FAULT: Cell<u64> = Cell::new(u64::MAX);
    /// The variant, if that is an enum that has seen no more than its name
    pub static EARLY: Cell<&'static str> = Cell::new("");
    /// Whether arbitrary requests may get over errors
    pub static EASY: Cell<bool> = Cell::new(false);
}

pub const OUT_OF_FUEL: &str = "harness: out of fuel";

fn entry<E: de::Error>() -> Result<(), E> {
    let n = ENTRIES.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    if n > FUEL.with(|f| f.get()) {
        return Err(E::custom(OUT_OF_FUEL));
    }
    step()
}

fn step<E: de::Error>() -> Result<(), E> {
    match FAULT.with(|f| f.replace(f.get().saturating_sub(1))) {
        u64::MAX => FAULT.with(|f| f.set(u64::MAX)),
        0 => {
            FAULT.with(|f| f.set(u64::MAX));
            return Err(E::custom("harness: fault"));
        }
        _ => {}
    }
    Ok(())
}

pub fn set_plan(p: Vec<u64>) {
    PLAN.with(|x| *x.borrow_mut() = (p, 0));
}
fn plan(n: u64) -> u64 {
    PLAN.with(|x| {
        let mut x = x.borrow_mut();
        let i = x.1;
        x.1 += 1;
        x.0.get(i).map_or(0, |v| v % n)
    })
}

struct DynRoot(Val);
impl<'de> Deserialize<'de> for DynRoot {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let ty = ROOT.with(|r| r.borrow().clone());
        Seed(&ty).deserialize(d).map(DynRoot)
    }
}

pub fn from_fragment(ty: &Ty, f: sgmlish::SgmlFragment) -> Result<Val, sgmlish::de::DeserializationError> {
    ROOT.with(|r| *r.borrow_mut() = ty.clone());
    DEPTH.with(|d| d.set(0));
    ENTRIES.with(|d| d.set(0));
    sgmlish::from_fragment::<DynRoot>(f).map(|v| v.0)
}

/// Unknown fields are errors in it
pub fn strictly<T>(f: impl FnOnce() -> T) -> T {
    STRICT.with(|x| x.set(true));
    let r = f();
    STRICT.with(|x| x.set(false));
    r
}

pub struct Seed<'t>(pub &'t Ty);

/// The deserializer only looks at these during the call, in which the type stays alive.
pub fn forever(l: &[&'static str]) -> &'static [&'static str] {
    unsafe { &*(l as *const [&'static str]) }
}

impl<'de, 't> DeserializeSeed<'de> for Seed<'t> {
    type Value = Val;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        Ok(match self.0 {
            Ty::Bool => Val::Bool(bool::deserialize(d)?),
            Ty::Num(n) => match n {
                Num::I8 => Val::Int(i8::deserialize(d)? as i128),
                Num::I16 => Val::Int(i16::deserialize(d)? as i128),
                Num::I32 => Val::Int(i32::deserialize(d)? as i128),
                Num::I64 => Val::Int(i64::deserialize(d)? as i128),
                Num::U8 => Val::Int(u8::deserialize(d)? as i128),
                Num::U16 => Val::Int(u16::deserialize(d)? as i128),
                Num::U32 => Val::Int(u32::deserialize(d)? as i128),
                Num::U64 => Val::Int(u64::deserialize(d)? as i128),
                Num::F32 => Val::F32(f32::deserialize(d)?.to_bits()),
                Num::F64 => Val::F64(f64::deserialize(d)?.to_bits()),
            },
            Ty::Str => {
                let t = String::deserialize(d)?;
                if REFUSED.with(|r| !r.borrow().is_empty() && *r.borrow() == t) {
                    return Err(de::Error::custom(format_args!("refused: {t}")));
                }
                Val::Str(t)
            }
            Ty::Char => Val::Char(char::deserialize(d)?),
            Ty::Bytes => {
                struct V;
                impl<'de> Visitor<'de> for V {
                    type Value = Val;
                    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                        f.write_str("bytes")
                    }
                    fn visit_str<E: de::Error>(self, v: &str) -> Result<Val, E> {
                        Ok(Val::Str(v.to_owned()))
                    }
                    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Val, E> {
                        String::from_utf8(v.to_vec()).map(Val::Str).map_err(E::custom)
                    }
                }
                d.deserialize_byte_buf(V)?
            }
            Ty::Unit => {
                <()>::deserialize(d)?;
                Val::Unit
            }
            Ty::UnitStruct => {
                #[derive(Deserialize)]
                struct Nothing;
                Nothing::deserialize(d)?;
                Val::Unit
            }
            Ty::Opt(t) => d.deserialize_option(OptV(t))?,
            Ty::Newtype(t) => d.deserialize_newtype_struct("Newtype", NewV(t))?,
            Ty::Seq(t) => d.deserialize_seq(SeqV(t))?,
            Ty::Tup(t) => d.deserialize_tuple(t.len(), TupV(t))?,
            Ty::TupStruct(t) => d.deserialize_tuple_struct("Tuple", t.len(), TupV(t))?,
            Ty::Struct(st) => d.deserialize_struct("Struct", forever(&st.names), StV(st))?,
            Ty::Map(t) => d.deserialize_map(MapV(t))?,
            Ty::Enum(en) => d.deserialize_enum("Enum", forever(&en.names), EnV(en))?,
            Ty::Any => d.deserialize_any(AnyV)?,
            Ty::Chaos => chaos(d)?,
            Ty::Try(t) => Seed(t).deserialize(d).unwrap_or(Val::Failed),
        })
    }
}

struct OptV<'t>(&'t Ty);
impl<'de, 't> Visitor<'de> for OptV<'t> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("option")
    }
    fn visit_none<E>(self) -> Result<Val, E> {
        Ok(Val::None)
    }
    fn visit_unit<E>(self) -> Result<Val, E> {
        Ok(Val::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        Ok(Val::Some(Box::new(Seed(self.0).deserialize(d)?)))
    }
}

struct NewV<'t>(&'t Ty);
impl<'de, 't> Visitor<'de> for NewV<'t> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("newtype struct")
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        Seed(self.0).deserialize(d)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match a.next_element_seed(Seed(self.0))? {
            Some(v) => Ok(v),
            None => Err(de::Error::invalid_length(0, &"newtype struct")),
        }
    }
}

struct SeqV<'t>(&'t Ty);
impl<'de, 't> Visitor<'de> for SeqV<'t> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("sequence")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut out = vec![];
        while let Some(v) = a.next_element_seed(Seed(self.0))? {
            entry()?;
            out.push(v);
        }
        step()?;
        Ok(Val::Seq(out))
    }
}

struct TupV<'t>(&'t [Ty]);
impl<'de, 't> Visitor<'de> for TupV<'t> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("tuple")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut out = vec![];
        for t in self.0 {
            match a.next_element_seed(Seed(t))? {
                Some(v) => out.push(v),
                None => return Err(de::Error::invalid_length(out.len(), &self)),
            }
            entry()?;
        }
        Ok(Val::Seq(out))
    }
}

/// A tree of whatever the document has.
struct AnyV;
impl<'de> Visitor<'de> for AnyV {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<E>(self, v: bool) -> Result<Val, E> {
        Ok(Val::Bool(v))
    }
    fn visit_i64<E>(self, v: i64) -> Result<Val, E> {
        Ok(Val::Int(v as i128))
    }
    fn visit_u64<E>(self, v: u64) -> Result<Val, E> {
        Ok(Val::Int(v as i128))
    }
    fn visit_f64<E>(self, v: f64) -> Result<Val, E> {
        Ok(Val::F64(v.to_bits()))
    }
    fn visit_char<E>(self, v: char) -> Result<Val, E> {
        Ok(Val::Char(v))
    }
    fn visit_str<E>(self, v: &str) -> Result<Val, E> {
        Ok(Val::Str(v.to_owned()))
    }
    fn visit_unit<E>(self) -> Result<Val, E> {
        Ok(Val::Unit)
    }
    fn visit_none<E>(self) -> Result<Val, E> {
        Ok(Val::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        d.deserialize_any(AnyV).map(|v| Val::Some(Box::new(v)))
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        d.deserialize_any(AnyV)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut out = vec![];
        while let Some(v) = a.next_element_seed(Seed(&Ty::Any))? {
            entry()?;
            out.push(v);
        }
        Ok(Val::Seq(out))
    }
    fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        MapV(&Ty::Any).visit_map(a)
    }
}

struct MapV<'t>(&'t Ty);
impl<'de, 't> Visitor<'de> for MapV<'t> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("map")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut out = vec![];
        while let Some(k) = a.next_key::<String>()? {
            entry()?;
            out.push((k, a.next_value_seed(Seed(self.0))?));
        }
        step()?;
        Ok(Val::Map(out))
    }
}

struct Ident;
impl<'de> DeserializeSeed<'de> for Ident {
    type Value = String;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for Ident {
    type Value = String;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("identifier")
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<String, E> {
        step()?;
        Ok(v.to_owned())
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<String, E> {
        Ok(String::from_utf8_lossy(v).into_owned())
    }
}

/// Like that of a derived enum, it knows the variants.
struct VarName<'t>(&'t En);
impl<'de, 't> DeserializeSeed<'de> for VarName<'t> {
    type Value = &'t Var;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<&'t Var, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de, 't> Visitor<'de> for VarName<'t> {
    type Value = &'t Var;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("variant identifier")
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<&'t Var, E> {
        if let Err(e) = step() {
            EARLY.with(|x| x.set(intern(v)));
            return Err(e);
        }
        match self.0.vars.iter().find(|x| x.name == v) {
            Some(x) => Ok(x),
            None => Err(de::Error::unknown_variant(v, forever(&self.0.names))),
        }
    }
}

struct StV<'t>(&'t St);
impl<'de, 't> Visitor<'de> for StV<'t> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("struct")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut out = vec![];
        for f in &self.0.fields {
            match a.next_element_seed(Seed(&f.ty))? {
                Some(v) => out.push(v),
                None if f.default => out.push(default_val(&f.ty)),
                None => return Err(de::Error::invalid_length(out.len(), &self)),
            }
            entry()?;
        }
        Ok(Val::Struct(out))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let fs = &self.0.fields;
        let mut got: Vec<Option<Val>> = fs.iter().map(|_| None).collect();
        while let Some(k) = a.next_key_seed(Ident)? {
            entry()?;
            match fs.iter().position(|f| f.name == k) {
                Some(i) => {
                    if got[i].is_some() {
                        return Err(de::Error::duplicate_field(fs[i].name));
                    }
                    got[i] = Some(a.next_value_seed(Seed(&fs[i].ty))?);
                }
                None if STRICT.with(|x| x.get()) => {
                    return Err(de::Error::unknown_field(&k, forever(&self.0.names)));
                }
                None => {
                    a.next_value::<IgnoredAny>()?;
                }
            }
        }
        step()?;
        let mut out = vec![];
        for (f, v) in fs.iter().zip(got) {
            out.push(match v {
                Some(v) => v,
                None if f.default => default_val(&f.ty),
                None if matches!(f.ty, Ty::Opt(_)) => Val::None,
                None => return Err(de::Error::missing_field(f.name)),
            });
        }
        Ok(Val::Struct(out))
    }
}

struct EnV<'t>(&'t En);
impl<'de, 't> Visitor<'de> for EnV<'t> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("enum")
    }
    fn visit_enum<A: de::EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        let (v, a) = a.variant_seed(VarName(self.0))?;
        if let Err(e) = entry() {
            EARLY.with(|x| x.set(v.name));
            return Err(e);
        }
        let data = match &v.kind {
            Kind::Unit => {
                a.unit_variant()?;
                Val::Unit
            }
            Kind::New(t) => a.newtype_variant_seed(Seed(t))?,
            Kind::Tup(t) => a.tuple_variant(t.len(), TupV(t))?,
            Kind::Struct(st) => a.struct_variant(forever(&st.names), StV(st))?,
        };
        step()?;
        Ok(Val::Enum(v.name, Box::new(data)))
    }
}

// ---------------------------------------------------------------- arbitrary requests

struct ChaosSeed;
impl<'de> DeserializeSeed<'de> for ChaosSeed {
    type Value = Val;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        chaos(d)
    }
}
struct ChaosV;

const NAMES: &[&str] = &["a", "b", "item", "$value", "Unit"];
const NO_VALUE: &[&str] = &["a", "b", "item", "x"];

fn chaos<'de, D: Deserializer<'de>>(d: D) -> Result<Val, D::Error> {
    let depth = DEPTH.with(|x| {
        x.set(x.get() + 1);
        x.get()
    });
    let r = if depth > 60 {
        IgnoredAny::deserialize(d).map(|_| Val::Unit)
    } else {
        match plan(30) {
            0 => IgnoredAny::deserialize(d).map(|_| Val::Unit),
            1 | 2 => d.deserialize_any(ChaosV),
            3 => d.deserialize_bool(ChaosV),
            4 => d.deserialize_i64(ChaosV),
            5 => d.deserialize_u8(ChaosV),
            6 => d.deserialize_f64(ChaosV),
            7 => d.deserialize_char(ChaosV),
            8 => d.deserialize_str(ChaosV),
            9 => d.deserialize_string(ChaosV),
            10 => d.deserialize_bytes(ChaosV),
            11 => d.deserialize_byte_buf(ChaosV),
            12 => d.deserialize_option(ChaosV),
            13 => d.deserialize_unit(ChaosV),
            14 => d.deserialize_unit_struct("U", ChaosV),
            15 => d.deserialize_newtype_struct("N", ChaosV),
            16 | 17 => d.deserialize_seq(ChaosV),
            18 => d.deserialize_tuple(plan(4) as usize, ChaosV),
            19 => d.deserialize_tuple_struct("T", plan(4) as usize, ChaosV),
            20 | 21 => d.deserialize_map(ChaosV),
            22 | 23 => d.deserialize_struct("S", NO_VALUE, ChaosV),
            24 | 25 => d.deserialize_struct("S", NAMES, ChaosV),
            26 | 27 => d.deserialize_enum("E", NO_VALUE, ChaosV),
            28 => d.deserialize_identifier(ChaosV),
            _ => d.deserialize_i128(ChaosV),
        }
    };
    DEPTH.with(|x| x.set(x.get() - 1));
    over(r, Val::Unit)
}

/// Goes on in spite of an error, now and then (and never when the plan is at its end)
fn over<T, E>(r: Result<T, E>, instead: T) -> Result<T, E> {
    match r {
        Err(_) if EASY.with(|e| e.get()) && plan(3) == 1 => Ok(instead),
        r => r,
    }
}

macro_rules! accept {
    ($($f:ident $t:ty),*) => { $(fn $f<E>(self, _: $t) -> Result<Val, E> { Ok(Val::Unit) })* };
}

impl<'de> Visitor<'de> for ChaosV {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    accept!(visit_bool bool, visit_i64 i64, visit_u64 u64, visit_f64 f64, visit_str &str, visit_bytes &[u8]);
    fn visit_unit<E>(self) -> Result<Val, E> {
        Ok(Val::Unit)
    }
    fn visit_none<E>(self) -> Result<Val, E> {
        Ok(Val::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        chaos(d)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        chaos(d)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        // All of them, or up to some number
        let stop = match plan(4) {
            0 | 1 => u64::MAX,
            _ => plan(5),
        };
        let mut n = 0;
        while n < stop {
            if over(a.next_element_seed(ChaosSeed), Some(Val::Unit))?.is_none() {
                break;
            }
            entry()?;
            n += 1;
        }
        Ok(Val::Unit)
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let stop = match plan(4) {
            0 | 1 => u64::MAX,
            _ => plan(5),
        };
        let mut n = 0;
        while n < stop {
            match a.next_key_seed(Ident) {
                Ok(None) => break,
                Ok(Some(_)) => {
                    entry()?;
                    let r = a.next_value_seed(ChaosSeed).map(|_| ());
                    over(r, ())?;
                }
                r => over(r.map(|_| ()), ())?,
            }
            n += 1;
        }
        Ok(Val::Unit)
    }
    fn visit_enum<A: de::EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        let a = if plan(4) == 1 {
            a.variant_seed(ChaosSeed)?.1
        } else {
            a.variant_seed(Ident)?.1
        };
        entry()?;
        let r = match plan(4) {
            0 => a.unit_variant().map(|_| Val::Unit),
            1 => a.newtype_variant_seed(ChaosSeed),
            2 => a.tuple_variant(plan(4) as usize, ChaosV),
            _ => a.struct_variant(if plan(2) == 0 { NO_VALUE } else { NAMES }, ChaosV),
        };
        over(r, Val::Unit)
    }
}

// ---------------------------------------------------------------- generating types

#[derive(Clone, Copy)]
pub struct TyOpts {
    /// Weight of sequences and tuples, enums, `$value` among field types and structs
    pub seqs: u32,
    pub enums: u32,
    pub values: u32,
    pub lower: bool,
    pub maps: bool,
    /// Weight of types that take whatever the document has
    pub any: u32,
}
impl Default for TyOpts {
    fn default() -> Self {
        TyOpts {
            seqs: 4,
            enums: 3,
            values: 2,
            lower: false,
            maps: true,
            any: 0,
        }
    }
}

const FIELD_NAMES: [&str; 20] = [
    "a", "b", "c", "name", "item", "x", "value", "id", "data", "é", "x-y", "h1", "key", "rec.1", "t:u", "to", "from",
    "TITLE", "Row", "unit",
];
const VARIANT_NAMES: [&str; 16] = [
    "Unit", "New", "Tuple", "Struct", "credit", "debit", "a", "item", "V1", "none", "Ünit", "x-y", "true", "b", "One",
    "two",
];

pub struct TG<'a> {
    pub o: &'a TyOpts,
}

impl<'a> TG<'a> {
    fn name(&self, s: &mut Src, pool: &[&'static str]) -> &'static str {
        let n = if s.one_in(10) {
            let n = gen::name(s);
            if n.len() > 60 {
                "long".to_owned()
            } else {
                n
            }
        } else {
            s.pick(pool).to_string()
        };
        if self.o.lower {
            // (an all-lowercase name may still have uppercase in other scripts' sense)
            let l = refimpl::norm_name(&n, 1);
            if refimpl::norm_name(&l, 1) != l || !gen::is_name(&l) {
                return intern("odd");
            }
            return intern(&l);
        }
        intern(&n)
    }
    fn names(&self, s: &mut Src, n: usize, pool: &[&'static str]) -> Vec<&'static str> {
        let mut out: Vec<&'static str> = vec![];
        for i in 0..n {
            let x = self.name(s, pool);
            if out.contains(&x) {
                let y = intern(&format!("{x}{i}"));
                if !out.contains(&y) {
                    out.push(y);
                }
            } else {
                out.push(x);
            }
        }
        out
    }

    pub fn scalar(&self, s: &mut Src) -> Ty {
        match s.weighted(&[5, 4, 2, 1, 1]) {
            0 => Ty::Str,
            1 => Ty::Num(*s.pick(&NUMS)),
            2 => Ty::Bool,
            3 => Ty::Char,
            _ => Ty::Bytes,
        }
    }

    /// What a field of a struct, read from attributes and child elements, can be.
    pub fn field(&self, s: &mut Src, depth: usize) -> Ty {
        if self.o.any > 0 && s.one_in(4) {
            return Ty::Any;
        }
        let d = if depth == 0 { 0 } else { 1 };
        let w = [
            10,
            3,
            self.o.seqs,
            self.o.seqs / 2 + 1,
            4 * d,
            self.o.enums,
            d * self.o.maps as u32,
            1,
            1,
        ];
        match s.weighted(&w) {
            0 => self.scalar(s),
            1 => match self.field(s, depth) {
                t @ (Ty::Opt(_) | Ty::Unit | Ty::UnitStruct) => t,
                t => Ty::Opt(Rc::new(t)),
            },
            2 => {
                if s.one_in(5) {
                    let t = self.tuple(s, depth);
                    Ty::Seq(Rc::new(t))
                } else {
                    Ty::Seq(Rc::new(self.item(s, depth.saturating_sub(1))))
                }
            }
            3 => self.tuple(s, depth),
            4 => self.structure(s, depth - 1),
            5 => self.enumeration(s, depth.saturating_sub(1)),
            6 => Ty::Map(Rc::new(self.entry(s, depth - 1))),
            7 => {
                if s.coin() {
                    Ty::Unit
                } else {
                    Ty::UnitStruct
                }
            }
            _ => Ty::Newtype(Rc::new(match self.field(s, depth) {
                Ty::Opt(t) => (*t).clone(),
                t => t,
            })),
        }
    }
    fn entry(&self, s: &mut Src, depth: usize) -> Ty {
        match s.below(6) {
            0..=3 => self.item(s, depth),
            4 => Ty::Seq(Rc::new(self.item(s, depth))),
            _ => Ty::Opt(Rc::new(self.item(s, depth))),
        }
    }
    fn tuple(&self, s: &mut Src, depth: usize) -> Ty {
        let n = s.range(1, 4);
        let t: Rc<Vec<Ty>> = Rc::new((0..n).map(|_| self.item(s, depth.saturating_sub(1))).collect());
        if s.coin() {
            Ty::TupStruct(t)
        } else {
            Ty::Tup(t)
        }
    }
    /// What a single element can be.
    pub fn item(&self, s: &mut Src, depth: usize) -> Ty {
        if self.o.any > 0 && s.one_in(4) {
            return Ty::Any;
        }
        let d = if depth == 0 { 0 } else { 1 };
        match s.weighted(&[8, 5 * d, self.o.enums, d * self.o.maps as u32, 1, 1, 1]) {
            0 => self.scalar(s),
            1 => self.structure(s, depth - 1),
            2 => self.enumeration(s, depth.saturating_sub(1)),
            3 => Ty::Map(Rc::new(self.entry(s, depth - 1))),
            4 => Ty::Unit,
            5 => Ty::Opt(Rc::new(match self.item(s, depth) {
                Ty::Opt(t) => (*t).clone(),
                t => t,
            })),
            _ => Ty::Newtype(Rc::new(self.item(s, depth))),
        }
    }
    pub fn structure(&self, s: &mut Src, depth: usize) -> Ty {
        let v = s.weighted(&[8, self.o.values]) == 1;
        Ty::Struct(self.st(s, depth, v))
    }
    pub fn st(&self, s: &mut Src, depth: usize, value: bool) -> Rc<St> {
        let n = if s.one_in(30) { s.range(5, 18) } else { s.range(0, 4) };
        let names = self.names(s, n, &FIELD_NAMES);
        let mut fields: Vec<Field> = names
            .into_iter()
            .map(|name| {
                let ty = match value {
                    true if self.o.any > 0 && s.one_in(4) => Ty::Any,
                    true => self.attribute(s),
                    false => self.field(s, depth),
                };
                let default = match &ty {
                    Ty::Seq(_) => s.below(4) != 0,
                    Ty::Map(_) | Ty::Bool | Ty::Num(_) | Ty::Str | Ty::Opt(_) => s.one_in(4),
                    _ => false,
                };
                Field { name, ty, default }
            })
            .collect();
        if value {
            let ty = self.content(s, depth);
            let at = s.range(0, fields.len());
            fields.insert(at, Field { name: "$value", ty, default: false });
        }
        St::new(fields)
    }
    /// What an attribute can be.
    pub fn attribute(&self, s: &mut Src) -> Ty {
        match s.below(8) {
            0..=3 => self.scalar(s),
            4 => Ty::Opt(Rc::new(self.scalar(s))),
            5 => self.names_only(s),
            6 => Ty::Newtype(Rc::new(self.scalar(s))),
            _ => Ty::Unit,
        }
    }
    /// What `$value` can be.
    pub fn content(&self, s: &mut Src, depth: usize) -> Ty {
        if self.o.any > 0 && s.one_in(3) {
            return if s.coin() { Ty::Any } else { Ty::Seq(Rc::new(Ty::Any)) };
        }
        match s.weighted(&[6, 2, 1, 1, 5, 2]) {
            0 => self.scalar(s),
            1 => Ty::Opt(Rc::new(self.scalar(s))),
            2 => Ty::Newtype(Rc::new(self.scalar(s))),
            3 => self.names_only(s),
            4 => Ty::Seq(Rc::new(match s.below(5) {
                0 | 1 => self.enumeration(s, depth.saturating_sub(1)),
                2 => self.structure(s, depth.saturating_sub(1)),
                _ => self.scalar(s),
            })),
            _ => self.enumeration(s, depth.saturating_sub(1)),
        }
    }
    fn names_only(&self, s: &mut Src) -> Ty {
        let n = s.range(1, 4);
        let names = self.names(s, n, &VARIANT_NAMES);
        Ty::Enum(En::new(names.into_iter().map(|name| Var { name, kind: Kind::Unit }).collect()))
    }
    pub fn enumeration(&self, s: &mut Src, depth: usize) -> Ty {
        let n = if s.one_in(20) { s.range(5, 14) } else { s.range(1, 4) };
        let names = self.names(s, n, &VARIANT_NAMES);
        let plain = s.one_in(4);
        Ty::Enum(En::new(
            names
                .into_iter()
                .map(|name| Var {
                    name,
                    kind: if plain { Kind::Unit } else { self.kind(s, depth) },
                })
                .collect(),
        ))
    }
    fn kind(&self, s: &mut Src, depth: usize) -> Kind {
        if depth == 0 {
            return match s.weighted(&[4, 3, 2, 2]) {
                0 => Kind::Unit,
                1 => Kind::New(self.scalar(s)),
                2 => {
                    let n = s.range(2, 3);
                    Kind::Tup((0..n).map(|_| self.scalar(s)).collect())
                }
                _ => {
                    let n = s.range(0, 3);
                    let names = self.names(s, n, &FIELD_NAMES);
                    let field = |name| Field { name, ty: self.attribute(s), default: false };
                    Kind::Struct(St::new(names.into_iter().map(field).collect()))
                }
            };
        }
        match s.weighted(&[6, 4, 3, 3]) {
            0 => Kind::Unit,
            1 => Kind::New(match s.below(8) {
                0..=2 => self.scalar(s),
                3 => Ty::Opt(Rc::new(self.scalar(s))),
                4 => Ty::Newtype(Rc::new(self.scalar(s))),
                5 => {
                    // Only attributes and text: elements in it would be taken for the value itself
                    let mut fields: Vec<Field> = self
                        .names(s, 2, &FIELD_NAMES)
                        .into_iter()
                        .map(|name| Field { name, ty: self.attribute(s), default: false })
                        .collect();
                    if s.coin() {
                        fields.push(Field { name: "$value", ty: Ty::Str, default: false });
                    }
                    Ty::Struct(St::new(fields))
                }
                _ => self.enumeration(s, depth.saturating_sub(1)),
            }),
            2 => {
                let n = s.range(2, 3);
                Kind::Tup((0..n).map(|_| self.item(s, depth.saturating_sub(1))).collect())
            }
            _ => {
                let v = s.weighted(&[8, self.o.values]) == 1;
                Kind::Struct(self.st(s, depth.saturating_sub(1), v))
            }
        }
    }
    /// What a whole document can be.
    pub fn root(&self, s: &mut Src, depth: usize) -> Ty {
        match s.weighted(&[8, self.o.enums, self.o.maps as u32, 1, 1]) {
            0 => self.structure(s, depth),
            1 => self.enumeration(s, depth),
            2 => Ty::Map(Rc::new(self.entry(s, depth))),
            3 => self.scalar(s),
            _ => self.item(s, depth),
        }
    }
}

// ---------------------------------------------------------------- generating values

pub fn string(s: &mut Src) -> String {
    match s.below(6) {
        0 => s
            .pick(&["red", "", " padded ", "a]]>b", "<b>bold</b>", "x & y", "&amp;", "\"q\" 'r'", "é", "-", "</a>", "\n"])
            .to_string(),
        1 => gen::name(s),
        _ => gen::any_string(s, 40),
    }
}

fn int(s: &mut Src, lo: i128, hi: i128) -> i128 {
    let span = (hi - lo) as u128;
    let v = match s.below(4) {
        0 => s.below(200) as i128 - 100,
        1 => lo + s.below(3) as i128,
        2 => hi - s.below(3) as i128,
        _ => lo + ((s.bits() as u128) % (span + 1)) as i128,
    };
    v.clamp(lo, hi)
}

pub fn value(s: &mut Src, ty: &Ty) -> Val {
    match ty {
        Ty::Bool => Val::Bool(s.coin()),
        Ty::Num(n) => match n {
            Num::I8 => Val::Int(int(s, i8::MIN as i128, i8::MAX as i128)),
            Num::I16 => Val::Int(int(s, i16::MIN as i128, i16::MAX as i128)),
            Num::I32 => Val::Int(int(s, i32::MIN as i128, i32::MAX as i128)),
            Num::I64 => Val::Int(int(s, i64::MIN as i128, i64::MAX as i128)),
            Num::U8 => Val::Int(int(s, 0, u8::MAX as i128)),
            Num::U16 => Val::Int(int(s, 0, u16::MAX as i128)),
            Num::U32 => Val::Int(int(s, 0, u32::MAX as i128)),
            Num::U64 => Val::Int(int(s, 0, u64::MAX as i128)),
            Num::F32 => Val::F32(match s.below(4) {
                0 => (s.below(1000) as f32 / 8.0).to_bits(),
                1 => s.pick(&[f32::INFINITY, f32::NEG_INFINITY, -0.0, f32::MIN_POSITIVE, f32::MAX]).to_bits(),
                _ => some_f32(s.bits() as u32),
            }),
            Num::F64 => Val::F64(match s.below(4) {
                0 => (s.below(1000) as f64 / 8.0).to_bits(),
                1 => s.pick(&[f64::INFINITY, f64::NEG_INFINITY, -0.0, f64::MIN_POSITIVE, f64::MAX]).to_bits(),
                _ => some_f64(s.bits()),
            }),
        },
        Ty::Str | Ty::Bytes => Val::Str(string(s)),
        Ty::Char => Val::Char(gen::any_char(s)),
        Ty::Unit | Ty::UnitStruct => Val::Unit,
        Ty::Opt(t) => {
            if s.below(3) == 0 {
                Val::None
            } else {
                match value(s, t) {
                    // (cannot be told from an absent one)
                    Val::Seq(v) if v.is_empty() && matches!(strip(t), Ty::Seq(_)) => Val::None,
                    v => Val::Some(Box::new(v)),
                }
            }
        }
        Ty::Newtype(t) => value(s, t),
        Ty::Seq(t) => {
            if s.one_in(1500) && !s.huge {
                s.huge = true;
                // Long, of few different items
                let n = (*s.pick(&gen::dict().big)).min(9000);
                let few: Vec<Val> = (0..s.range(1, 3)).map(|_| present(s, t)).collect();
                return Val::Seq(few.into_iter().cycle().take(n).collect());
            }
            if let Some(m) = gen::many(s, 300) {
                let few: Vec<Val> = (0..s.range(1, 3)).map(|_| present(s, t)).collect();
                return Val::Seq(few.into_iter().cycle().take(m).collect());
            }
            let n = if s.one_in(60) { s.range(20, 70) } else { s.size(5) };
            Val::Seq((0..n).map(|_| present(s, t)).collect())
        }
        Ty::Tup(t) | Ty::TupStruct(t) => Val::Seq(t.iter().map(|t| present(s, t)).collect()),
        Ty::Struct(st) => Val::Struct(st_value(s, st)),
        Ty::Map(t) => {
            let o = TyOpts::default();
            if let Some(m) = gen::many(s, 60) {
                let few: Vec<Val> = (0..s.range(1, 3)).map(|_| present(s, t)).collect();
                let names = (0..m).map(|i| format!("k{i}"));
                return Val::Map(names.zip(few.into_iter().cycle()).collect());
            }
            let n = s.range(0, 4);
            let names = TG { o: &o }.names(s, n, &FIELD_NAMES);
            Val::Map(names.into_iter().map(|n| (n.to_owned(), present(s, t))).collect())
        }
        Ty::Enum(en) => {
            let v = &en.vars[s.us(en.vars.len())];
            let data = match &v.kind {
                Kind::Unit => Val::Unit,
                Kind::New(t) => present(s, t),
                Kind::Tup(t) => Val::Seq(t.iter().map(|t| present(s, t)).collect()),
                Kind::Struct(st) => Val::Struct(st_value(s, st)),
            };
            Val::Enum(v.name, Box::new(data))
        }
        Ty::Any => {
            let depth = s.range(0, 3);
            any_value(s, depth)
        }
        Ty::Chaos => Val::Unit,
        Ty::Try(t) => value(s, t),
    }
}
/// What an element of any shape is read as when the type does not say what it expects: attributes
/// come first, and `$value` is the text of an element that has attributes and no child elements.
fn any_value(s: &mut Src, depth: usize) -> Val {
    let name = |s: &mut Src| loop {
        let n = match s.below(8) {
            0 => gen::name(s),
            1 => s.pick(&VARIANT_NAMES).to_string(),
            _ => s.pick(&FIELD_NAMES).to_string(),
        };
        if n.len() < 60 {
            return n;
        }
    };
    let kind = s.weighted(&[1, 4, 3, if depth > 0 { 5 } else { 0 }]);
    if kind == 0 {
        return Val::Unit;
    }
    if kind == 1 {
        let t = string(s);
        return if t.is_empty() { Val::Unit } else { Val::Str(t) };
    }
    let mut out = vec![];
    for _ in 0..if kind == 2 { s.range(1, 3) } else { s.weighted(&[4, 2, 1]) } {
        out.push((name(s), Val::Str(string(s))));
    }
    if let (Some(m), false) = (gen::many(s, 200), out.is_empty()) {
        doc::repeat(&mut out, m);
    }
    if kind == 2 {
        out.push(("$value".to_owned(), Val::Str(string(s))));
    } else {
        let many = gen::many(s, 150);
        let mut kids = vec![];
        for _ in 0..s.range(1, 4) {
            kids.push((name(s), any_value(s, depth - 1)));
        }
        match many {
            Some(m) if s.coin() => doc::repeat(&mut kids, m),
            // Or one within the other
            Some(m) => {
                for _ in 0..m {
                    kids = vec![("deep".to_owned(), Val::Map(kids))];
                }
            }
            None => {}
        }
        out.extend(kids);
    }
    Val::Map(out)
}
fn any_element(s: &mut Src, name: &str, v: &Val) -> El {
    let mut e = El::new(name);
    match v {
        Val::Unit => {}
        Val::Str(t) => {
            assert!(!t.is_empty());
            e.kids.push(Kid::Text(t.clone()))
        }
        Val::Map(es) => {
            let text = |v: &Val| match v {
                Val::Str(t) => t.clone(),
                v => panic!("{v:?}"),
            };
            let content = es.last().filter(|e| e.0 == "$value");
            let split = if content.is_some() {
                es.len() - 1
            } else {
                // (an empty string can only be an attribute)
                let lo = es.iter().rposition(|(_, v)| *v == Val::Str(String::new())).map_or(0, |i| i + 1);
                let hi = es.iter().position(|(_, v)| !matches!(v, Val::Str(_))).unwrap_or(es.len());
                let hi = hi.min(es.len() - 1);
                assert!(lo <= hi, "{es:?}");
                s.range(lo, hi)
            };
            for (k, v) in &es[..split] {
                let t = text(v);
                e.attrs.push((k.clone(), if t.is_empty() && s.coin() { None } else { Some(t) }));
            }
            match content {
                Some((_, v)) => {
                    let t = text(v);
                    if !t.is_empty() {
                        e.kids.push(Kid::Text(t));
                    }
                }
                None => {
                    let stray = s.one_in(4);
                    for (k, v) in &es[split..] {
                        if stray && s.coin() {
                            // Text beside elements counts for nothing
                            e.kids.push(Kid::Text(string(s)));
                        }
                        e.kids.push(Kid::El(any_element(s, k, v)));
                    }
                    if stray && s.coin() {
                        e.kids.push(Kid::Text(string(s)));
                    }
                    e.kids.retain(|k| !matches!(k, Kid::Text(t) if t.is_empty()));
                }
            }
        }
        v => panic!("{v:?}"),
    }
    e
}
fn some_f32(b: u32) -> u32 {
    let f = f32::from_bits(b);
    if f.is_nan() {
        1.5f32.to_bits()
    } else {
        b
    }
}
fn some_f64(b: u64) -> u64 {
    let f = f64::from_bits(b);
    if f.is_nan() {
        1.5f64.to_bits()
    } else {
        b
    }
}
fn strip(t: &Ty) -> &Ty {
    match t {
        Ty::Newtype(t) => strip(t),
        t => t,
    }
}
/// A value that is there: an element has no way to say it is absent.
pub fn present(s: &mut Src, t: &Ty) -> Val {
    match t {
        Ty::Opt(i) => Val::Some(Box::new(present(s, i))),
        Ty::Newtype(i) => present(s, i),
        Ty::Seq(i) => {
            let many = gen::many(s, 300);
            let n = s.range(1, 4);
            let mut v: Vec<Val> = (0..n).map(|_| present(s, i)).collect();
            if let Some(m) = many {
                doc::repeat(&mut v, m);
            }
            Val::Seq(v)
        }
        t => value(s, t),
    }
}
fn st_value(s: &mut Src, st: &St) -> Vec<Val> {
    st.fields
        .iter()
        .map(|f| {
            if f.name == "$value" {
                return match strip(&f.ty) {
                    Ty::Opt(_) => present(s, &f.ty),
                    Ty::Any => Val::Str(string(s)),
                    _ => value(s, &f.ty),
                };
            }
            if f.ty == Ty::Any && st.has_value() {
                return Val::Str(string(s));
            }
            if f.default && s.below(3) == 0 {
                return default_val(&f.ty);
            }
            match (strip(&f.ty), f.default) {
                (Ty::Seq(_), true) if matches!(f.ty, Ty::Seq(_)) => value(s, &f.ty),
                (Ty::Opt(_), _) if matches!(f.ty, Ty::Opt(_)) => match value(s, &f.ty) {
                    v => v,
                },
                _ => present(s, &f.ty),
            }
        })
        .collect()
}

// ---------------------------------------------------------------- documents

/// What may be added to an element without changing what it means.
#[derive(Clone, Debug)]
pub enum Extra {
    Nothing,
    Attrs,
    /// Attributes of other names
    OtherAttrs(Rc<St>),
    /// Attributes and elements of other names
    Other(Rc<St>),
    /// Whatever: the element is skipped as a whole
    All,
}

#[derive(Clone, Debug)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, Option<String>)>,
    pub kids: Vec<Kid>,
    pub extra: Extra,
    /// Continues the series of the element before it
    pub joined: bool,
    /// The type read here, if it is a struct
    pub st: Option<Rc<St>>,
}
#[derive(Clone, Debug)]
pub enum Kid {
    El(El),
    Text(String),
}

impl El {
    pub fn new(name: &str) -> El {
        El {
            name: name.to_owned(),
            attrs: vec![],
            kids: vec![],
            extra: Extra::Nothing,
            joined: false,
            st: None,
        }
    }
    pub fn text(name: &str, t: String) -> El {
        let mut e = El::new(name);
        e.extra = Extra::Attrs;
        if !t.is_empty() {
            e.kids.push(Kid::Text(t));
        }
        e
    }
    pub fn text_only(&self) -> bool {
        !self.kids.iter().any(|k| matches!(k, Kid::El(_)))
    }
    pub fn visit<'a>(&'a self, f: &mut dyn FnMut(&'a El)) {
        f(self);
        for k in &self.kids {
            if let Kid::El(e) = k {
                e.visit(f);
            }
        }
    }
    pub fn visit_mut(&mut self, f: &mut dyn FnMut(&mut El)) {
        f(self);
        for k in &mut self.kids {
            if let Kid::El(e) = k {
                e.visit_mut(f);
            }
        }
    }
    pub fn count(&self, p: &dyn Fn(&El) -> bool) -> usize {
        let mut n = 0;
        self.visit(&mut |e| n += p(e) as usize);
        n
    }
    /// Applies `f` to the `i`-th element that satisfies `p`.
    pub fn at(&mut self, i: usize, p: &dyn Fn(&El) -> bool, f: &mut dyn FnMut(&mut El)) {
        let mut n = 0;
        self.visit_mut(&mut |e| {
            if p(e) {
                if n == i {
                    f(e);
                }
                n += 1;
            }
        });
    }
}

/// Ways of writing a number as text.
fn num_text(s: &mut Src, v: &Val) -> String {
    match v {
        Val::Int(n) => match s.below(8) {
            0 if *n >= 0 => format!("+{n}"),
            1 if *n >= 0 => format!("{}{n}", "0".repeat(s.range(1, 5))),
            1 => format!("-{}{}", "0".repeat(s.range(1, 5)), n.unsigned_abs()),
            _ => n.to_string(),
        },
        Val::F32(b) => {
            let f = f32::from_bits(*b);
            match s.below(4) {
                0 => format!("{f:e}"),
                1 => format!("{f}"),
                _ => format!("{f:?}"),
            }
        }
        Val::F64(b) => {
            let f = f64::from_bits(*b);
            match s.below(4) {
                0 => format!("{f:e}"),
                1 => format!("{f}"),
                _ => format!("{f:?}"),
            }
        }
        _ => unreachable!(),
    }
}

/// The text that stands for a value, when there is one.
pub fn scalar_text(s: &mut Src, ty: &Ty, v: &Val) -> Option<String> {
    Some(match (ty, v) {
        (Ty::Bool | Ty::Num(_) | Ty::Char | Ty::Str | Ty::Bytes, Val::Raw(t)) => t.clone(),
        (Ty::Bool, Val::Bool(b)) => {
            let t = if *b {
                *s.pick(&["true", "1", "TRUE", "True", "tRuE"])
            } else {
                *s.pick(&["false", "0", "FALSE", "False", "faLse"])
            };
            t.to_owned()
        }
        (Ty::Num(_), v) => num_text(s, v),
        (Ty::Str | Ty::Bytes | Ty::Any, Val::Str(t)) => t.clone(),
        (Ty::Char, Val::Char(c)) => c.to_string(),
        (Ty::Opt(t), Val::Some(v)) => return scalar_text(s, t, v),
        (Ty::Newtype(t), v) => return scalar_text(s, t, v),
        (Ty::Enum(en), Val::Enum(n, _)) => {
            match en.vars.iter().find(|x| x.name == *n) {
                Some(var) if var.kind != Kind::Unit => return None,
                _ => n.to_string(),
            }
        }
        _ => return None,
    })
}

/// The attribute that stands for a value, when there is one.
fn attr(s: &mut Src, name: &str, ty: &Ty, v: &Val) -> Option<Option<String>> {
    fn is_bool(t: &Ty) -> bool {
        match t {
            Ty::Bool => true,
            Ty::Opt(t) | Ty::Newtype(t) => is_bool(t),
            _ => false,
        }
    }
    fn inner(v: &Val) -> &Val {
        match v {
            Val::Some(v) => inner(v),
            v => v,
        }
    }
    match (strip(ty), v) {
        (Ty::Unit | Ty::UnitStruct, _) => {
            return Some(if s.coin() { None } else { Some(string(s)) });
        }
        (t, v) if is_bool(t) && *inner(v) == Val::Bool(true) && s.coin() => {
            return Some(match s.below(4) {
                0 => None,
                1 => Some(String::new()),
                2 => Some(doc::odd_case(s, name)).filter(|n| n.eq_ignore_ascii_case(name)),
                _ => Some(name.to_owned()),
            })
        }
        // An attribute that repeats its own name is true
        (t, v) if is_bool(t) && *inner(v) == Val::Bool(false) && name.eq_ignore_ascii_case("false") => {
            return Some(Some("0".to_owned()));
        }
        _ => {}
    }
    scalar_text(s, ty, v).map(Some)
}

fn absent(f: &Field, v: &Val) -> bool {
    match v {
        Val::None => true,
        Val::Seq(x) => x.is_empty() && f.default,
        _ => false,
    }
}

/// Fills an element that is read as the given struct.
fn fill(s: &mut Src, e: &mut El, st: &Rc<St>, vals: &[Val], attrs_only: bool) {
    e.st = Some(st.clone());
    e.extra = if st.has_value() || attrs_only {
        Extra::OtherAttrs(st.clone())
    } else {
        Extra::Other(st.clone())
    };
    let mut groups: Vec<Vec<El>> = vec![];
    let mut content = None;
    for (f, v) in st.fields.iter().zip(vals) {
        if f.name == "$value" {
            content = Some((&f.ty, v));
            continue;
        }
        if absent(f, v) || (f.default && *v == default_val(&f.ty) && s.coin()) {
            continue;
        }
        let only_attr = st.has_value() || attrs_only;
        if only_attr || s.coin() {
            if let Some(a) = attr(s, f.name, &f.ty, v) {
                e.attrs.push((f.name.to_owned(), a));
                continue;
            }
        }
        assert!(!only_attr, "{:?} cannot be an attribute", f.ty);
        groups.push(elements(s, f.name, &f.ty, v));
    }
    shuffle(s, &mut e.attrs);
    shuffle(s, &mut groups);
    for g in groups {
        for (i, mut k) in g.into_iter().enumerate() {
            k.joined = i > 0;
            e.kids.push(Kid::El(k));
        }
    }
    if let Some((ty, v)) = content {
        match (strip(ty), v) {
            (Ty::Seq(t), Val::Seq(vs)) => {
                for v in vs {
                    for k in content_item(s, t, v) {
                        e.kids.push(Kid::El(k));
                    }
                }
            }
            (Ty::Enum(_), v) => {
                match scalar_text(s, ty, v) {
                    Some(t) if s.coin() => e.kids.push(Kid::Text(t)),
                    _ => e.kids.extend(variant(s, ty, v).into_iter().map(Kid::El)),
                }
            }
            (t, v) => {
                let t = scalar_text(s, t, v).unwrap();
                if !t.is_empty() {
                    e.kids.push(Kid::Text(t));
                }
            }
        }
    }
}
/// An item of a `$value` sequence: the element's name is up to it.
fn content_item(s: &mut Src, ty: &Ty, v: &Val) -> Vec<El> {
    match ty {
        Ty::Enum(_) => variant(s, ty, v),
        _ => {
            let n = s.pick(&FIELD_NAMES).to_string();
            vec![element(s, &n, ty, v)]
        }
    }
}

pub fn shuffle<T>(s: &mut Src, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        // (as it is, at the simplest)
        let j = i - s.us(i + 1);
        v.swap(i, j);
    }
}

/// The elements that hold a field.
pub fn elements(s: &mut Src, name: &str, ty: &Ty, v: &Val) -> Vec<El> {
    match (ty, v) {
        (Ty::Opt(t), Val::Some(v)) => elements(s, name, t, v),
        (Ty::Newtype(t), v) => elements(s, name, t, v),
        (Ty::Seq(t), Val::Seq(vs)) => vs.iter().flat_map(|v| elements(s, name, t, v)).collect(),
        (Ty::Tup(t) | Ty::TupStruct(t), Val::Seq(vs)) => {
            t.iter().zip(vs).flat_map(|(t, v)| elements(s, name, t, v)).collect()
        }
        _ => vec![element(s, name, ty, v)],
    }
}

/// The element of the given name that holds a value.
pub fn element(s: &mut Src, name: &str, ty: &Ty, v: &Val) -> El {
    match (ty, v) {
        (Ty::Opt(t), Val::Some(v)) => element(s, name, t, v),
        (Ty::Newtype(t), v) => element(s, name, t, v),
        (Ty::Unit | Ty::UnitStruct, _) => anything(s, name),
        (Ty::Any, v) => any_element(s, name, v),
        (Ty::Struct(st), Val::Struct(vs)) => {
            let mut e = El::new(name);
            fill(s, &mut e, st, vs, false);
            e
        }
        (Ty::Map(t), Val::Map(es)) => {
            let mut e = El::new(name);
            // Attributes come first in the document
            let n = es.len();
            let mut split = 0;
            for (i, (k, v)) in es.iter().enumerate() {
                let a = if split == i && s.coin() { attr(s, k, t, v) } else { None };
                match a {
                    Some(a) => {
                        split = i + 1;
                        e.attrs.push((k.clone(), a));
                    }
                    None => {
                        for (j, mut x) in elements(s, k, t, v).into_iter().enumerate() {
                            x.joined = j > 0;
                            e.kids.push(Kid::El(x));
                        }
                    }
                }
            }
            debug_assert!(split <= n);
            e
        }
        (Ty::Enum(_), v) => match scalar_text(s, ty, v) {
            Some(t) if s.below(3) != 0 => El::text(name, t),
            _ => {
                let mut e = El::new(name);
                e.extra = Extra::Attrs;
                for (i, mut k) in variant(s, ty, v).into_iter().enumerate() {
                    k.joined = i > 0;
                    e.kids.push(Kid::El(k));
                }
                e
            }
        },
        _ => El::text(name, scalar_text(s, ty, v).unwrap_or_else(|| panic!("{ty:?} {v:?}"))),
    }
}

/// The elements named after the variant.
pub fn variant(s: &mut Src, ty: &Ty, v: &Val) -> Vec<El> {
    let (Ty::Enum(en), Val::Enum(n, data)) = (strip(ty), v) else {
        panic!("{ty:?} {v:?}")
    };
    let Some(var) = en.vars.iter().find(|x| x.name == *n) else {
        return vec![anything(s, n)];
    };
    match (&var.kind, &**data) {
        (Kind::Unit, _) => vec![anything(s, n)],
        (Kind::New(Ty::Struct(st)), Val::Struct(vs)) => {
            let mut e = El::new(n);
            fill(s, &mut e, st, vs, true);
            vec![e]
        }
        (Kind::New(t), v) => vec![element(s, n, t, v)],
        (Kind::Tup(t), Val::Seq(vs)) => {
            t.iter().zip(vs).map(|(t, v)| element(s, n, t, v)).collect()
        }
        (Kind::Struct(st), Val::Struct(vs)) => {
            let mut e = El::new(n);
            fill(s, &mut e, st, vs, false);
            vec![e]
        }
        x => panic!("{x:?}"),
    }
}

/// An element whose content does not matter.
pub fn anything(s: &mut Src, name: &str) -> El {
    let mut e = if s.coin() { El::new(name) } else { junk(s, name, 2) };
    e.extra = Extra::All;
    e.visit_mut(&mut |x| x.extra = Extra::All);
    e
}

/// An element of arbitrary attributes and content.
pub fn junk(s: &mut Src, name: &str, depth: usize) -> El {
    let mut e = El::new(name);
    e.extra = Extra::All;
    let many = gen::many(s, 150);
    for _ in 0..s.weighted(&[4, 2, 1]) {
        let n = s.pick(&FIELD_NAMES).to_string();
        let v = if s.one_in(4) { None } else { Some(string(s)) };
        e.attrs.push((n, v));
    }
    let what = if many.is_some() { s.below(3) } else { 3 };
    if let (Some(m), 0) = (many, what) {
        doc::repeat(&mut e.attrs, m);
    }
    match s.below(4) {
        0 => {}
        1 => e.kids.push(Kid::Text(string(s))),
        _ => {
            if depth > 0 {
                for _ in 0..s.range(0, 3) {
                    if s.one_in(4) {
                        e.kids.push(Kid::Text(string(s)));
                    }
                    let n = if s.one_in(4) {
                        name.to_owned()
                    } else {
                        let pool = if s.coin() { &FIELD_NAMES[..] } else { &VARIANT_NAMES[..] };
                        s.pick(pool).to_string()
                    };
                    e.kids.push(Kid::El(junk(s, &n, depth - 1)));
                }
            }
        }
    }
    e.kids.retain(|k| !matches!(k, Kid::Text(t) if t.is_empty()));
    match (many, what) {
        (Some(m), 1) => {
            if !matches!((e.kids.first(), e.kids.last()), (Some(Kid::Text(_)), Some(Kid::Text(_)))) {
                doc::repeat(&mut e.kids, m);
            }
        }
        (Some(m), 2) => {
            for _ in 0..m {
                let mut x = El::new(name);
                x.extra = Extra::All;
                x.kids.push(Kid::El(e));
                e = x;
            }
        }
        _ => {}
    }
    e
}

/// The document for a value: its root element is named after the variant for enums, and freely
/// for everything else. Tuple variants take a series of elements, so they cannot be a root.
pub fn document(s: &mut Src, ty: &Ty, v: &Val) -> Option<El> {
    match (ty, v) {
        (Ty::Opt(t), Val::Some(v)) => document(s, t, v),
        (Ty::Opt(_), _) => None,
        (Ty::Newtype(t), v) => document(s, t, v),
        (Ty::Seq(_) | Ty::Tup(_) | Ty::TupStruct(_), _) => None,
        (Ty::Enum(_), v) => {
            let mut e = variant(s, ty, v);
            (e.len() == 1).then(|| e.remove(0))
        }
        _ => {
            let n = s.pick(&FIELD_NAMES).to_string();
            Some(element(s, &n, ty, v))
        }
    }
}

/// The elements for a value, where more than one may stand at the root.
pub fn roots(s: &mut Src, ty: &Ty, v: &Val) -> Option<Vec<El>> {
    match (ty, v) {
        (Ty::Opt(t), Val::Some(v)) => roots(s, t, v),
        (Ty::Newtype(t), v) => roots(s, t, v),
        (Ty::Enum(_), v) => Some(variant(s, ty, v)),
        (Ty::Tup(t) | Ty::TupStruct(t), Val::Seq(vs)) => {
            t.iter().zip(vs).map(|(t, v)| document(s, t, v)).collect()
        }
        _ => document(s, ty, v).map(|e| vec![e]),
    }
}

// ---------------------------------------------------------------- writing documents

#[derive(Clone, Debug)]
pub struct Style {
    /// The parser trims whitespace: it may be added between things
    pub trim: bool,
    pub comments: bool,
    /// CDATA and RCDATA sections
    pub cdata: bool,
    /// INCLUDE and IGNORE sections
    pub sections: bool,
    pub refs: bool,
    /// Leave out end tags of text-only elements, and write empty ones as `<x/>`
    pub omit: bool,
    pub xml: bool,
    /// Write names in any case
    pub case: bool,
    /// Processing instructions and declarations anywhere, which the parser ignores
    pub ignored: bool,
}

impl Style {
    pub fn plain() -> Style {
        Style {
            trim: false,
            comments: false,
            cdata: false,
            sections: false,
            refs: false,
            omit: false,
            xml: false,
            case: false,
            ignored: false,
        }
    }
    pub fn any(s: &mut Src) -> Style {
        Style {
            trim: s.below(3) != 0,
            comments: s.coin(),
            cdata: s.coin(),
            refs: s.coin(),
            ..Style::plain()
        }
    }
}

pub struct W<'a> {
    pub st: &'a Style,
    /// Text must not contain a section's end
    pub in_section: bool,
    /// Within how many INCLUDE sections
    pub depth: usize,
    /// Where, outside of any section, one markup construct ends and the next begins
    pub bounds: std::cell::RefCell<Vec<usize>>,
}

fn comment(s: &mut Src) -> String {
    const B: [&str; 10] = [
        " note ", "", "<a>1</a>", " - ", "&#65;", "]]>", "<![CDATA[", "</r>", " \n ", "é",
    ];
    match s.below(12) {
        0 => "<!>".into(),
        1 => format!("<!--{}-- --{}-->", s.pick(&B), s.pick(&B)),
        _ => format!("<!--{}-->", s.pick(&B)),
    }
}

impl<'a> W<'a> {
    fn new(st: &'a Style, in_section: bool) -> Self {
        W { st, in_section, depth: 0, bounds: Default::default() }
    }
    fn within(&self) -> Self {
        W { depth: self.depth + 1, ..W::new(self.st, true) }
    }
    fn bound(&self, o: &str) {
        self.bounds.borrow_mut().push(o.len());
    }

    fn reference(s: &mut Src, c: char) -> String {
        match s.below(3) {
            0 => format!("&#x{:x};", c as u32),
            1 => format!("&#x{:04X};", c as u32),
            _ => format!("&#{};", c as u32),
        }
    }

    /// Things that mean nothing between other things.
    fn gap(&self, s: &mut Src, o: &mut String) {
        for _ in 0..3 {
            let comments = self.st.comments && s.one_in(5);
            if self.st.trim && s.coin() {
                o.push_str(&gen::ws(s, 3));
            }
            if comments {
                o.push_str(&comment(s));
            }
            if self.st.sections && s.one_in(8) {
                o.push_str("<![IGNORE[");
                o.push_str(&doc::ignored(s, 2));
                o.push_str("]]>");
            }
            if self.st.ignored && s.one_in(6) {
                o.push_str(if s.coin() { "<?pi a>" } else { "<?>" });
            }
            // A text of no length
            if self.st.cdata && s.one_in(12) {
                o.push_str(s.pick(&["<![CDATA[]]>", "<![RCDATA[]]>", "<![ cdata [ \n]]>"][..2 + self.st.trim as usize]));
            }
            if !comments {
                break;
            }
        }
    }

    fn escape(&self, s: &mut Src, t: &str, quote: Option<char>, o: &mut String) {
        let cs: Vec<char> = t.chars().collect();
        for (i, &c) in cs.iter().enumerate() {
            let next = cs.get(i + 1).copied();
            let edge = quote.is_none() && self.st.trim && (i == 0 || i + 1 == cs.len()) && refimpl::is_ws(c);
            let must = match c {
                '&' => !(next == Some(' ') && s.coin()),
                '<' => quote.is_none() && !(matches!(next, Some(' ' | '0'..='9')) && s.coin()),
                ']' => quote.is_none() && self.in_section,
                _ => Some(c) == quote || edge,
            };
            if must || (self.st.refs && s.one_in(6)) {
                o.push_str(&Self::reference(s, c));
            } else {
                o.push(c);
            }
        }
    }

    pub fn text(&self, s: &mut Src, t: &str, o: &mut String) {
        let cs: Vec<char> = t.chars().collect();
        let n = match gen::many(s, 400) {
            Some(m) => m,
            None if s.below(3) == 0 => s.range(1, 3),
            None => 1,
        };
        let mut cuts: Vec<usize> = (1..n).map(|_| s.range(0, cs.len())).collect();
        cuts.push(0);
        cuts.push(cs.len());
        cuts.sort();
        if self.st.trim && s.one_in(3) {
            o.push_str(&gen::ws(s, 3));
        }
        for (i, w) in cuts.windows(2).enumerate() {
            let chunk: String = cs[w[0]..w[1]].iter().collect();
            if i > 0 && self.st.comments && s.coin() {
                if self.st.trim {
                    o.push_str(&gen::ws(s, 1));
                }
                o.push_str(&comment(s));
                if self.st.trim {
                    o.push_str(&gen::ws(s, 1));
                }
            }
            let edges = chunk.starts_with(refimpl::is_ws) || chunk.ends_with(refimpl::is_ws);
            match if self.st.cdata { s.below(5) } else { 4 } {
                0 | 1 if !chunk.contains("]]>") && !(self.st.trim && edges) => {
                    o.push_str("<![");
                    o.push_str(&doc::odd_case(s, "CDATA"));
                    o.push('[');
                    o.push_str(&chunk);
                    o.push_str("]]>");
                }
                2 => {
                    o.push_str("<![");
                    o.push_str(&doc::odd_case(s, "RCDATA"));
                    o.push('[');
                    let w = self.within();
                    w.escape(s, &chunk, None, o);
                    o.push_str("]]>");
                }
                3 if self.st.sections => {
                    o.push_str("<![INCLUDE[");
                    let w = self.within();
                    w.escape(s, &chunk, None, o);
                    o.push_str("]]>");
                }
                _ => self.escape(s, &chunk, None, o),
            }
        }
        if self.st.trim && s.one_in(3) {
            o.push_str(&gen::ws(s, 3));
        }
    }

    fn cased(&self, s: &mut Src, n: &str) -> String {
        if !self.st.case {
            return n.to_owned();
        }
        let o: String = match s.below(4) {
            0 => n.to_owned(),
            1 => refimpl::norm_name(n, 2),
            _ => doc::odd_case(s, n),
        };
        // Only when it is a name that comes back as the original
        if gen::is_name(&o) && refimpl::norm_name(&o, 1) == refimpl::norm_name(n, 1) {
            o
        } else {
            n.to_owned()
        }
    }

    pub fn el(&self, s: &mut Src, e: &El, parent: Option<&str>, o: &mut String) {
        let xml = self.st.xml && e.kids.is_empty() && s.coin();
        let mut attrs: Vec<Attr> = vec![];
        for (n, v) in &e.attrs {
            let val = match v {
                None => doc::Val::None,
                Some(v) => {
                    let bare = !v.is_empty()
                        && !v.chars().any(|c| refimpl::is_ws(c) || matches!(c, '"' | '\'' | '>'));
                    if bare && s.below(3) == 0 {
                        doc::Val::Bare(v.clone())
                    } else {
                        let q = if s.coin() { '\'' } else { '"' };
                        let mut t = String::new();
                        self.escape(s, v, Some(q), &mut t);
                        doc::Val::Quoted(q, t)
                    }
                }
            };
            let sp = |s: &mut Src| if s.one_in(6) { gen::ws(s, 2) } else { String::new() };
            attrs.push(Attr {
                name: self.cased(s, n),
                val,
                pre: gen::ws1(s, 1),
                eq: (sp(s), sp(s)),
            });
        }
        let bare = matches!(attrs.last(), Some(Attr { val: doc::Val::Bare(_), .. }));
        let pre_close = if xml && bare || s.one_in(8) {
            gen::ws1(s, 1)
        } else {
            String::new()
        };
        doc::render_item(
            &Item::Open { name: self.cased(s, &e.name), attrs, pre_close, xml },
            o,
        );
        if xml {
            return;
        }
        let text_only = e.text_only();
        for k in &e.kids {
            self.bound(o);
            match k {
                Kid::Text(t) => {
                    if self.st.trim && text_only {
                        self.gap(s, o);
                    }
                    self.text(s, t, o);
                }
                Kid::El(k) => {
                    self.gap(s, o);
                    if self.st.sections && self.depth < 3 && s.one_in(8) {
                        o.push_str("<![");
                        o.push_str(*s.pick(&["INCLUDE", "", "TEMP", "include", " INCLUDE\n"]));
                        o.push('[');
                        let w = self.within();
                        w.gap(s, o);
                        w.el(s, k, None, o);
                        w.gap(s, o);
                        o.push_str("]]>");
                    } else {
                        self.el(s, k, Some(&e.name), o);
                    }
                }
            }
        }
        self.bound(o);
        if self.st.trim || !text_only || self.st.comments {
            self.gap(s, o);
            self.bound(o);
        }
        // Text that is there, but of no length
        let nothing = text_only && self.st.cdata && s.one_in(12);
        if nothing {
            o.push_str(*s.pick(&["<![CDATA[]]>", "<![RCDATA[]]>", "<!-- --><![CDATA[]]>"][..2 + self.st.comments as usize]));
        }
        // (whitespace at the end would not be part of the element)
        let plain = !matches!(e.kids.last(), Some(Kid::Text(t)) if t.ends_with(char::is_whitespace));
        let omit = self.st.omit && text_only && plain && !nothing && parent.map_or(false, |p| p != e.name) && s.coin();
        if !omit {
            doc::render_item(
                &Item::End {
                    name: self.cased(s, &e.name),
                    ws: if s.one_in(8) { gen::ws(s, 2) } else { String::new() },
                },
                o,
            );
        }
    }
}

pub fn write(s: &mut Src, e: &El, st: &Style) -> String {
    let mut o = String::new();
    // Sections do not have to follow the elements
    let spans = st.sections && s.one_in(3);
    let w = W::new(st, spans);
    if st.trim && s.coin() {
        o.push_str(&gen::ws(s, 2));
    }
    if st.comments && s.one_in(4) {
        o.push_str(&comment(s));
    }
    w.el(s, e, None, &mut o);
    if spans {
        let b = w.bounds.take();
        {
            let (i, j) = (s.us(b.len().max(1)), s.us(b.len().max(1)));
            if let (Some(i), Some(j)) = (b.get(i.min(j)), b.get(i.max(j))) {
                o.insert_str(*j, "]]>");
                o.insert_str(*i, *s.pick(&["<![INCLUDE[", "<![[", "<![TEMP ["]));
            }
        }
    }
    if st.trim && s.coin() {
        o.push_str(&gen::ws(s, 2));
    }
    o
}

/// The configuration that goes with a style.
pub fn cfg_for(s: &mut Src, st: &Style) -> gen::Cfg {
    gen::Cfg {
        trim: st.trim,
        norm: if st.case { 1 } else { 0 },
        ms: if st.sections { 1 } else { s.below(2) as u8 },
        ignore_pi: st.ignored,
        ..gen::Cfg::default()
    }
}
