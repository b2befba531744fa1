//! C30: processing time grows in proportion to the input.

use crate::doc::{self, Opts, G};
use crate::engine::*;
use crate::gen::{self, Cfg};
use sgmlish::transforms::{normalize_end_tags, Transform};
use sgmlish::{SgmlEvent, SgmlFragment};
use std::collections::HashMap;

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
    fn mallopt(param: i32, value: i32) -> i32;
}

/// Processor time of this thread: what else the machine does has little influence.
fn now() -> f64 {
    const THREAD_CPUTIME: i32 = 3;
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe { clock_gettime(THREAD_CPUTIME, &mut t) };
    t.sec as f64 + t.nsec as f64 * 1e-9
}

/// How much more time per unit of input is taken for growth.
///
/// Cache misses and fresh memory make large inputs up to about 3 times as expensive per unit.
const TOLERATED: f64 = 10.0;
/// The least time that counts as a base.
const BASE: f64 = 0.000_25;
const FLOOR: f64 = 0.000_1;

/// Compares the time per unit of input at a base size with the one at 4, 16 and 64 times that size.
fn proportional<T>(cx: &mut Ctx, max: usize, make: &dyn Fn(usize) -> T, act: &dyn Fn(T)) -> R {
    // Memory that was used before is used again, instead of being mapped afresh
    const TRIM_THRESHOLD: i32 = -1;
    const MMAP_THRESHOLD: i32 = -3;
    unsafe {
        mallopt(TRIM_THRESHOLD, 1 << 30);
        mallopt(MMAP_THRESHOLD, 1 << 30);
    }
    let run = |n: usize| {
        let input = make(n);
        let t = now();
        act(input);
        now() - t
    };
    let mut n = 32;
    while run(n) < BASE && n < max {
        n *= 2;
    }
    let fastest = |n: usize, times: usize| (0..times).map(|_| run(n)).fold(f64::MAX, f64::min);
    let mut base = fastest(n, 5).max(FLOOR);
    for k in [4, 16, 64] {
        let limit = TOLERATED * k as f64;
        let mut big = run(n * k);
        let mut tries = 0;
        while big > limit * base && tries < 3 {
            big = big.min(run(n * k));
            // (the base is what may have been measured too small)
            base = base.max(fastest(n, 5));
            tries += 1;
        }
        crate::ensure!(
            big <= limit * base,
            "{n} units take {:.2} ms, {} units {:.2} ms: {k} times the input takes {:.0} times as long",
            base * 1e3,
            n * k,
            big * 1e3,
            big / base
        );
        if k == 64 {
            let per_unit = big / base / k as f64;
            cx.label(match per_unit {
                x if x < 1.5 => "time per unit: below 1.5 x",
                x if x < 3.0 => "time per unit: below 3 x",
                x if x < 5.0 => "time per unit: below 5 x",
                _ => "time per unit: below 10 x",
            });
        }
    }
    Ok(())
}

const PIECES: [&str; 58] = [
    "<", "&", "%", ">", "]", "]]>", "-", "--", "<!--", "-->", "<!", "<!>", "<?", "<?p>", "<a>", "</a>", "<a", "</", "/>", "/", " ", "\n",
    "'", "\"", "=", "x", "&#65;", "&#x41", "&x;", "&nope;", "&#", "%pinc;", "é", "日本", "<![CDATA[", "<![IGNORE[", "<![RCDATA[", "]]",
    "<![CDATA[x]]>", "<![IGNORE[x]]>", "<![INCLUDE[x]]>", "<!-- c -->", "<a b=c>", " b='c'", " b", "<n@>", "</n@>", "n@", " n@=1", "&n@;",
    "\r", "\t", "text ", "<b>t</b>", "<!DOCTYPE x>", "<!x y>", "<>", "</>",
];

/// A piece of input that is repeated; `@` stands for the number of the repetition.
fn unit(s: &mut Src, cfg: &Cfg) -> String {
    match s.below(6) {
        0 => {
            let o = Opts { invalid: s.one_in(4), ..Opts::default() };
            let g = G { cfg, o: &o };
            let mut t = String::new();
            for i in g.items(s, 2, true) {
                doc::render_item(&i, &mut t);
            }
            t.replace('@', "")
        }
        1 => gen::any_string(s, 8).replace(['@', '['], ""),
        _ => (0..1 + s.below(4)).map(|_| *s.pick(&PIECES)).collect(),
    }
}

fn repeated(unit: &str, n: usize) -> String {
    if !unit.contains('@') {
        return unit.repeat(n);
    }
    let mut o = String::with_capacity((unit.len() + 6) * n);
    for i in 0..n {
        let i = i.to_string();
        for (k, part) in unit.split('@').enumerate() {
            if k > 0 {
                o.push_str(&i);
            }
            o.push_str(part);
        }
    }
    o
}

const PLACES: [(&str, &str); 27] = [
    ("<r>", "</r>"),
    ("", ""),
    ("", "<r>x</r>"),
    ("<r></r>", ""),
    ("<r a=\"", "\"></r>"),
    ("<r a='", "'></r>"),
    ("<r a=", "></r>"),
    ("<r ", "></r>"),
    ("<r", "/>"),
    ("<r></", "></r>"),
    ("<r><!--", "--></r>"),
    ("<!", "><r></r>"),
    ("<!DOCTYPE x ", "><r></r>"),
    ("<!DOCTYPE x [", "]><r></r>"),
    ("<!DOCTYPE x \"", "\"><r></r>"),
    ("<?", "><r></r>"),
    ("<r><![CDATA[", "]]></r>"),
    ("<r><![RCDATA[", "]]></r>"),
    ("<r><![IGNORE[", "]]></r>"),
    ("<r><![INCLUDE[", "]]></r>"),
    ("<![INCLUDE[", "]]><r></r>"),
    ("<r><![", "[x]]></r>"),
    ("<r><![ CDATA ", " [x]]></r>"),
    ("<r>\n\n", "\n</x y></r>"),
    ("<r>", "</r"),
    ("<r>&nope;", "</r>"),
    ("<r x='&nope;'>", "</r>"),
];

/// Sections that open faster than they close nest: the time then also depends on the depth,
/// and the memory on the stack.
fn nests(head: &str, unit: &str) -> bool {
    let opaque = ["CDATA[", "IGNORE["].iter().any(|k| head.ends_with(k)) && !unit.contains("]]>");
    let opens = unit.matches("<![").count();
    if opaque {
        return false;
    }
    // `[` in a declaration, and INCLUDE sections
    let groups = unit.matches('[').count() > 2 * opens;
    groups || (opens > 0 && unit.matches("]]>").count() < opens && (unit.contains("INCLUDE") || unit.contains("TEMP") || unit.contains("<![[")))
        || (opens > 0 && head.contains("INCLUDE") && unit.matches("]]>").count() < opens)
}

struct Input {
    head: &'static str,
    unit: String,
    tail: &'static str,
}
impl Input {
    fn gen(s: &mut Src, cfg: &Cfg) -> Input {
        let (head, tail) = *s.pick(&PLACES);
        let tail = if s.one_in(5) { "" } else { tail };
        Input { head, unit: unit(s, cfg), tail }
    }
    fn text(&self, n: usize) -> String {
        format!("{}{}{}", self.head, repeated(&self.unit, n), self.tail)
    }
    /// The number of units at which an input is long enough in any case
    fn max(&self) -> usize {
        (20_000 / self.unit.len().max(1)).max(64)
    }
}

fn c30_parse(s: &mut Src, cx: &mut Ctx) -> R {
    let cfg = gen::cfg(s);
    let i = Input::gen(s, &cfg);
    cx.case(&(i.head, &i.unit, i.tail, &cfg), || format!("{cfg:?}\n{:?} + n * {:?} + {:?}", i.head, i.unit, i.tail));
    crate::assume!(!i.unit.is_empty() && i.unit.len() < 400 && !nests(i.head, &i.unit));
    let p = cfg.build();
    match p.parse(&i.text(50)) {
        Ok(_) => cx.label("accepted"),
        Err(_) => cx.label("rejected"),
    }
    cx.nontrivial_if(true);
    proportional(cx, i.max(), &|n| i.text(n), &|t| {
        // (with the rendering of the error)
        let _ = p.parse(&t);
    })
}

fn fragment<'a>(cfg: &Cfg, t: &'a str) -> Option<SgmlFragment<'a>> {
    cfg.build().parse(t).ok()
}

fn c30_work(s: &mut Src, cx: &mut Ctx) -> R {
    let cfg = Cfg { ents: None, ..gen::cfg(s) };
    let what = s.below(8);
    let i = match what {
        0..=2 => Input { head: "", unit: unit(s, &cfg), tail: "" },
        _ => {
            let (head, tail) = *s.pick(&[("<r>", "</r>"), ("<r ", "></r>"), ("", ""), ("<r a='", "'/>")]);
            Input { head, unit: unit(s, &cfg), tail }
        }
    };
    let k = s.range(1, 3);
    cx.case(&(what, i.head, &i.unit, i.tail, k), || format!("operation {what} with {:?} + n * {:?} + {:?} ({k})", i.head, i.unit, i.tail));
    crate::assume!(!i.unit.is_empty() && i.unit.len() < 400 && !nests(i.head, &i.unit));
    cx.nontrivial_if(true);
    match what {
        0 => {
            cx.label("expand");
            proportional(cx, i.max(), &|n| i.text(n), &|t| {
                let _ = sgmlish::entities::expand_entities(&t, |n| (n.len() % 3 > 0).then(|| "value &x; "));
                let _ = sgmlish::entities::expand_parameter_entities(&t, |_| Some(""));
            })
        }
        1 => {
            cx.label("escape");
            proportional(cx, i.max(), &|n| i.text(n), &|t| {
                let e = sgmlish::text::escape(&t);
                let _ = e.to_string();
                let _ = e.collect::<String>();
            })
        }
        2 => {
            cx.label("keywords");
            let words = ["CDATA ", "INCLUDE\n", "IGNORE \t", "TEMP "];
            let u = if k > 1 { words[i.unit.len() % 4] } else { &i.unit };
            proportional(cx, i.max(), &|n| repeated(u, n), &|t| {
                let _ = sgmlish::marked_sections::MarkedSectionStatus::from_keywords(&t);
            })
        }
        _ => {
            crate::assume!(fragment(&cfg, &i.text(50)).is_some());
            // The fragment is made from a text that outlives it
            let make = |n: usize| {
                let t = i.text(n);
                fragment(&cfg, &t).map(|f| f.into_owned()).unwrap_or_else(|| vec![].into())
            };
            match what {
                3 | 4 => {
                    cx.label("normalize end tags");
                    proportional(cx, i.max(), &make, &|f| {
                        let _ = normalize_end_tags(f);
                    })
                }
                5 => {
                    cx.label("format");
                    proportional(cx, i.max(), &make, &|f| {
                        let _ = f.to_string();
                    })
                }
                6 => {
                    cx.label("detach");
                    proportional(cx, i.max(), &make, &|f| {
                        let g = f.clone().into_owned();
                        assert!(g == f);
                        let _ = g.into_iter().count();
                    })
                }
                _ => {
                    cx.label("transform");
                    let rev = i.unit.len() % 2 == 0;
                    proportional(cx, i.max(), &make, &|f| {
                        let mut t = Transform::new();
                        let len = f.len();
                        for j in 0..len {
                            let at = if rev { len - 1 - j } else { j * 7919 % len };
                            if j % k == 0 {
                                t.remove_at(at);
                            }
                            if j % 2 == 0 {
                                t.insert_at(at, SgmlEvent::Character("x".into()));
                            }
                        }
                        let _ = t.apply(f);
                    })
                }
            }
        }
    }
}

mod target {
    use serde::de::{Deserialize, Deserializer, IgnoredAny, MapAccess, SeqAccess, Visitor};
    use std::fmt;

    /// Whatever is there, kept in lists.
    #[derive(Debug)]
    pub enum Tree {
        Text(String),
        Unit,
        Map(Vec<(String, Tree)>),
    }
    struct V;
    impl<'de> Visitor<'de> for V {
        type Value = Tree;
        fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("anything")
        }
        fn visit_str<E>(self, v: &str) -> Result<Tree, E> {
            Ok(Tree::Text(v.into()))
        }
        fn visit_unit<E>(self) -> Result<Tree, E> {
            Ok(Tree::Unit)
        }
        fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Tree, A::Error> {
            let mut m = vec![];
            while let Some(e) = a.next_entry()? {
                m.push(e);
            }
            Ok(Tree::Map(m))
        }
    }
    impl<'de> Deserialize<'de> for Tree {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Tree, D::Error> {
            d.deserialize_any(V)
        }
    }

    /// Keys alone.
    pub struct Keys(pub usize);
    struct K;
    impl<'de> Visitor<'de> for K {
        type Value = Keys;
        fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("a map")
        }
        fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Keys, A::Error> {
            let mut n = 0;
            while a.next_entry::<String, IgnoredAny>()?.is_some() {
                n += 1;
            }
            Ok(Keys(n))
        }
        fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Keys, A::Error> {
            let mut n = 0;
            while a.next_element::<IgnoredAny>()?.is_some() {
                n += 1;
            }
            Ok(Keys(n))
        }
    }
    impl<'de> Deserialize<'de> for Keys {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Keys, D::Error> {
            d.deserialize_map(K)
        }
    }

    #[derive(serde::Deserialize)]
    #[allow(dead_code)]
    pub struct Row {
        a: Option<String>,
        b: Option<bool>,
        #[serde(rename = "$value", default)]
        text: Option<String>,
    }
    #[derive(serde::Deserialize)]
    #[allow(dead_code)]
    pub struct Rows {
        #[serde(default)]
        row: Vec<Row>,
        #[serde(default)]
        pair: Vec<(u32, String)>,
        #[serde(default)]
        one: Vec<One>,
        end: Option<()>,
    }
    #[derive(serde::Deserialize)]
    #[serde(rename_all = "lowercase")]
    #[allow(dead_code)]
    pub enum One {
        A,
        B(String),
        Row { a: Option<String> },
        C(i32),
    }
    #[derive(serde::Deserialize)]
    #[allow(dead_code)]
    pub struct Any {
        #[serde(rename = "$value", default)]
        all: Vec<One>,
    }
}

const ROWS: [&str; 27] = [
    "<row>text</row>", "<row a='1' b>t &#65; x</row>", "<pair>1</pair><pair>x</pair>", "<one><a></a></one>", "<one>a</one>",
    "<one><b>x</b></one>", "<one><row a='1'></row></one>", "<a></a>", "<b>x</b>", "<row a='1'></row>", "<c>5</c>", "<k@>x</k@>",
    "<other><deep>x</deep> y</other>", "<row></row>", "text", "<![CDATA[ ]]>", "x<!-- c -->", "&#32;", "<k@ a@='1' b@>x</k@>",
    "<other a b c d>x</other>", "<end></end>", "\n  ", "<row><![CDATA[x]]>y<![CDATA[z]]></row>", "<x>", "</x>", "<one><c>7</c></one>", " a@='x'",
];

fn c30_deserialize(s: &mut Src, cx: &mut Ctx) -> R {
    let cfg = Cfg { trim: s.below(4) != 0, ..Cfg::default() };
    let what = s.below(8);
    let (head, tail) = *s.pick(&[("<r>", "</r>"), ("<r>", "</r>"), ("<r x='1'>", "<end></end></r>"), ("<r><row>", "</row></r>"), ("<r", "></r>"), ("<r>", "")]);
    let i = Input { head, unit: (0..1 + s.below(2)).map(|_| *s.pick(&ROWS)).collect(), tail };
    cx.case(&(what, i.head, &i.unit, i.tail, cfg.trim), || {
        format!("target {what}, trim {}, from {:?} + n * {:?} + {:?}", cfg.trim, i.head, i.unit, i.tail)
    });
    // Targets that nest as the document does are for bounded depths
    let open = i.unit.matches("<x>").count() != i.unit.matches("</x>").count() && what == 0;
    crate::assume!(!open && fragment(&cfg, &i.text(50)).is_some());
    cx.nontrivial_if(true);
    let make = |n: usize| {
        let t = i.text(n);
        fragment(&cfg, &t).map(|f| f.into_owned()).unwrap_or_else(|| vec![].into())
    };
    fn read<T: serde::de::DeserializeOwned>(f: SgmlFragment<'static>) -> bool {
        sgmlish::from_fragment::<T>(f).is_ok()
    }
    let act: fn(SgmlFragment<'static>) -> bool = match what {
        0 => read::<target::Tree>,
        1 => read::<target::Keys>,
        2 | 3 => read::<target::Rows>,
        4 => read::<target::Any>,
        5 => read::<String>,
        6 => read::<HashMap<String, String>>,
        _ => read::<HashMap<String, ()>>,
    };
    cx.label(if act(make(50)) { "a value" } else { "an error" });
    proportional(cx, i.max(), &make, &|f| {
        act(f);
    })
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C30",
        rule: "Inputs of a random unit repeated in a random place (text, tags, values, every kind of declaration and section, terminated or not): the processor time at a base size (0.25 ms or 20 KB) is compared with that at 4, 16 and 64 times the size; a time per unit that grows by more than 10 times is a violation. Non-trivial: all, units that nest are discarded.",
        subs: vec![
            sub("parse", c30_parse, 900),
            sub("work", c30_work, 500),
            sub("deserialize", c30_deserialize, 500),
        ],
        probes: vec![],
    }]
}
