//! Deep and long inputs, each run in a process of its own on an ordinary stack.

use crate::engine::Probe;
use sgmlish::parser::MarkedSectionHandling;
use sgmlish::Parser;

fn accept(mode: MarkedSectionHandling, s: String) -> Result<usize, String> {
    Parser::builder()
        .marked_section_handling(mode)
        .parse(&s)
        .map(|f| f.len())
        .map_err(|e| format!("rejected: {}", crate::engine::cut(&e.to_string(), 200)))
}
fn total(mode: MarkedSectionHandling, s: String) -> Result<(), String> {
    if let Err(e) = Parser::builder().marked_section_handling(mode).parse(&s) {
        let _ = e.to_string();
    }
    Ok(())
}
fn expect(n: usize, r: Result<usize, String>) -> Result<(), String> {
    match r {
        Ok(k) if k == n => Ok(()),
        Ok(k) => Err(format!("{k} events, expected {n}")),
        Err(e) => Err(e),
    }
}
use MarkedSectionHandling::*;

const DEEP: usize = 100_000;

fn rep(s: &str, n: usize) -> String {
    s.repeat(n)
}

pub fn c01() -> Vec<Probe> {
    macro_rules! p {
        ($n:literal, $e:expr) => {
            Probe {
                name: $n,
                f: || $e,
            }
        };
    }
    vec![
        p!("deep-tags", expect(3 * DEEP, accept(ExpandAll, rep("<a>", DEEP) + &rep("</a>", DEEP)))),
        p!("many-attributes", expect(DEEP + 2, accept(ExpandAll, format!("<a{}>", rep(" b=c", DEEP))))),
        p!("many-comments", expect(3, accept(ExpandAll, format!("<a>{}</a>", rep("<!-- c -->", DEEP))))),
        p!("many-prolog-comments", expect(2, accept(ExpandAll, format!("{}<a>", rep("<!-- c -->\n", DEEP))))),
        p!("many-declarations", expect(DEEP + 2, accept(ExpandAll, format!("{}<a>", rep("<!D x>\n", DEEP))))),
        p!("many-references", expect(3, accept(ExpandAll, format!("<a>{}", rep("&#65;", DEEP))))),
        p!("many-less-than", expect(3, accept(ExpandAll, format!("<a>{}", rep("< ", DEEP))))),
        p!("many-cdata", expect(DEEP + 2, accept(ExpandAll, format!("<a>{}", rep("<![CDATA[x]]>", DEEP))))),
        p!("many-include", expect(DEEP + 2, accept(ExpandAll, format!("<a>{}", rep("<![INCLUDE[x]]>", DEEP))))),
        p!("many-ignore", expect(2, accept(ExpandAll, format!("<a>{}", rep("<![IGNORE[x]]>", DEEP))))),
        p!("deep-ignore", expect(2, accept(ExpandAll, format!("<a>{}{}", rep("<![IGNORE[", DEEP), rep("]]>", DEEP))))),
        p!("deep-ignore-kept", expect(3, accept(KeepUnmodified, format!("<a>{}{}", rep("<![IGNORE[", DEEP), rep("]]>", DEEP))))),
        p!("deep-ignore-open", total(ExpandAll, format!("<a>{}", rep("<![IGNORE[", DEEP)))),
        p!("many-ignored-pairs", expect(2, accept(ExpandAll, format!("<a><![IGNORE[{}]]>", rep("<![x[y]]>", DEEP))))),
        p!("many-ignored-pairs-open", total(ExpandAll, format!("<a><![IGNORE[{}", rep("<![x[y]]>", DEEP)))),
        p!("many-declaration-brackets", expect(3, accept(ExpandAll, format!("<!D {}><a>", rep("[]", DEEP))))),
        p!("long-declaration", expect(3, accept(ExpandAll, format!("<!D {}><a>", rep("a \"b\" --c-- ", DEEP))))),
        p!("long-name", expect(2, accept(ExpandAll, format!("<{}>", rep("aé", DEEP))))),
        p!("long-bad-line", total(ExpandAll, format!("<a>{}<b x=", rep("é", DEEP)))),
        p!("many-lines-bad", total(ExpandAll, format!("<a>{}<b x=", rep("é\n", DEEP)))),
        p!("some-deep-include", expect(2, accept(ExpandAll, format!("<a>{}{}", rep("<![INCLUDE[", 120), rep("]]>", 120))))),
        p!("some-deep-subset", expect(3, accept(ExpandAll, format!("<!D {}{}><a>", rep("[", 120), rep("]", 120))))),
        p!("some-deep-declaration", expect(3, accept(ExpandAll, format!("<!D [{}{}]><a>", rep("<!E [", 120), rep("]>", 120))))),
        p!("deep-include", expect(2, accept(ExpandAll, format!("<a>{}{}", rep("<![INCLUDE[", DEEP), rep("]]>", DEEP))))),
        p!("deep-include-kept", expect(3, accept(KeepUnmodified, format!("<a>{}{}", rep("<![INCLUDE[", DEEP), rep("]]>", DEEP))))),
        p!("deep-subset", expect(3, accept(ExpandAll, format!("<!D {}{}><a>", rep("[", DEEP), rep("]", DEEP))))),
        p!("deep-declaration", expect(3, accept(ExpandAll, format!("<!D [{}{}]><a>", rep("<!E [", DEEP), rep("]>", DEEP))))),
    ]
}

mod deep {
    use serde::Deserialize;
    use std::collections::BTreeMap;
    #[derive(Deserialize)]
    pub struct Nest {
        pub a: Option<Box<Nest>>,
    }
    impl Nest {
        pub fn depth(&self) -> usize {
            let (mut n, mut x) = (1, &self.a);
            while let Some(y) = x {
                n += 1;
                x = &y.a;
            }
            n
        }
    }
    #[derive(Deserialize)]
    pub enum E {
        #[serde(rename = "a")]
        A(Box<E>),
        #[serde(rename = "b")]
        B,
    }
    #[derive(Deserialize)]
    pub struct Lists(#[allow(dead_code)] pub Vec<Lists>);
    #[derive(Deserialize)]
    #[serde(untagged)]
    pub enum Any {
        #[allow(dead_code)]
        Num(i32),
        Text(String),
        Map(BTreeMap<String, Any>),
    }
    impl Any {
        pub fn depth(&self) -> usize {
            match self {
                Any::Map(m) => 1 + m.values().map(|v| v.depth()).max().unwrap_or(0),
                _ => 0,
            }
        }
    }
    #[derive(Deserialize)]
    pub struct Known {
        pub k: u8,
    }
    #[derive(Deserialize)]
    pub struct Items {
        #[serde(default)]
        pub item: Vec<String>,
        pub last: u8,
    }
    #[derive(Deserialize)]
    pub struct Content {
        #[serde(rename = "$value")]
        pub text: String,
    }
    #[derive(Deserialize)]
    pub struct Contents {
        #[serde(rename = "$value")]
        pub items: Vec<Kind>,
    }
    #[derive(Deserialize)]
    pub enum Kind {
        #[serde(rename = "u")]
        U,
        #[serde(rename = "s")]
        S(String),
    }
}

fn des<T: serde::de::DeserializeOwned>(src: &str, check: impl FnOnce(T) -> bool) -> Result<(), String> {
    let f = Parser::builder().trim_whitespace(false).parse(src).map_err(|e| e.to_string())?;
    match sgmlish::from_fragment::<T>(f) {
        Ok(v) => check(v).then_some(()).ok_or("another value".into()),
        Err(e) => Err(format!("rejected: {e}")),
    }
}
fn des_err<T: serde::de::DeserializeOwned>(src: &str) -> Result<(), String> {
    let f = Parser::builder().trim_whitespace(false).parse(src).map_err(|e| e.to_string())?;
    match sgmlish::from_fragment::<T>(f) {
        Ok(_) => Err("a value".into()),
        Err(_) => Ok(()),
    }
}
fn nest(n: usize) -> String {
    rep("<a>", n) + &rep("</a>", n)
}

pub fn c21() -> Vec<Probe> {
    use deep::*;
    macro_rules! p {
        ($n:literal, $e:expr) => {
            Probe {
                name: $n,
                f: || $e,
            }
        };
    }
    vec![
        p!("deep-ignored", des::<Known>(&format!("<r>{}<k>7</k></r>", nest(DEEP)), |v| v.k == 7)),
        p!("deep-ignored-open", des_err::<Known>(&format!("<r><k>7</k>{}", rep("<a>", DEEP)))),
        p!("deep-unit", des::<()>(&nest(DEEP), |_| true)),
        p!("deep-text", des::<String>(&format!("{}x{}", rep("<a>y", DEEP), rep("z</a>", DEEP)), |v| v.len() == 2 * DEEP + 1)),
        p!("deep-text-open", des_err::<String>(&rep("<a>y", DEEP))),
        p!("long-text", des::<String>(&format!("<a>{}</a>", rep("xé<!---->", DEEP)), |v| v.len() == 3 * DEEP)),
        p!("long-content", des::<Content>(&format!("<a>{}</a>", rep("x<!---->", DEEP)), |v| v.text.len() == DEEP)),
        p!("long-series", des::<Items>(&format!("<a>{}<last>3</last></a>", rep("<item>x</item>", DEEP)), |v| v.item.len() == DEEP && v.last == 3)),
        p!("long-enums", des::<Contents>(&format!("<a>{}</a>", rep("<u></u><s>x</s>", DEEP)), |v| v.items.len() == 2 * DEEP && matches!(&v.items[1], Kind::S(x) if x == "x"))),
        p!("long-unknown", des::<Known>(&format!("<a>{}<k>7</k></a>", rep("<item>x</item>text", DEEP)), |v| v.k == 7)),
        p!("long-attributes", des::<Known>(&format!("<a{} k=7></a>", rep(" b=c", DEEP)), |v| v.k == 7)),
        p!("long-map", des::<std::collections::HashMap<String, u32>>(
            &format!("<a>{}</a>", (0..DEEP).map(|i| format!("<k{i}>{i}</k{i}>")).collect::<String>()),
            |m| m.len() == DEEP && m["k99999"] == 99999
        )),
        p!("some-deep-recursive", des::<Nest>(&nest(300), |v| v.depth() == 300)),
        p!("some-deep-enum", des::<E>(&format!("{}<b></b>{}", rep("<a>", 300), rep("</a>", 300)), |mut v| {
            let mut n = 0;
            while let E::A(x) = v {
                v = *x;
                n += 1;
            }
            n == 300
        })),
        p!("some-deep-any", des::<Any>(&format!("{}1{}", rep("<a>", 40), rep("</a>", 40)), |v| v.depth() == 39)),
        p!("deep-recursive", des::<Nest>(&nest(DEEP), |v| v.depth() == DEEP)),
        p!("deep-enum", des::<E>(&format!("{}<b></b>{}", rep("<a>", DEEP), rep("</a>", DEEP)), |v| {
            std::mem::forget(v);
            true
        })),
        p!("deep-any", des::<Any>(&format!("{}1{}", rep("<a>", DEEP), rep("</a>", DEEP)), |_| true)),
        p!("recursive-series", des_err::<Lists>("<a><b></b></a>")),
    ]
}
