pub mod api;
pub mod cost;
pub mod de;
pub mod entries;
pub mod errors;
pub mod events;
pub mod parse;
pub mod probes;
pub mod stdlib;

use crate::engine::Prop;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(parse::props());
    v.extend(api::props());
    v.extend(de::props());
    v.extend(events::props());
    v.extend(cost::props());
    v.extend(errors::props());
    v.extend(entries::props());
    v
}
