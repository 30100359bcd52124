pub mod mem;
pub mod misc;
pub mod parts;
pub mod stream;
pub mod trace;
pub mod work;
pub mod write;

use crate::case::Prop;

pub fn all() -> Vec<Prop> {
    let mut v = stream::props();
    v.extend(trace::props());
    v.extend(misc::props());
    v.extend(mem::props());
    v.extend(work::props());
    v.extend(write::props());
    v.extend(parts::props());
    v.sort_by_key(|p| p.id);
    v
}
