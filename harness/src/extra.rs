//! Types of a generated specification; codegen/c25.py puts the real tables here in its scratch copy.
use crate::kinds::Kind;
use crate::refm::V;
use crate::schema::C;
pub fn comps() -> Vec<C> {
    vec![]
}
pub fn kinds(_: &mut Vec<Kind>) {}
pub fn enum_values() -> Vec<(&'static str, Vec<V>)> {
    vec![]
}
/// union, members: code, symbol, composite or not
pub fn unions() -> Vec<(&'static str, Vec<(u64, &'static str, Option<&'static str>)>)> {
    vec![]
}
