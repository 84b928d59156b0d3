//! What a template confirmed by a real compilation may use: the names the symbolic interpreter knows.
pub use askama;
use std::cell::Cell;
use std::fmt::Display;
thread_local! { static COUNT: Cell<i64> = const { Cell::new(0) } }
pub fn count() -> i64 { COUNT.with(|c| { c.set(c.get() + 1); c.get() }) }
pub fn reset() { COUNT.with(|c| c.set(0)) }
pub mod filters {
    use super::*;
    pub fn wrap(a: impl Display, b: impl Display) -> askama::Result<String> { Ok(format!("{b}{a}{b}")) }
    pub fn mark(a: impl Display) -> askama::Result<String> { Ok(format!("[{a}]")) }
    pub fn tick(a: impl Display) -> askama::Result<String> { let a = a.to_string(); Ok(format!("{a}{}", count())) }
}
#[derive(Default, Clone, Debug)]
pub struct Nested { pub x: i64, pub y: &'static str, pub z: Option<i64>, pub w: (i64, &'static str), pub v: Ints }
#[derive(Clone, Debug, PartialEq)]
pub enum Color { Red, Green, Blue, Rgb(i64), Pair(i64, i64) }
pub const SEVEN: i64 = 7;
/// a list of numbers which yields them by value, so that templates can compare them
#[derive(Default, Clone, Debug, PartialEq)]
pub struct Ints(pub Vec<i64>);
impl<'a> IntoIterator for &'a Ints { type Item = i64; type IntoIter = std::iter::Copied<std::slice::Iter<'a, i64>>; fn into_iter(self) -> Self::IntoIter { self.0.iter().copied() } }
impl IntoIterator for Ints { type Item = i64; type IntoIter = std::vec::IntoIter<i64>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl Ints { pub fn len(&self) -> i64 { self.0.len() as i64 } }
impl std::ops::Index<usize> for Ints { type Output = i64; fn index(&self, i: usize) -> &i64 { &self.0[i] } }
/// an escaper of one's own
pub struct Shout;
impl askama_escape::Escaper for Shout { fn write_escaped<W: std::fmt::Write>(&self, mut f: W, s: &str) -> std::fmt::Result { f.write_str(&s.to_ascii_uppercase()) } }
