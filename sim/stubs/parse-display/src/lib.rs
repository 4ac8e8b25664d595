//! Stand-in for parse-display: the derive forms linkspace uses.
pub use parse_display_derive::{Display, FromStr};
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseError(&'static str);
impl ParseError {
    pub const fn new() -> Self {
        ParseError("parse failed.")
    }
    pub const fn with_message(m: &'static str) -> Self {
        ParseError(m)
    }
}
impl Default for ParseError {
    fn default() -> Self {
        Self::new()
    }
}
impl std::fmt::Display for ParseError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for ParseError {}
