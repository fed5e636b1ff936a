//! Offline stand-in for the `tristate` 0.1.1 crate (not in the cargo cache):
//! the three-valued flag that esprit's parser uses for strictness.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum TriState { Yes, No, Unknown }

impl From<bool> for TriState {
    fn from(b: bool) -> TriState { if b { TriState::Yes } else { TriState::No } }
}
impl Default for TriState { fn default() -> TriState { TriState::Unknown } }
