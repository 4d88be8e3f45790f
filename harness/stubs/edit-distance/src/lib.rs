//! Stub used only in the symbolically executed build: the distance decides
//! nothing but the wording of a "did you mean" suggestion for an unknown
//! long name.  3 is "too far away": no suggestion is made.
pub fn edit_distance(_a: &str, _b: &str) -> usize {
    3
}
