//! Stand-in for the part of text-utils 0.2.5 that sm_ast uses.
pub fn capitalize_first_letter(s: &str) -> String {
    let mut c = s.chars();
    c.next().map_or(String::new(), |f| f.to_uppercase().collect::<String>() + c.as_str())
}
