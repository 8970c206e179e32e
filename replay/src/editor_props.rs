//! Contracts of the ass-editor crate as executable predicates.
use crate::core_props::*;
use crate::fw::*;

#[path = "e_edit.rs"]
mod e_edit;
#[path = "e_events.rs"]
mod e_events;
#[path = "e_sections.rs"]
mod e_sections;
#[path = "e_misc.rs"]
mod e_misc;

pub fn run(p: &str, cx: &mut Cx) -> bool {
    match p {
        "E01" => e_edit::history(cx),
        "E02" => e_edit::positions(cx),
        "E03" => e_edit::ranges(cx),
        "E04" => e_edit::search(cx),
        "E05" => e_events::commands(cx),
        "E06" => e_misc::formats(cx),
        "E07" => e_misc::sessions(cx),
        "E08" => e_misc::channel(cx),
        "E09" => e_events::karaoke(cx),
        "E10" => e_events::fields(cx),
        "E11" => e_sections::sections(cx),
        _ => return false,
    }
    true
}

/// A document with one [Events] section in the usual order, and its number of events.
pub fn events_doc(r: &mut Rng) -> (String, usize) {
    let nl = if r.chance(1, 6) { "\r\n" } else { "\n" };
    let mut s = String::new();
    if r.chance(3, 4) { s += &format!("[Script Info]{nl}Title: [x] Format: é{nl}{nl}"); }
    if r.chance(1, 2) { s += &format!("[V4+ Styles]{nl}Format: Name, Fontname{nl}Style: S0,Arial{nl}{nl}"); }
    s += &format!("[Events]{nl}Format: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text{nl}");
    let n = r.us(6);
    for _ in 0..n {
        if r.chance(1, 6) { s += *r.pick(&["", "; note", "Picture: 0,0:00:00.00,0:00:01.00,S,,0,0,0,,x.png", "  "]); s += nl; }
        s += &clean_event(r); s += nl;
    }
    if r.chance(1, 4) { s += &format!("{nl}[Fonts]{nl}fontname: Dialogue: x{nl}Dialogue: not,an,event{nl}"); }
    if r.chance(1, 4) { while s.ends_with(['\n', '\r']) { s.pop(); } }
    (s, n)
}
/// A Dialogue or Comment line whose fields have no surrounding blanks.
pub fn clean_event(r: &mut Rng) -> String {
    let k = *r.pick(&["Dialogue", "Dialogue", "Comment"]);
    let s = if r.chance(1, 10) { r.below(u32::MAX as u64) as u32 } else { r.below(100_000) as u32 };
    let e = s.saturating_add(r.below(5_000) as u32);
    let t: String = text(r, 6).trim().to_string();
    format!("{k}: {},{},{},S{},{},{},{},{},{},{t}", r.us(5), time_str(s), time_str(e), r.us(4), *r.pick(&["", "Bob", "Ä name"]), r.us(30), r.us(9), r.us(30), *r.pick(&["", "Scroll up;1", "fx", "fade(1,2)"]))
}
