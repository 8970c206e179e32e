//! Contracts of the ass-core crate as executable predicates.
use crate::fw::*;

#[path = "c_text.rs"]
mod c_text;
#[path = "c_parse.rs"]
mod c_parse;
#[path = "c_analysis.rs"]
pub mod c_analysis;

pub fn run(p: &str, cx: &mut Cx) -> bool {
    match p {
        "C01" => c_text::time(cx),
        "C02" => c_text::colour(cx),
        "C03" => c_text::uu(cx),
        "C04" => c_parse::positions(cx),
        "C05" => c_parse::edits(cx),
        "C06" => c_parse::tokens(cx),
        "C07" => c_parse::parser(cx),
        "C08" => c_analysis::overlaps(cx),
        "C09" => c_analysis::tags(cx),
        "C10" => c_analysis::scores(cx),
        "C11" => c_parse::batch(cx),
        "C12" => c_text::utf8(cx),
        "C13" => c_parse::streaming(cx),
        "C14" => c_analysis::styles(cx),
        "C15" => c_analysis::lint(cx),
        _ => return false,
    }
    true
}

pub const ODD: &[&str] = &["a", "b", "Z", "0", "9", " ", "\t", ",", ":", ";", "[", "]", "{", "}", "\\", "\n", "\r", "\r\n", "!", "!:", "#", "&H", "é", "界", "🎬", "\u{FEFF}", "\u{a0}", "\u{2028}", "e\u{301}", ".", "-", "*", "(", ")", "\\N", "\\n", "\\h"];

pub fn odd(r: &mut Rng, max: usize) -> String { r.string(ODD, max) }

pub fn time_str(cs: u32) -> String { format!("{}:{:02}:{:02}.{:02}", cs / 360000, cs / 6000 % 60, cs / 100 % 60, cs % 100) }

const WORDS: &[&str] = &["Hello", "wörld", "日本語", "{\\b1}", "{\\i1\\fs20}", "{\\t(0,100,\\fscx50)}", ",", ", ", "a:b", "\\N", "\\h", "🎬", ";x", "x]", "!", "{\\pos(1,2)}", "{", "}", " ", "#", "[x"];

/// One line of event text without line breaks.
pub fn text(r: &mut Rng, max: usize) -> String { r.string(WORDS, max) }

pub fn style_line(r: &mut Rng, i: usize) -> String {
    let n = if r.chance(1, 6) { "Défaut".to_string() } else { format!("S{i}") };
    let par = if r.chance(1, 5) { format!("*S{},", r.us(i + 1)) } else { String::new() };
    format!("Style: {par}{n},Arial,{},&H00FFFFFF,&H000000FF,&H00000000,&H80000000,{},0,0,0,100,{},0,0,1,2,{},{},10,20,{},1",
        10 + r.us(60), r.us(2), 50 + r.us(100), r.us(4), 1 + r.us(9), r.us(90))
}
pub fn event_line(r: &mut Rng) -> String {
    let k = *r.pick(&["Dialogue", "Dialogue", "Dialogue", "Comment", "Picture", "Sound", "Movie", "Command"]);
    let s = r.below(100_000) as u32;
    let e = s + r.below(5_000) as u32;
    let n = *r.pick(&["", "Bob", "Ä name"]);
    format!("{k}: {},{},{},S{},{n},0,{},0,{},{}", r.us(5), time_str(s), time_str(e), r.us(4), r.us(30), *r.pick(&["", "Scroll up;1", "fx"]), text(r, 6))
}

#[derive(Clone, Copy, Default)]
pub struct Opt { pub canonical: bool, pub bom: bool }

/// A script made of the usual sections; `canonical`: each section once, no junk between sections.
pub fn script(r: &mut Rng, o: Opt) -> String {
    let nl = if r.chance(1, 4) { "\r\n" } else { "\n" };
    let mut s = String::new();
    if o.bom && r.chance(1, 6) { s.push('\u{FEFF}'); }
    let mut secs: Vec<usize> = (0..5).filter(|_| r.chance(3, 4)).collect();
    if r.chance(1, 2) { for i in (1..secs.len()).rev() { let j = r.us(i + 1); secs.swap(i, j); } }
    if !o.canonical { for _ in 0..r.us(3) { secs.push(r.us(6)); } }
    let filler = |r: &mut Rng, s: &mut String| {
        for _ in 0..r.us(3) {
            match r.us(4) { 0 => {} 1 => s.push_str("  "), 2 => s.push_str("; a comment é"), _ => s.push('\t') }
            s.push_str(nl);
        }
    };
    for k in secs {
        if !o.canonical && r.chance(1, 8) { s.push_str(&odd(r, 12)); s.push_str(nl); }
        if r.chance(1, 2) { filler(r, &mut s); }
        match k {
            0 => {
                s.push_str("[Script Info]"); s.push_str(nl);
                for _ in 0..r.us(5) {
                    if r.chance(1, 4) { filler(r, &mut s); }
                    let l = match r.us(6) { 0 => "Title: Tëst : x".into(), 1 => "ScriptType: v4.00+".into(), 2 => format!("PlayResX: {}", r.us(2000)), 3 => "WrapStyle:0".into(), 4 => format!("Key{}: {}", r.us(9), text(r, 3)), _ => "junk line".to_string() };
                    s.push_str(&l); s.push_str(nl);
                }
            }
            1 => {
                s.push_str(*r.pick(&["[V4+ Styles]", "[V4 Styles]", "[ V4+ Styles ]"])); s.push_str(nl);
                if r.chance(3, 4) {
                    let f = "Format: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding";
                    if r.chance(1, 5) { s.push_str(&f.to_lowercase().replace("format", "Format")) } else { s.push_str(f) }
                    s.push_str(nl);
                }
                for i in 0..r.us(4) { if r.chance(1, 4) { filler(r, &mut s); } s.push_str(&style_line(r, i)); s.push_str(nl); }
            }
            2 => {
                s.push_str("[Events]"); s.push_str(nl);
                match r.us(6) {
                    0 => {}
                    1 => { s.push_str("Format: layer, start, END, style, name, marginl, marginr, marginv, effect, text"); s.push_str(nl); }
                    2 => { s.push_str("Format: Layer, Start, End, Style, Name, MarginL, MarginR, MarginT, Effect, Text"); s.push_str(nl); }
                    _ => { s.push_str("Format: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text"); s.push_str(nl); }
                }
                for _ in 0..r.us(6) {
                    if r.chance(1, 4) { filler(r, &mut s); }
                    if r.chance(1, 12) { s.push_str("Dialogue: too,few"); s.push_str(nl); }
                    if r.chance(1, 8) { s.push_str("  "); }
                    s.push_str(&event_line(r)); s.push_str(nl);
                }
            }
            3 => {
                s.push_str("[Fonts]"); s.push_str(nl);
                for i in 0..r.us(3) { s.push_str(&format!("fontname: f{i}.ttf{nl}")); for _ in 0..r.us(4) { s.push_str(&uu_line(r)); s.push_str(nl); } if r.chance(1, 3) { s.push_str(nl); } }
            }
            4 => {
                s.push_str("[Graphics]"); s.push_str(nl);
                for i in 0..r.us(3) { s.push_str(&format!("filename: g{i}.png{nl}")); for _ in 0..r.us(3) { s.push_str(&uu_line(r)); s.push_str(nl); } }
            }
            _ => { s.push_str("[Unknown X]"); s.push_str(nl); for _ in 0..r.us(3) { s.push_str(&event_line(r)); s.push_str(nl); } }
        }
    }
    if r.chance(1, 4) { while s.ends_with(['\n', '\r']) { s.pop(); } }
    s
}
fn uu_line(r: &mut Rng) -> String {
    let n = 4 * (1 + r.us(5));
    let mut s = String::from((b' ' + 3 + r.us(40) as u8) as char);
    for _ in 0..n { let c = (b'!' + r.us(58) as u8) as char; s.push(if c == '[' || c == ';' || c == ':' { 'A' } else { c }); }
    s
}
