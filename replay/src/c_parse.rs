use super::*;
use crate::ensure;
use ass_core::parser::ast::{EventType, Section, SectionType, Span};
use ass_core::parser::incremental::{adjust_range_for_change, calculate_line_number, calculate_line_range, find_section_end, find_section_header_start, TextChange};
use ass_core::parser::position_tracker::PositionTracker;
use ass_core::parser::script::{EventBatch, LineContent, StyleBatch, UpdateOperation};
use ass_core::parser::{build_modified_source, calculate_delta, Event, IssueSeverity, Script, Style};
use ass_core::tokenizer::{simd, AssTokenizer, TokenType};
use ass_core::Spans;
use std::fmt::Write;
use std::ops::Range;

fn cut(s: &str) -> String { format!("{s:?}") }
fn boundary(r: &mut Rng, s: &str) -> usize { let mut k = r.us(s.len() + 1); while !s.is_char_boundary(k) { k -= 1 } k }
fn brange(r: &mut Rng, s: &str) -> Range<usize> {
    let a = boundary(r, s);
    let mut b = if r.chance(1, 2) { (a + r.us(12)).min(s.len()) } else { boundary(r, s) };
    while !s.is_char_boundary(b) { b -= 1 }
    a.min(b)..a.max(b)
}
fn line_of(s: &str, off: usize) -> usize { s.as_bytes()[..off].iter().filter(|b| **b == b'\n').count() + 1 }
fn line_start(s: &str, off: usize) -> usize { s.as_bytes()[..off].iter().rposition(|b| *b == b'\n').map_or(0, |p| p + 1) }

// ---------- C04 ----------
fn entry_spans(sc: &Script) -> Vec<Span> {
    let mut v = vec![];
    for s in sc.sections() {
        match s {
            Section::Styles(x) => v.extend(x.iter().map(|y| y.span)),
            Section::Events(x) => v.extend(x.iter().map(|y| y.span)),
            _ => {}
        }
    }
    v
}
fn data_spans(sc: &Script) -> Vec<Span> {
    let mut v = vec![];
    for s in sc.sections() {
        match s {
            Section::Fonts(x) => v.extend(x.iter().map(|y| y.span)),
            Section::Graphics(x) => v.extend(x.iter().map(|y| y.span)),
            Section::ScriptInfo(i) => v.push(i.span),
            _ => {}
        }
    }
    v
}
fn any_script(r: &mut Rng) -> String {
    match r.us(8) {
        0 => odd(r, 60),
        1 => { let mut s = script(r, Opt { canonical: false, bom: true }); let at = boundary(r, &s); s.insert_str(at, &odd(r, 6)); s }
        2 | 3 => script(r, Opt { canonical: true, bom: true }),
        _ => script(r, Opt { canonical: false, bom: true }),
    }
}
pub fn positions(cx: &mut Cx) {
    for _ in 0..cx.n(3 * 20_000) {
        let mut r = cx.rng.clone(); cx.rng.next();
        let s = odd(&mut r, 40);
        let seed = r.clone();
        cx.check("tracker_reports_real_line_and_column", || format!("{s:?} ops {}", seed.0), || {
            let mut r = seed.clone();
            let st = if r.chance(1, 2) { 0 } else { boundary(&mut r, &s) };
            let mut off = st;
            let mut t = if st == 0 { PositionTracker::new(&s) } else {
                PositionTracker::new_at(&s, st, line_of(&s, st) as u32, (st - line_start(&s, st) + 1) as u32)
            };
            let first = t.checkpoint();
            for _ in 0..12 {
                match r.us(5) {
                    0 => { let n = if r.chance(1, 8) { usize::MAX - r.us(3) } else { r.us(9) }; t.advance(n); off = off.saturating_add(n).min(s.len()); }
                    1 => { let n = r.us(s.len() + 5); t.advance_to(n); off = off.max(n.min(s.len())); }
                    2 => { t.skip_whitespace(); while off < s.len() && matches!(s.as_bytes()[off], b' ' | b'\t' | b'\r') { off += 1 } }
                    3 => { t.skip_line(); off = s.as_bytes()[off..].iter().position(|b| *b == b'\n').map_or(s.len(), |p| off + p + 1); }
                    _ => { let c = t.checkpoint(); ensure!(c.offset() == t.offset() && c.line() == t.line() && c.column() == t.column(), "checkpoint differs"); }
                }
                ensure!(t.offset() == off, "offset {} expected {off}", t.offset());
                ensure!(t.line() as usize == line_of(&s, off), "at {off} line {} expected {}", t.line(), line_of(&s, off));
                ensure!(t.column() as usize == off - line_start(&s, off) + 1, "at {off} column {} expected {}", t.column(), off - line_start(&s, off) + 1);
                ensure!(t.is_at_end() == (off == s.len()), "is_at_end at {off}");
                if s.is_char_boundary(off) { ensure!(t.remaining() == &s[off..], "remaining at {off}"); }
                let sp = t.span_from(&first);
                ensure!(sp == Span::new(st, off, line_of(&s, st) as u32, (st - line_start(&s, st) + 1) as u32), "span_from {sp:?}");
                let sp = t.span_for(3);
                ensure!((sp.start, sp.end) == (off, off + 3) && sp.line as usize == line_of(&s, off), "span_for {sp:?}");
            }
            Ok(())
        });
    }
    for _ in 0..cx.n(3 * 20_000) {
        let mut r = cx.rng.clone(); cx.rng.next();
        let s = odd(&mut r, 40);
        let g = brange(&mut r, &s);
        cx.check("line_numbers_count_line_breaks", || format!("{s:?} {g:?}"), || {
            ensure!(calculate_line_number(&s, g.start) as usize == line_of(&s, g.start), "line number of {} is {}", g.start, calculate_line_number(&s, g.start));
            let lr = calculate_line_range(&s, g.clone());
            ensure!(lr.end as usize == line_of(&s, g.end), "line range {lr:?} of {g:?} ends wrong");
            if g.start < s.len() { ensure!(lr.start as usize == line_of(&s, g.start), "line range {lr:?} of {g:?} starts wrong"); }
            Ok(())
        });
        let other = odd(&mut r, 8);
        cx.check("substring_spans_locate_their_text", || format!("{s:?} {g:?}"), || {
            let sp = Spans::new(&s);
            let sub = &s[g.clone()];
            ensure!(sp.validate_span(sub) && sp.span_offset(sub) == Some(g.start), "offset of {g:?} is {:?}", sp.span_offset(sub));
            ensure!(sp.span_line(sub) == Some(line_of(&s, g.start)), "line of {g:?}");
            ensure!(sp.span_column(sub) == Some(s[line_start(&s, g.start)..g.start].chars().count() + 1), "column of {g:?} is {:?}", sp.span_column(sub));
            ensure!(sp.substring(g.clone()) == Some(sub), "substring");
            ensure!(sp.substring(0..s.len() + 1).is_none() && sp.substring(s.len() + 2..s.len() + 3).is_none(), "substring out of range");
            if !other.is_empty() { ensure!(!sp.validate_span(&other) && sp.span_offset(&other).is_none() && sp.span_line(&other).is_none() && sp.span_column(&other).is_none(), "foreign text accepted"); }
            Ok(())
        });
    }
    for _ in 0..cx.n(3 * 12_000) {
        let mut r = cx.rng.clone(); cx.rng.next();
        let s = any_script(&mut r);
        cx.check("parsed_entries_point_at_their_line", || cut(&s), || {
            let sc = Script::parse(&s).map_err(|e| e.to_string())?;
            for sp in entry_spans(&sc) {
                let t = s.get(sp.start..sp.end).ok_or(format!("span {sp:?} does not lie in the source"))?;
                ensure!(!t.contains('\n') && !t.is_empty(), "span {sp:?} text {t:?}");
                ensure!(sp.end == s.len() || s.as_bytes()[sp.end] == b'\n', "span {sp:?} does not end its line");
                let ls = line_start(&s, sp.start);
                ensure!(s[ls..sp.start].trim().is_empty() || s[ls..sp.start].trim() == "\u{FEFF}", "span {sp:?} does not start its line: {:?} before", &s[ls..sp.start]);
                ensure!(sp.line as usize == line_of(&s, sp.start), "span {sp:?} is on line {}", line_of(&s, sp.start));
                ensure!(sp.column as usize == sp.start - ls + 1, "span {sp:?} column, expected {}", sp.start - ls + 1);
            }
            for sp in data_spans(&sc) {
                ensure!(sp.start <= sp.end && s.get(sp.start..sp.end).is_some(), "span {sp:?} does not lie in the source");
                ensure!(sp.line as usize == line_of(&s, sp.start), "span {sp:?} starts on line {}", line_of(&s, sp.start));
            }
            let lines: Vec<&str> = s.split('\n').collect();
            for i in sc.issues() {
                ensure!(i.line >= 1 && i.line <= lines.len(), "issue {:?} on line {} of {}", i.message, i.line, lines.len());
                let l = lines[i.line - 1].trim();
                let kinds = ["Dialogue:", "Comment:", "Picture:", "Sound:", "Movie:", "Command:"];
                if i.message.starts_with("Event line has") { ensure!(kinds.iter().any(|k| l.starts_with(k)), "issue {:?} points at {l:?}", i.message); }
                if i.message.starts_with("Style line has") { ensure!(l.starts_with("Style:"), "issue {:?} points at {l:?}", i.message); }
                if i.message.starts_with("Invalid script info line") { ensure!(!l.is_empty() && !l.contains(':'), "issue {:?} points at {l:?}", i.message); }
            }
            Ok(())
        });
    }
}

// ---------- C05 ----------
pub fn edit_of(r: &mut Rng, s: &str) -> (Range<usize>, String) {
    let g = match r.us(4) {
        0 => brange(r, s),
        1 => { let a = boundary(r, s); a..a }
        _ => {
            // somewhere inside a line
            let a = boundary(r, s);
            let le = s[a..].find('\n').map_or(s.len(), |p| a + p);
            let mut b = a + r.us((le - a).min(8) + 1);
            while !s.is_char_boundary(b) { b -= 1 }
            a..b
        }
    };
    let t = match r.us(9) {
        0 => odd(r, 6),
        1 => String::new(),
        2 => format!("\n{}\n", event_line(r)),
        3 => "\n[Events]\n".into(),
        4 => "\n[Script Info]\nScriptType: v4.00+\n".into(),
        5 => format!("{}", r.us(1000)),
        _ => r.string(&["x", "é", "{\\b1}", ",", " ", "1", ":", "v4.00+"], 3),
    };
    (g, t)
}
fn change(s: &str, g: &Range<usize>, t: &str) -> TextChange { TextChange { range: g.clone(), new_text: t.to_string(), line_range: calculate_line_range(s, g.clone()) } }
pub fn edits(cx: &mut Cx) {
    for _ in 0..cx.n(3 * 20_000) {
        let mut r = cx.rng.clone(); cx.rng.next();
        let s = odd(&mut r, 40);
        let g = brange(&mut r, &s);
        let t = odd(&mut r, 8);
        let want: String = format!("{}{t}{}", &s[..g.start], &s[g.end..]);
        cx.check("splice_replaces_exactly_the_range", || format!("{s:?} {g:?} {t:?}"), || {
            ensure!(build_modified_source(&s, g.clone(), &t) == want, "got {:?}", build_modified_source(&s, g.clone(), &t));
            Ok(())
        });
        let q = brange(&mut r, &s);
        cx.check("ranges_follow_their_text_through_an_edit", || format!("{s:?} range {q:?} change {g:?} -> {t:?}"), || {
            let a = adjust_range_for_change(q.clone(), &change(&s, &g, &t));
            ensure!(a.start <= a.end && a.end <= want.len(), "adjusted to {a:?} of {}", want.len());
            if g.end <= q.start || g.start >= q.end {
                ensure!(want[a.clone()] == s[q.clone()], "untouched range became {:?}", &want[a.clone()]);
            } else {
                let lo = q.start.min(g.start);
                let tail = if g.end < q.end { &s[g.end..q.end] } else { "" };
                let exp = format!("{}{t}{tail}", &s[lo..g.start]);
                ensure!(a.start == lo && want[a.clone()] == exp, "overlapping range became {a:?} {:?}, expected {exp:?}", &want[a.clone()]);
            }
            Ok(())
        });
    }
    const HEADERS: [&str; 5] = ["[Script Info]", "[V4+ Styles]", "[Events]", "[Fonts]", "[Graphics]"];
    const TYPES: [SectionType; 5] = [SectionType::ScriptInfo, SectionType::Styles, SectionType::Events, SectionType::Fonts, SectionType::Graphics];
    for _ in 0..cx.n(3 * 12_000) {
        let mut r = cx.rng.clone(); cx.rng.next();
        let s = if r.chance(1, 2) { any_script(&mut r) } else { (0..r.us(6)).map(|_| if r.chance(1, 3) { r.pick(&HEADERS).to_string() } else { odd(&mut r, 30) }).collect() };
        let hint = r.us(s.len() + 4);
        let k = r.us(5);
        cx.check("section_bounds_are_line_starts", || format!("{s:?} hint {hint} {:?}", TYPES[k]), || {
            let mut h = hint.min(s.len());
            while !s.is_char_boundary(h) { h -= 1 }
            let e = find_section_end(&s, hint, TYPES[k]).map_err(|e| e.to_string())?;
            let next = HEADERS.iter().filter_map(|x| s[h..].find(x)).min();
            match next {
                None => ensure!(e == s.len(), "no header after {h} but end {e}"),
                Some(p) => ensure!(e == line_start(&s, h + p), "next header at {} but end {e}", h + p),
            }
            match find_section_header_start(&s, hint, TYPES[k]) {
                Ok(p) => {
                    ensure!(p <= h && line_start(&s, p) == p, "header start {p} is no line start before {h}");
                    let hp = s[..h].rfind(HEADERS[k]).ok_or("reported a header that is not there".to_string())?;
                    ensure!(line_start(&s, hp) == p, "header at {hp} but start {p}");
                }
                Err(_) => {
                    let mut w = h.saturating_sub(HEADERS[k].len() + 100);
                    while !s.is_char_boundary(w) { w += 1 }
                    ensure!(!s[w..h].contains(HEADERS[k]), "missed the header within the searched window");
                }
            }
            Ok(())
        });
    }
    for _ in 0..cx.n(3 * 24_000) {
        let mut r = cx.rng.clone(); cx.rng.next();
        let s = if r.chance(2, 3) { script(&mut r, Opt { canonical: true, bom: true }).replace("junk line\r\n", "").replace("junk line\n", "").replace("Dialogue: too,few\r\n", "").replace("Dialogue: too,few\n", "") } else { any_script(&mut r) };
        let (g, t) = edit_of(&mut r, &s);
        let new = build_modified_source(&s, g.clone(), &t);
        cx.check("incremental_parse_equals_full_parse", || format!("{s:?} change {g:?} -> {t:?}"), || {
            let old = Script::parse(&s).map_err(|e| e.to_string())?;
            let full = Script::parse(&new).map_err(|e| e.to_string())?;
            let inc = old.parse_incremental(&new, &change(&s, &g, &t)).map_err(|e| e.to_string())?;
            if inc != full {
                for (i, (a, b)) in inc.sections().iter().zip(full.sections()).enumerate() { ensure!(a == b, "section {i}: incremental {a:?}\nfull {b:?}"); }
                ensure!(inc.sections().len() == full.sections().len(), "{} sections, full parse {}", inc.sections().len(), full.sections().len());
                ensure!(inc.version() == full.version(), "version {:?} / {:?}", inc.version(), full.version());
                ensure!(inc.issues() == full.issues(), "issues {:?} / {:?}", inc.issues(), full.issues());
                return Err("formats differ".into());
            }
            let d = old.parse_partial(g.clone(), &t).map_err(|e| e.to_string())?;
            let e = calculate_delta(&old, &full);
            ensure!(d.removed == e.removed && d.new_issues == e.new_issues, "partial parse removed/issues differ");
            ensure!(d.added == e.added.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>(), "partial parse added sections differ");
            ensure!(d.modified == e.modified.iter().map(|(i, x)| (*i, format!("{x:?}"))).collect::<Vec<_>>(), "partial parse modified sections differ");
            Ok(())
        });
    }
}

// ---------- C06 ----------
fn tok_script(r: &mut Rng) -> String {
    match r.us(5) {
        0 => any_script(r),
        1 => r.string(&["{\\b1", "}", "{", ",", ":", ";", "[", "]", "\r", "\n", "!:", "abcdefghijklmnopqrstuvwxyz", "é", "&HFF&", "12.5", " "], 30),
        2 => text(r, 12),
        _ => odd(r, 40),
    }
}
pub fn tokens(cx: &mut Cx) {
    for _ in 0..cx.n(3 * 30_000) {
        let mut r = cx.rng.clone(); cx.rng.next();
        let s = tok_script(&mut r);
        cx.check("tokens_cover_the_input_in_order", || cut(&s), || {
            let mut t = AssTokenizer::new(&s);
            let base = s.as_ptr() as usize;
            let mut at = if s.starts_with('\u{FEFF}') { 3 } else { 0 };
            ensure!(t.position() == at && t.line() == 1 && t.column() == 1, "start position");
            let (mut line, mut col, mut last) = (1usize, 1usize, ' ');
            let mut step = |txt: &str| -> (usize, usize) {
                for c in txt.chars() {
                    match c { '\r' => { line += 1; col = 1 } '\n' => { if last != '\r' { line += 1 } col = 1 } _ => col += 1 }
                    last = c;
                }
                (line, col)
            };
            let mut n = 0;
            let mut all = vec![];
            loop {
                let tk = match t.next_token() { Ok(Some(x)) => x, Ok(None) => break, Err(e) => return Err(format!("token {n}: {e}")) };
                n += 1;
                ensure!(n <= s.len() + 1, "does not terminate");
                let p = tk.span.as_ptr() as usize;
                ensure!(p >= base && p + tk.span.len() <= base + s.len(), "token {tk:?} is no slice of the source");
                let p = p - base;
                ensure!(p >= at, "token {tk:?} overlaps the one before it");
                ensure!(!tk.span.is_empty(), "empty token {tk:?} at {p}");
                let gap = &s[at..p];
                ensure!(gap.chars().all(|c| c.is_whitespace() && c != '\n' && c != '\r'), "text {gap:?} at {at} is in no token");
                let (l, c) = step(gap);
                ensure!((tk.line, tk.column) == (l, c), "token {tk:?} at {p}: position {}:{}, expected {l}:{c}", tk.line, tk.column);
                let (l, c) = step(tk.span);
                at = p + tk.span.len();
                ensure!(t.position() == at && t.line() == l && t.column() == c, "after {tk:?}: {}@{}:{}, expected {at}@{l}:{c}", t.position(), t.line(), t.column());
                let f = tk.span.chars().next().unwrap();
                match tk.token_type {
                    TokenType::Newline => ensure!(matches!(tk.span, "\n" | "\r" | "\r\n"), "newline token {tk:?}"),
                    TokenType::Comma => ensure!(tk.span == ",", "comma token {tk:?}"),
                    TokenType::Colon => ensure!(tk.span == ":", "colon token {tk:?}"),
                    TokenType::SectionClose => ensure!(tk.span == "]", "token {tk:?}"),
                    TokenType::OverrideClose => ensure!(tk.span == "}", "token {tk:?}"),
                    TokenType::SectionHeader => ensure!(f == '[' && !tk.span.contains(']'), "header token {tk:?}"),
                    TokenType::OverrideBlock => ensure!(f == '{', "override token {tk:?}"),
                    TokenType::Comment => ensure!((f == ';' || tk.span.starts_with("!:")) && !tk.span.contains(['\n', '\r']), "comment token {tk:?}"),
                    TokenType::Number => ensure!(tk.span.chars().all(|c| c.is_ascii_digit() || ".-:".contains(c)), "number token {tk:?}"),
                    TokenType::HexValue => ensure!(tk.span.starts_with("&H") && tk.span[2..].trim_end_matches('&').chars().all(|c| c.is_ascii_hexdigit()), "hex token {tk:?}"),
                    TokenType::Whitespace => ensure!(tk.span.chars().all(char::is_whitespace), "whitespace token {tk:?}"),
                    _ => {}
                }
                if matches!(tk.span, "\n" | "\r" | "\r\n") { ensure!(tk.token_type == TokenType::Newline, "line break token {tk:?}"); }
                if tk.span == "," { ensure!(tk.token_type == TokenType::Comma, "comma token {tk:?}"); }
                if f == '{' { ensure!(tk.token_type == TokenType::OverrideBlock, "token {tk:?}"); }
                if f == '[' { ensure!(tk.token_type == TokenType::SectionHeader, "token {tk:?}"); }
                all.push(tk);
            }
            let rest = &s[at..];
            ensure!(rest.chars().all(|c| c.is_whitespace() && c != '\n' && c != '\r'), "text {rest:?} at the end is in no token");
            t.reset();
            let mut again = vec![];
            while let Ok(Some(x)) = t.next_token() { again.push(x); if again.len() > s.len() { break } }
            ensure!(all == again, "a reset tokenizer gives other tokens");
            Ok(())
        });
    }
    for _ in 0..cx.n(3 * 30_000) {
        let mut r = cx.rng.clone(); cx.rng.next();
        let n = r.us(50);
        let s: String = if r.chance(1, 2) { odd(&mut r, 30) } else { (0..n).map(|_| if r.chance(1, 24) { *r.pick(&[':', ',', '{', '}', '[', ']', '\n', '\r']) } else { *r.pick(&['a', 'é', ';', ' ', '9', '\u{3a0}']) }).collect() };
        cx.check("delimiter_scan_finds_the_first_one", || cut(&s), || {
            let want = s.bytes().position(|b| b":,{}[]\n\r".contains(&b));
            ensure!(simd::scan_delimiters(&s) == want, "got {:?}, expected {want:?}", simd::scan_delimiters(&s));
            Ok(())
        });
    }
}

// ---------- C07 ----------
const WORDS_WITH_COMMAS: &[&str] = &["Hello", "é", ", ", ",", ":", "{\\b1}", " "];
fn dump_style(s: &Style) -> String {
    let Style { name, parent, fontname, fontsize, primary_colour, secondary_colour, outline_colour, back_colour, bold, italic, underline, strikeout, scale_x, scale_y, spacing, angle, border_style, outline, shadow, alignment, margin_l, margin_r, margin_v, margin_t, margin_b, encoding, relative_to, .. } = s;
    format!("style {:?}", (parent, [name, fontname, fontsize, primary_colour, secondary_colour, outline_colour, back_colour, bold, italic, underline, strikeout, scale_x, scale_y, spacing, angle, border_style, outline, shadow, alignment, margin_l, margin_r, margin_v, encoding], margin_t, margin_b, relative_to))
}
fn dump_event(e: &Event) -> String {
    format!("event {:?} {:?}", e.event_type, ([e.layer, e.start, e.end, e.style, e.name, e.margin_l, e.margin_r, e.margin_v, e.effect, e.text], e.margin_t, e.margin_b))
}
fn dump(sc: &Script) -> Vec<(SectionType, Vec<String>)> {
    sc.sections().iter().map(|s| (s.section_type(), match s {
        Section::ScriptInfo(i) => i.fields.iter().map(|f| format!("{f:?}")).collect(),
        Section::Styles(v) => v.iter().map(dump_style).collect(),
        Section::Events(v) => v.iter().map(dump_event).collect(),
        Section::Fonts(v) => v.iter().map(|f| format!("file {:?} {:?}", f.filename, f.data_lines)).collect(),
        Section::Graphics(v) => v.iter().map(|f| format!("file {:?} {:?}", f.filename, f.data_lines)).collect(),
    })).collect()
}
fn strs<'a>(sc: &Script<'a>) -> Vec<&'a str> {
    let mut v: Vec<&'a str> = vec![];
    for s in sc.sections() {
        match s {
            Section::ScriptInfo(i) => for (a, b) in &i.fields { v.push(a); v.push(b) },
            Section::Styles(x) => for s in x {
                v.extend([s.name, s.fontname, s.fontsize, s.primary_colour, s.secondary_colour, s.outline_colour, s.back_colour, s.bold, s.italic, s.underline, s.strikeout, s.scale_x, s.scale_y, s.spacing, s.angle, s.border_style, s.outline, s.shadow, s.alignment, s.margin_l, s.margin_r, s.margin_v, s.encoding]);
                v.extend([s.parent, s.margin_t, s.margin_b, s.relative_to].into_iter().flatten());
            },
            Section::Events(x) => for e in x {
                v.extend([e.layer, e.start, e.end, e.style, e.name, e.margin_l, e.margin_r, e.margin_v, e.effect, e.text]);
                v.extend([e.margin_t, e.margin_b].into_iter().flatten());
            },
            Section::Fonts(x) => for f in x { v.push(f.filename); v.extend(&f.data_lines) },
            Section::Graphics(x) => for f in x { v.push(f.filename); v.extend(&f.data_lines) },
        }
    }
    v
}
/// Line-based reference parser for scripts whose sections appear once each.
fn reference(s: &str) -> Vec<(SectionType, Vec<String>)> {
    let s = s.strip_prefix('\u{FEFF}').unwrap_or(s);
    let mut out: Vec<(SectionType, Vec<String>)> = vec![];
    let mut fmt: Option<Vec<String>> = None;
    let mut file: Option<(String, Vec<String>)> = None;
    let flush = |out: &mut Vec<(SectionType, Vec<String>)>, file: &mut Option<(String, Vec<String>)>| {
        if let Some((n, l)) = file.take() { let d: Vec<&str> = l.iter().map(|x| x.as_str()).collect(); out.last_mut().unwrap().1.push(format!("file {n:?} {d:?}")); }
    };
    for raw in s.split('\n') {
        let l = raw.trim();
        if l.starts_with('[') {
            flush(&mut out, &mut file);
            let n = l[1..l.find(']').unwrap()].trim();
            let t = match n { "Script Info" => SectionType::ScriptInfo, "Events" => SectionType::Events, "Fonts" => SectionType::Fonts, "Graphics" => SectionType::Graphics, _ => SectionType::Styles };
            out.push((t, vec![]));
            fmt = None;
            continue;
        }
        let Some(cur) = out.last().map(|x| x.0) else { continue };
        let field = |parts: &[&str], fmt: &[String], name: &str| -> Option<String> {
            fmt.iter().position(|f| f.eq_ignore_ascii_case(name)).and_then(|i| parts.get(i)).map(|s| s.trim().to_string())
        };
        match cur {
            SectionType::ScriptInfo => {
                if l.is_empty() || l.starts_with(';') || l.starts_with('#') { continue }
                if let Some((a, b)) = l.split_once(':') { out.last_mut().unwrap().1.push(format!("{:?}", (a.trim(), b.trim()))); }
            }
            SectionType::Styles | SectionType::Events => {
                if l.is_empty() || l.starts_with(';') || l.starts_with('#') { continue }
                if let Some(f) = l.strip_prefix("Format:") { fmt = Some(f.split(',').map(|x| x.trim().to_string()).collect()); continue }
                let (k, data) = match l.split_once(':') { Some(x) => x, None => continue };
                if cur == SectionType::Styles {
                    if k != "Style" { continue }
                    let f: Vec<String> = fmt.clone().unwrap_or_else(|| "Name,Fontname,Fontsize,PrimaryColour,SecondaryColour,OutlineColour,BackColour,Bold,Italic,Underline,StrikeOut,ScaleX,ScaleY,Spacing,Angle,BorderStyle,Outline,Shadow,Alignment,MarginL,MarginR,MarginV,Encoding".split(',').map(String::from).collect());
                    let data = data.trim();
                    let (parent, data) = match data.strip_prefix('*').and_then(|d| d.split_once(',')) { Some((p, d)) => (Some(p.trim()), d), None => (None, data) };
                    let parts: Vec<&str> = data.split(',').collect();
                    if parts.len() < f.len() { continue }
                    let g = |n: &str| field(&parts, &f, n).unwrap_or_default();
                    let has = |n: &str| f.iter().any(|x| x.eq_ignore_ascii_case(n)).then(|| g(n));
                    out.last_mut().unwrap().1.push(format!("style {:?}", (parent, ["Name", "Fontname", "Fontsize", "PrimaryColour", "SecondaryColour", "OutlineColour", "BackColour", "Bold", "Italic", "Underline", "StrikeOut", "ScaleX", "ScaleY", "Spacing", "Angle", "BorderStyle", "Outline", "Shadow", "Alignment", "MarginL", "MarginR", "MarginV", "Encoding"].map(g), has("MarginT"), has("MarginB"), has("RelativeTo"))));
                } else {
                    if !["Dialogue", "Comment", "Picture", "Sound", "Movie", "Command"].contains(&k) { continue }
                    let f: Vec<String> = fmt.clone().unwrap_or_else(|| "Layer,Start,End,Style,Name,MarginL,MarginR,MarginV,Effect,Text".split(',').map(String::from).collect());
                    let parts: Vec<&str> = data.trim().splitn(f.len(), ',').collect();
                    if parts.len() < f.len() { continue }
                    let g = |n: &str| field(&parts, &f, n).unwrap_or_default();
                    let has = |n: &str| f.iter().any(|x| x.eq_ignore_ascii_case(n)).then(|| g(n));
                    out.last_mut().unwrap().1.push(format!("event {k} {:?}", (["Layer", "Start", "End", "Style", "Name", "MarginL", "MarginR", "MarginV", "Effect", "Text"].map(g), has("MarginT"), has("MarginB"))));
                }
            }
            SectionType::Fonts | SectionType::Graphics => {
                let key = if cur == SectionType::Fonts { "fontname" } else { "filename" };
                if l.is_empty() { flush(&mut out, &mut file); continue }
                if file.is_some() && l.split_once(':').map_or(false, |x| x.0.trim() == key) { flush(&mut out, &mut file); }
                if file.is_some() {
                    if l.starts_with(';') || l.starts_with('!') { continue }
                    if l.starts_with("# ") || l == "#" { flush(&mut out, &mut file); continue }
                    file.as_mut().unwrap().1.push(raw.to_string());
                } else if let Some((k, n)) = l.split_once(':') {
                    if k.trim() == key && !l.starts_with(';') && !l.starts_with("!:") { file = Some((n.trim().to_string(), vec![])); }
                }
            }
        }
    }
    flush(&mut out, &mut file);
    out
}
pub fn parser(cx: &mut Cx) {
    for _ in 0..cx.n(3 * 25_000) {
        let mut r = cx.rng.clone(); cx.rng.next();
        let s = any_script(&mut r);
        cx.check("parsing_never_fails_and_borrows_from_the_source", || cut(&s), || {
            let sc = Script::parse(&s).map_err(|e| e.to_string())?;
            ensure!(sc.source() == s, "source");
            let sp = Spans::new(&s);
            for x in strs(&sc) { ensure!(x.is_empty() || sp.validate_span(x), "{x:?} is no slice of the source"); }
            Ok(())
        });
    }
    for _ in 0..cx.n(3 * 12_000) {
        let mut r = cx.rng.clone(); cx.rng.next();
        let s = script(&mut r, Opt { canonical: true, bom: true });
        cx.check("sections_hold_what_their_lines_say", || cut(&s), || {
            let sc = Script::parse(&s).map_err(|e| e.to_string())?;
            let (a, b) = (dump(&sc), reference(&s));
            for (x, y) in a.iter().zip(&b) { ensure!(x == y, "parsed {x:?}\nexpected {y:?}"); }
            ensure!(a.len() == b.len(), "{} sections, expected {}", a.len(), b.len());
            for i in sc.issues() { ensure!(i.severity != IssueSeverity::Error && i.severity != IssueSeverity::Critical, "issue {i:?} on a well-formed script"); }
            Ok(())
        });
        cx.check("serialising_and_parsing_again_loses_nothing", || cut(&s), || {
            let sc = Script::parse(&s).map_err(|e| e.to_string())?;
            let out = sc.to_ass_string();
            let again = Script::parse(&out).map_err(|e| e.to_string())?;
            let (a, b) = (dump(&sc), dump(&again));
            for (x, y) in a.iter().zip(&b) { ensure!(x == y, "first {x:?}\nagain {y:?}\nserialised {out:?}"); }
            ensure!(a.len() == b.len(), "{} sections became {}", a.len(), b.len());
            ensure!(sc.styles_format() == again.styles_format() && sc.events_format() == again.events_format(), "formats differ");
            ensure!(sc.version() == again.version(), "version {:?} became {:?}", sc.version(), again.version());
            Ok(())
        });
    }
    // Writing an event or a style in any column order: each named column holds that field.
    for _ in 0..cx.n(3 * 12_000) {
        let mut r = cx.rng.clone(); cx.rng.next();
        let pool = ["", "0", "7", "Arial", "Ä x", "*", "-1", "&H00FF00&", "a b", "0:00:01.00", "Default", "1e3"];
        let mut v = vec![];
        for _ in 0..32 { v.push(*r.pick(&pool)); }
        let opt = |r: &mut Rng, x| if r.chance(1, 2) { Some(x) } else { None };
        let (t, b, rel, par) = (opt(&mut r, v[28]), opt(&mut r, v[29]), opt(&mut r, v[30]), opt(&mut r, "Base"));
        let text = r.string(WORDS_WITH_COMMAS, 5);
        let mut e = Event::default();
        e.event_type = *r.pick(&[EventType::Dialogue, EventType::Comment, EventType::Picture, EventType::Sound, EventType::Movie, EventType::Command]);
        (e.layer, e.start, e.end, e.style, e.name, e.margin_l, e.margin_r, e.margin_v, e.effect, e.text) = (v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], &text);
        (e.margin_t, e.margin_b) = (t, b);
        let names = [("Layer", v[0]), ("Start", v[1]), ("End", v[2]), ("Style", v[3]), ("Name", v[4]), ("Actor", v[4]), ("MarginL", v[5]), ("MarginR", v[6]), ("MarginV", v[7]),
            ("MarginT", t.unwrap_or("0")), ("MarginB", b.unwrap_or("0")), ("Effect", v[8]), ("Text", &text), ("Other", ""), ("", "")];
        let cols: Vec<(String, &str)> = (0..r.us(14)).map(|_| { let c = *r.pick(&names); (match r.us(3) { 0 => c.0.to_lowercase(), 1 => c.0.to_uppercase(), _ => c.0.to_string() }, c.1) }).collect();
        let f: Vec<&str> = cols.iter().map(|c| &c.0[..]).collect();
        cx.check("writing_in_a_given_column_order_puts_each_field_in_its_column", || format!("{e:?} in {f:?}"), || {
            let want = format!("{}: {}", e.event_type.as_str(), cols.iter().map(|c| c.1).collect::<Vec<_>>().join(","));
            ensure!(e.to_ass_string_with_format(&f) == want, "got {:?}, expected {want:?}", e.to_ass_string_with_format(&f));
            let std = ["Layer", "Start", "End", "Style", "Name", "MarginL", "MarginR", "MarginV", "Effect", "Text"];
            ensure!(e.to_ass_string() == e.to_ass_string_with_format(&std), "the standard order gives {:?}", e.to_ass_string());
            Ok(())
        });
        let mut st = Style::default();
        (st.name, st.fontname, st.fontsize, st.primary_colour, st.secondary_colour, st.outline_colour, st.back_colour, st.bold) = (v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]);
        (st.italic, st.underline, st.strikeout, st.scale_x, st.scale_y, st.spacing, st.angle, st.border_style) = (v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15]);
        (st.outline, st.shadow, st.alignment, st.margin_l, st.margin_r, st.margin_v, st.encoding) = (v[16], v[17], v[18], v[19], v[20], v[21], v[22]);
        (st.margin_t, st.margin_b, st.relative_to, st.parent) = (t, b, rel, par);
        let names = [("Name", v[0]), ("Fontname", v[1]), ("Fontsize", v[2]), ("PrimaryColour", v[3]), ("SecondaryColour", v[4]), ("OutlineColour", v[5]), ("TertiaryColour", v[5]), ("BackColour", v[6]), ("Bold", v[7]),
            ("Italic", v[8]), ("Underline", v[9]), ("StrikeOut", v[10]), ("ScaleX", v[11]), ("ScaleY", v[12]), ("Spacing", v[13]), ("Angle", v[14]), ("BorderStyle", v[15]), ("Outline", v[16]), ("Shadow", v[17]),
            ("Alignment", v[18]), ("MarginL", v[19]), ("MarginR", v[20]), ("MarginV", v[21]), ("Encoding", v[22]), ("MarginT", t.unwrap_or("0")), ("MarginB", b.unwrap_or("0")), ("RelativeTo", rel.unwrap_or("0")), ("Other", "")];
        let cols: Vec<(String, &str)> = (0..r.us(28)).map(|_| { let c = *r.pick(&names); (match r.us(3) { 0 => c.0.to_lowercase(), 1 => c.0.to_uppercase(), _ => c.0.to_string() }, c.1) }).collect();
        let f: Vec<&str> = cols.iter().map(|c| &c.0[..]).collect();
        cx.check("writing_in_a_given_column_order_puts_each_field_in_its_column", || format!("{st:?} in {f:?}"), || {
            let want = format!("Style: {}{}", par.map_or(String::new(), |p| format!("*{p},")), cols.iter().map(|c| c.1).collect::<Vec<_>>().join(","));
            ensure!(st.to_ass_string_with_format(&f) == want, "got {:?}, expected {want:?}", st.to_ass_string_with_format(&f));
            Ok(())
        });
    }
    // Junk before the first section, unknown sections and malformed lines never swallow a later section.
    for _ in 0..cx.n(3 * 8_000) {
        let mut r = cx.rng.clone(); cx.rng.next();
        let (j1, j2) = (r.string(&["x", "é", ":", " ", "\n", ",", "Dialogue: 1", "\t"], 12), r.string(&["x", "é", ":", " ", "\n", "Style: a,b", "\r\n"], 12));
        let e = event_line(&mut r);
        let s = format!("{j1}\n[Unknown]\n{j2}\n[Events]\n{e}\n[What else]\n{j1}\n");
        cx.check("malformed_parts_do_not_swallow_sections", || cut(&s), || {
            let sc = Script::parse(&s).map_err(|e| e.to_string())?;
            ensure!(dump(&sc) == reference(&format!("[Events]\n{e}\n")), "sections {:?}", dump(&sc));
            Ok(())
        });
    }
}

// ---------- C11 ----------
fn new_line(r: &mut Rng) -> String {
    match r.us(6) { 0 => odd(r, 10), 1 => "Dialogue: a,b".into(), 2 => { let i = r.us(5); style_line(r, i) } 3 => format!("PlayResX: {}", 1 + r.us(99)), 4 => format!("New{}: v", r.us(3)), _ => event_line(r) }
}
fn content(c: &LineContent) -> String {
    match c { LineContent::Style(s) => dump_style(s), LineContent::Event(e) => dump_event(e), LineContent::Field(a, b) => format!("{:?}", (a, b)) }
}
fn some_offset(r: &mut Rng, sc: &Script, s: &str) -> usize {
    let v = entry_spans(sc);
    match r.us(6) { 0 => r.us(s.len() + 3), 1 => sc.sections().iter().find_map(|x| if let Section::ScriptInfo(i) = x { Some(i.span.start) } else { None }).unwrap_or(0), _ if !v.is_empty() => { let p = *r.pick(&v); p.start + r.us(p.end - p.start) } _ => r.us(s.len() + 1) }
}
pub fn batch(cx: &mut Cx) {
    for _ in 0..cx.n(3 * 15_000) {
        let mut r = cx.rng.clone(); cx.rng.next();
        let s = script(&mut r, Opt { canonical: true, bom: false });
        let line = new_line(&mut r);
        let seed = r.clone();
        cx.check("updating_a_line_replaces_exactly_that_line", || format!("{s:?} line {line:?} seed {}", seed.0), || {
            let mut r = seed.clone();
            let mut sc = Script::parse(&s).map_err(|e| e.to_string())?;
            let track = r.chance(1, 2);
            if track { sc.enable_change_tracking() }
            let before = sc.clone();
            let off = some_offset(&mut r, &sc, &s);
            let old = dump(&sc);
            let parsed = sc.parse_line_auto(&line, 7).map(|x| (x.0, content(&x.1)));
            match sc.update_line_at_offset(off, &line, 7) {
                Err(_) => ensure!(sc == before, "a failed update at {off} changed the script"),
                Ok(prev) => {
                    let (ty, new) = parsed.map_err(|e| format!("updated at {off} with a line that does not parse: {e:?}"))?;
                    // where the old entry stands
                    let mut want = old.clone();
                    let mut spans = vec![];
                    let mut hit = false;
                    for (i, sec) in before.sections().iter().enumerate() {
                        let v: Vec<Span> = match sec { Section::Styles(x) => x.iter().map(|y| y.span).collect(), Section::Events(x) => x.iter().map(|y| y.span).collect(), _ => vec![] };
                        for (j, sp) in v.iter().enumerate() {
                            spans.push(*sp);
                            if sp.start <= off && off < sp.end {
                                ensure!(sec.section_type() == ty, "replaced a {:?} entry by a {ty:?} line", sec.section_type());
                                ensure!(content(&prev) == old[i].1[j], "returned {} instead of the old line {}", content(&prev), old[i].1[j]);
                                want[i].1[j] = new.clone();
                                hit = true;
                            }
                        }
                        if let (Section::ScriptInfo(info), LineContent::Field(k, pv)) = (sec, &prev) {
                            if !hit && ty == SectionType::ScriptInfo {
                                ensure!(info.span.start <= off && off < info.span.end, "field updated from offset {off} outside the section");
                                hit = true;
                                match info.fields.iter().position(|f| f.0 == *k) {
                                    Some(p) => { ensure!(info.fields[p].1 == *pv, "returned old value {pv:?}"); want[i].1[p] = new.clone(); }
                                    None => { ensure!(pv.is_empty(), "old value {pv:?} of a new field"); want[i].1.push(new.clone()); }
                                }
                            }
                        }
                    }
                    ensure!(hit, "update at {off} hit no entry");
                    ensure!(dump(&sc) == want, "after updating at {off}: {:?}\nexpected {want:?}", dump(&sc));
                    ensure!(entry_spans(&sc) == spans, "positions of the entries changed");
                    if !track { ensure!(sc.change_count() == 0, "recorded a change while tracking is off"); }
                    else if !matches!(&prev, LineContent::Field(_, "")) { ensure!(sc.change_count() == 1, "{} changes recorded for one update", sc.change_count()); }
                }
            }
            Ok(())
        });
    }
    for _ in 0..cx.n(3 * 12_000) {
        let mut r = cx.rng.clone(); cx.rng.next();
        let s = script(&mut r, Opt { canonical: true, bom: false });
        let lines: Vec<String> = (0..1 + r.us(4)).map(|_| if r.chance(5, 6) { if r.chance(1, 3) { let i = r.us(4); style_line(&mut r, i) } else { event_line(&mut r) } } else { new_line(&mut r) }).collect();
        let seed = r.clone();
        cx.check("atomic_batch_applies_all_or_nothing", || format!("{s:?} lines {lines:?} seed {}", seed.0), || {
            let mut r = seed.clone();
            let base = Script::parse(&s).map_err(|e| e.to_string())?;
            let v: Vec<(Span, bool)> = base.sections().iter().flat_map(|x| match x { Section::Styles(y) => y.iter().map(|z| (z.span, true)).collect::<Vec<_>>(), Section::Events(y) => y.iter().map(|z| (z.span, false)).collect(), _ => vec![] }).collect();
            let ops: Vec<UpdateOperation> = lines.iter().enumerate().map(|(i, l)| {
                let same: Vec<Span> = v.iter().filter(|x| x.1 == l.starts_with("Style:")).map(|x| x.0).collect();
                let offset = if !same.is_empty() && r.chance(9, 10) { let p = *r.pick(&same); p.start + r.us(p.end - p.start) } else { some_offset(&mut r, &base, &s) };
                UpdateOperation { offset, new_line: l, line_number: i as u32 + 1 }
            }).collect();
            let adds = r.chance(1, 3);
            let evs = || EventBatch { events: vec![Event { text: "added", ..Default::default() }, Event::default()] };
            let sts = || StyleBatch { styles: vec![Style { name: "Added", ..Default::default() }] };
            // one by one
            let mut seq = base.clone();
            let mut ok = true;
            for o in &ops { if seq.update_line_at_offset(o.offset, o.new_line, o.line_number).is_err() { ok = false } }
            let seq_ok = seq.clone();
            if adds { seq.batch_add_styles(sts()); seq.batch_add_events(evs()); }
            let mut sc = base.clone();
            match sc.atomic_batch_update(ops.clone(), adds.then(sts), adds.then(evs)) {
                Ok(()) => { ensure!(ok, "accepted a batch with a failing update"); ensure!(sc == seq, "result differs from applying the updates one by one"); }
                Err(e) => { ensure!(sc == base, "a failed batch ({e:?}) changed the script"); ensure!(!ok, "refused a batch whose updates all succeed: {e:?}"); }
            }
            // plain batch: same as one by one in offset order
            let mut sorted = ops.clone();
            sorted.sort_by_key(|o| o.offset);
            let mut one = base.clone();
            let (mut u, mut f) = (vec![], vec![]);
            for o in &sorted { match one.update_line_at_offset(o.offset, o.new_line, o.line_number) { Ok(c) => u.push((o.offset, c)), Err(_) => f.push(o.offset) } }
            let mut sc = base.clone();
            let res = sc.batch_update_lines(ops.clone());
            ensure!(sc == one && res.updated == u && res.failed.iter().map(|x| x.0).collect::<Vec<_>>() == f, "batch differs from applying its updates in order");
            let _ = seq_ok;
            Ok(())
        });
    }
    for _ in 0..cx.n(3 * 6_000) {
        let mut r = cx.rng.clone(); cx.rng.next();
        let (a, b) = (script(&mut r, Opt { canonical: true, bom: false }), script(&mut r, Opt { canonical: true, bom: false }));
        let same = r.chance(1, 4);
        let b = if same { a.clone() } else { b };
        let k = r.us(3);
        cx.check("additions_get_the_next_indices", || format!("{a:?} {k}"), || {
            let mut sc = Script::parse(&a).map_err(|e| e.to_string())?;
            let count = |sc: &Script, t: SectionType| dump(sc).iter().find(|x| x.0 == t).map_or(0, |x| x.1.len());
            let (ne, ns, before) = (count(&sc, SectionType::Events), count(&sc, SectionType::Styles), dump(&sc));
            let i1 = sc.batch_add_events(EventBatch { events: (0..k).map(|_| Event::default()).collect() });
            ensure!(i1 == (ne..ne + k).collect::<Vec<_>>(), "event indices {i1:?} after {ne}");
            ensure!(sc.add_event(Event { text: "x", ..Default::default() }) == ne + k, "event index");
            let i2 = sc.batch_add_styles(StyleBatch { styles: (0..k).map(|_| Style::default()).collect() });
            ensure!(i2 == (ns..ns + k).collect::<Vec<_>>(), "style indices {i2:?} after {ns}");
            ensure!(sc.add_style(Style::default()) == ns + k, "style index");
            for (t, v) in &before { let now = dump(&sc); let w = now.iter().find(|x| x.0 == *t).ok_or("section lost".to_string())?; ensure!(w.1[..v.len()] == v[..], "existing entries of {t:?} changed"); }
            let n = sc.sections().len();
            let keep = sc.clone();
            ensure!(sc.remove_section(n).is_err() && sc == keep, "removing a missing section");
            if n > 0 { let i = k % n; let x = sc.remove_section(i).map_err(|e| e.to_string())?; ensure!(x == keep.sections()[i] && sc.sections().len() == n - 1, "removed another section"); }
            Ok(())
        });
        cx.check("differences_name_every_changed_section", || format!("{a:?} / {b:?}"), || {
            let (x, y) = (Script::parse(&a).map_err(|e| e.to_string())?, Script::parse(&b).map_err(|e| e.to_string())?);
            let d = calculate_delta(&x, &y);
            let (dx, dy) = (dump(&x), dump(&y));
            for (i, (t, v)) in dx.iter().enumerate() {
                let o = dy.iter().find(|z| z.0 == *t);
                ensure!(d.removed.contains(&i) == o.is_none(), "section {i} removed? {:?}", d.removed);
                ensure!(d.modified.iter().any(|m| m.0 == i) == o.is_some_and(|z| z.1 != *v), "section {i} ({t:?}) modified?");
            }
            ensure!(d.added.len() == dy.iter().filter(|z| !dx.iter().any(|w| w.0 == z.0)).count(), "{} added", d.added.len());
            for m in &d.modified { ensure!(y.sections().contains(&m.1), "modified section is not the new one"); }
            let ch = x.diff(&y);
            ensure!(ch.is_empty() == (x.sections() == y.sections()), "diff {} changes", ch.len());
            Ok(())
        });
    }
}

// ---------- C13 ----------
pub fn streaming(cx: &mut Cx) {
    use ass_core::parser::streaming::StreamingParser;
    for _ in 0..cx.n(3 * 20_000) {
        let mut r = cx.rng.clone(); cx.rng.next();
        let s = match r.us(3) { 0 => any_script(&mut r), 1 => odd(&mut r, 50), _ => r.string(&["é", "界", "🎬", "a", "\n"], 30) };
        let mut b = s.clone().into_bytes();
        let bad = r.chance(1, 3) && !b.is_empty();
        if bad { for _ in 0..1 + r.us(2) { let i = r.us(b.len()); match r.us(3) { 0 => b[i] = r.next() as u8, 1 => { b.remove(i); if b.is_empty() { b.push(0xff) } } _ => b.truncate(i + 1) } } }
        let seed = r.clone();
        cx.check("any_chunking_of_valid_text_is_accepted", || format!("{b:?} seed {}", seed.0), || {
            let mut r = seed.clone();
            let mut p = StreamingParser::new();
            if r.chance(1, 3) { let _ = p.feed_chunk(&b[..r.us(b.len() + 1)]); p.reset(); }
            let mut i = 0;
            let mut fed = 0;
            let mut err = false;
            while i < b.len() {
                let n = 1 + if r.chance(1, 2) { r.us(3) } else { r.us(40) };
                let j = (i + n).min(b.len());
                if r.chance(1, 6) { ensure!(p.feed_chunk(&[]).map_err(|e| e.to_string())?.is_empty(), "deltas from nothing"); }
                match p.feed_chunk(&b[i..j]) { Ok(_) => { fed = j; } Err(_) => { err = true; fed = j; } }
                i = j;
                if err { break }
            }
            match std::str::from_utf8(&b[..fed]) {
                Ok(_) => { ensure!(!err, "valid text refused when cut at {fed}"); p.finish().map_err(|e| format!("valid text refused at the end: {e}"))?; }
                Err(e) if e.error_len().is_none() => { ensure!(!err, "unfinished character refused before the end"); ensure!(p.finish().is_err(), "accepted text ending inside a character"); }
                Err(_) => ensure!(err, "accepted invalid text"),
            }
            Ok(())
        });
    }
    let _ = write!(String::new(), "");
}
