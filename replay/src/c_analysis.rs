use super::*;
use crate::ensure;
use ass_core::analysis::events::*;
use ass_core::analysis::linting::{lint_script, IssueSeverity as LS, LintConfig};
use ass_core::analysis::{ScriptAnalysis, StyleAnalyzer}; use ass_core::analysis::styles::ResolvedStyle;
use ass_core::parser::ast::{EventType, Span};
use ass_core::parser::{Event, Script, Section, Style};
use ass_core::utils::parse_bgr_color;
use std::collections::{BTreeMap, BTreeSet};

fn ev<'a>(start: &'a str, end: &'a str, text: &'a str) -> Event<'a> {
    Event { event_type: EventType::Dialogue, layer: "0", start, end, style: "D", name: "", margin_l: "0", margin_r: "0", margin_v: "0", margin_t: None, margin_b: None, effect: "", text, span: Span::new(0, 0, 0, 0) }
}
fn cs_of(s: &str) -> Option<u32> {
    // only the strings the generators make: H:MM:SS.CC, or something unreadable
    let (h, r) = s.split_once(':')?; let (m, r) = r.split_once(':')?; let (s, c) = r.split_once('.')?;
    let f = |x: &str| x.parse::<u64>().ok();
    u32::try_from(f(h)? * 360000 + f(m)? * 6000 + f(s)? * 100 + f(c)?).ok()
}

// ---------- C08 ----------
pub fn overlaps(cx: &mut Cx) {
    for i in 0..cx.n(3 * 60_000) {
        let mut r = cx.rng.clone(); cx.rng.next();
        let n = if i % 400 == 0 { r.us(300) } else { r.us(9) };
        let span = *r.pick(&[6u64, 20, 200, 100_000]);
        let ts: Vec<(String, String)> = (0..n).map(|_| {
            let a = r.below(span) as u32; let b = if r.chance(1, 6) { a } else { r.below(span) as u32 };
            let bad = r.chance(1, 80);
            (if bad && r.chance(1, 2) { "x".into() } else { time_str(a) }, if bad { "0:0".into() } else { time_str(b) })
        }).collect();
        let es: Vec<Event> = ts.iter().map(|(a, b)| ev(a, b, "t")).collect();
        cx.check("overlaps", || format!("{ts:?}"), || {
            let iv: Option<Vec<(u32, u32)>> = ts.iter().map(|(a, b)| Some((cs_of(a)?, cs_of(b)?))).collect();
            let refs: Vec<&Event> = es.iter().collect();
            let got = find_overlapping_events(&es);
            let got2 = find_overlapping_event_refs(&refs);
            let cnt = count_overlapping_events(&es);
            match iv {
                None if ts.len() < 2 => {}
                None => ensure!(got.is_err() && got2.is_err() && cnt.is_err(), "unreadable time accepted"),
                Some(iv) => {
                    let mut want = BTreeSet::new();
                    for i in 0..iv.len() { for j in i + 1..iv.len() {
                        let ((a, b), (c, d)) = (iv[i], iv[j]);
                        if a < b && c < d && a < d && c < b { want.insert((i, j)); }
                    } }
                    for g in [got.map_err(|e| e.to_string())?, got2.map_err(|e| e.to_string())?] {
                        let set: BTreeSet<(usize, usize)> = g.iter().map(|&(a, b)| (a.min(b), a.max(b))).collect();
                        ensure!(set.len() == g.len(), "a pair was reported twice");
                        ensure!(set == want, "reported {set:?}, intervals give {want:?}");
                        for &(a, b) in &g { ensure!(iv[a].0 <= iv[b].0, "pair ({a},{b}) names the later event first"); }
                    }
                    ensure!(cnt.map_err(|e| e.to_string())? == want.len(), "count differs");
                    let infos: Vec<DialogueInfo> = es.iter().filter_map(|e| DialogueInfo::analyze(e).ok()).collect();
                    ensure!(count_overlapping_dialogue_events(&infos) == want.len(), "dialogue count differs");
                }
            }
            Ok(())
        });
    }
}

// ---------- C09 ----------
pub struct T { pub name: String, pub args: String, pub pos: usize }
#[derive(Default)]
pub struct Ref { pub plain: String, pub tags: Vec<T>, pub empties: usize, pub deep: bool }

pub fn block_tags(s: &str, base: usize, out: &mut Ref) {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'\\' { i += 1; continue }
        let at = i; i += 1;
        let ns = i;
        while i < b.len() && ((i == ns && b[i].is_ascii_digit()) || b[i].is_ascii_alphabetic()) {
            i += 1;
            if matches!(&s[ns..i], "r" | "fn") { break }
        }
        if i == ns {
            out.empties += 1;
            if let Some(c) = s[i..].chars().next() { i += c.len_utf8() }
            continue;
        }
        let ne = i;
        if &s[ns..ne] == "t" && b.get(i) == Some(&b'(') {
            let mut d = 0i32;
            while i < b.len() { match b[i] { b'(' => d += 1, b')' => d -= 1, _ => {} } i += 1; if d == 0 { break } }
        } else {
            while i < b.len() && b[i] != b'\\' { i += 1 }
        }
        out.tags.push(T { name: s[ns..ne].into(), args: s[ne..i].into(), pos: base + at });
    }
}
fn drawing(s: &str, mut m: bool) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    while i + 1 < b.len() {
        if b[i] == b'\\' && b[i + 1] == b'p' {
            i += 2; let a = i;
            while i < b.len() && (b[i].is_ascii_digit() || b[i] == b'-') { i += 1 }
            if let Ok(v) = s[a..i].parse::<i32>() { m = v > 0 }
        } else { i += 1 }
    }
    m
}
pub fn reference(text: &str) -> Ref {
    let mut o = Ref { plain: String::new(), tags: vec![], empties: 0, deep: false };
    let b = text.as_bytes();
    let (mut i, mut draw) = (0, false);
    while i < b.len() {
        match b[i] {
            b'{' => {
                let s = i + 1; let mut d = 1; i += 1;
                while i < b.len() { if b[i] == b'{' { d += 1; if d > 100 { o.deep = true; return o } } if b[i] == b'}' { d -= 1; if d == 0 { break } } i += 1 }
                if i > s { block_tags(&text[s..i], s, &mut o); draw = drawing(&text[s..i], draw) } else { o.empties += 1 }
                i += 1;
            }
            b'\\' if i + 1 < b.len() => {
                let c = text[i + 1..].chars().next().unwrap();
                if !draw { match c { 'n' | 'N' => o.plain.push('\n'), 'h' => o.plain.push('\u{a0}'), _ => { o.plain.push('\\'); o.plain.push(c) } } }
                i += 1 + c.len_utf8();
            }
            _ => { let c = text[i..].chars().next().unwrap(); if !draw { o.plain.push(c) } i += c.len_utf8(); }
        }
    }
    o
}
fn inside(text: &str, s: &str, off: usize) -> bool { text.get(off..).is_some_and(|t| t.starts_with(s)) }

pub const TAGS: &[&str] = &["{", "}", "{", "}", "\\", "\\b1", "\\i", "\\1c&HFF&", "\\c&H00ff00&", "\\t(", "\\t(0,1,\\fs3)", ")", "(", "\\p1", "\\p0", "\\p-1", "\\p", "\\p99999999999", "\\pos(1,2)", "\\fnArial", "\\fn", "\\rDefault", "\\r", "\\N", "\\n", "\\h", "\\é", "é", "日", "🎬", " ", "a", "m 0 0 l 1 1", "\\{", "\\\\", "1", "\\12", "\\an8", "\\clip(", "\n", "\u{5d0}"];

pub fn tags(cx: &mut Cx) {
    for i in 0..cx.n(3 * 120_000) {
        let mut r = cx.rng.clone(); cx.rng.next();
        let mut text = match i % 3 { 0 => odd(&mut r, 14), _ => r.string(TAGS, 16) };
        if i % 500 == 3 { let k = 95 + r.us(12); text.push_str(&"{".repeat(k)); if r.chance(1, 2) { text.push_str(&"}".repeat(k)) } }
        cx.check("override text", || format!("{text:?}"), || {
            let w = reference(&text);
            let a = match TextAnalysis::analyze(&text) {
                Err(e) => { ensure!(w.deep, "refused: {e}"); return Ok(()) }
                Ok(a) => a,
            };
            ensure!(!w.deep, "more than 100 nested braces accepted");
            ensure!(a.plain_text() == w.plain, "plain text {:?}, expected {:?}", a.plain_text(), w.plain);
            ensure!(a.char_count() == w.plain.chars().count(), "char count {}", a.char_count());
            let nl = w.plain.matches('\n').count();
            ensure!(a.line_count() >= 1 && a.line_count() <= nl + 1 && (nl == 0 || w.plain.ends_with('\n') || a.line_count() == nl + 1), "line count {} for {:?}", a.line_count(), w.plain);
            ensure!(a.override_tags().len() == w.tags.len(), "{} tags, expected {}", a.override_tags().len(), w.tags.len());
            for (g, w) in a.override_tags().iter().zip(&w.tags) {
                ensure!(g.name() == w.name && g.args() == w.args && g.position() == w.pos, "tag {:?}{:?}@{} expected {:?}{:?}@{}", g.name(), g.args(), g.position(), w.name, w.args, w.pos);
                ensure!(text.as_bytes()[g.position()] == b'\\' && inside(&text, g.name(), g.position() + 1), "tag position does not name its backslash");
                ensure!((1..=5).contains(&g.complexity()), "complexity {}", g.complexity());
            }
            ensure!(a.diagnostics().len() == w.empties, "{} diagnostics, expected {}", a.diagnostics().len(), w.empties);
            for d in a.diagnostics() { ensure!(inside(&text, d.span, d.offset), "diagnostic span {:?} is not at {}", d.span, d.offset); }
            Ok(())
        });
    }
    for i in 0..cx.n(3 * 60_000) {
        let mut r = cx.rng.clone(); cx.rng.next();
        let text = if i % 2 == 0 { odd(&mut r, 14) } else { r.string(TAGS, 12) };
        let draw = r.chance(1, 4);
        cx.check("line breaks", || format!("{draw} {text:?}"), || {
            let t = TextWithLineBreaks::from_text(&text, draw);
            let mut w = String::new(); let (mut lb, mut nb) = (vec![], vec![]);
            let mut it = text.chars();
            while let Some(c) = it.next() {
                if c != '\\' { w.push(c); continue }
                match it.next() {
                    None => w.push(c),
                    Some(n @ ('N' | 'n')) => if !draw { lb.push((w.len(), n == 'N')); w.push('\n') },
                    Some('h') => if !draw { nb.push(w.len()); w.push('\u{a0}') },
                    Some(o) => { w.push(c); w.push(o) }
                }
            }
            ensure!(t.text == w, "text {:?} expected {w:?}", t.text);
            let g: Vec<_> = t.line_breaks.iter().map(|l| (l.position, l.break_type == LineBreakType::Hard)).collect();
            ensure!(g == lb, "breaks {g:?} expected {lb:?}");
            ensure!(t.nbsp_positions == nb, "nbsp {:?} expected {nb:?}", t.nbsp_positions);
            for p in 0..=w.len() {
                ensure!(t.get_break_type_at(p).map(|b| b == LineBreakType::Hard) == lb.iter().find(|x| x.0 == p).map(|x| x.1) && t.is_nbsp_at(p) == nb.contains(&p), "query at {p}");
            }
            Ok(())
        });
    }
}

// ---------- C10 ----------
pub fn scores(cx: &mut Cx) {
    const NAMES: &[&str] = &["b", "i", "c", "1c", "4a", "alpha", "frx", "fscx", "fad", "clip", "move", "t", "pbo", "p", "pos", "an", "k", "zz", ""];
    const W: &[u32] = &[1, 1, 1, 1, 1, 1, 3, 3, 3, 3, 4, 5, 5, 8, 2, 2, 2, 2, 2];
    for _ in 0..cx.n(3 * 40_000) {
        let mut r = cx.rng.clone(); cx.rng.next();
        let n = if r.chance(1, 50) { r.us(400) } else { r.us(8) };
        let ix: Vec<usize> = (0..n).map(|_| r.us(NAMES.len())).collect();
        let ts: Vec<OverrideTag> = ix.iter().map(|&i| OverrideTag::new(NAMES[i], "", 1, 0)).collect();
        cx.check("animation score", || format!("{:?}", ix.iter().map(|&i| NAMES[i]).collect::<Vec<_>>()), || {
            let s = calculate_animation_score(&ts);
            let w = ix.iter().map(|&i| W[i]).sum::<u32>().min(10);
            ensure!(u32::from(s) == w, "score {s} expected {w}");
            let mut sh = ts.clone(); sh.reverse();
            ensure!(calculate_animation_score(&sh) == s, "depends on tag order");
            Ok(())
        });
    }
    let chars = [0usize, 1, 50, 51, 200, 201, 500, 501, 1000, 1001, usize::MAX];
    let ovr = [0usize, 1, 5, 6, 15, 16, 30, 31, usize::MAX];
    for a in 0..=255u8 { for (ci, &c) in chars.iter().enumerate() { for (oi, &o) in ovr.iter().enumerate() {
        cx.check("complexity score", || format!("{a} {c} {o}"), || {
            let s = calculate_complexity_score(a, c, o);
            ensure!(s <= 100, "{s} > 100");
            ensure!(a == 0 || calculate_complexity_score(a - 1, c, o) <= s, "falls with the animation score");
            ensure!(ci == 0 || calculate_complexity_score(a, chars[ci - 1], o) <= s, "falls with the length");
            ensure!(oi == 0 || calculate_complexity_score(a, c, ovr[oi - 1]) <= s, "falls with the overrides");
            Ok(())
        });
    } } }
    for s in 0..=255u8 {
        cx.check("impact", || format!("{s}"), || {
            let w = match s { 0..=20 => PerformanceImpact::Minimal, 21..=40 => PerformanceImpact::Low, 41..=60 => PerformanceImpact::Medium, 61..=80 => PerformanceImpact::High, _ => PerformanceImpact::Critical };
            ensure!(get_performance_impact(s) == w, "{:?}", get_performance_impact(s));
            Ok(())
        });
    }
    cx.exhaustive("impact");
    let times = ["0:00:00.00", "0:00:00.01", "0:00:01.00", "0:00:02.00", "1:00:00.00", "9:59:59.99", "5965:13:56.47", "11930:27:52.95", "bad"];
    for _ in 0..cx.n(3 * 20_000) {
        let mut r = cx.rng.clone(); cx.rng.next();
        let n = r.us(7);
        let ts: Vec<(String, String, String)> = (0..n).map(|_| {
            if r.chance(1, 3) { ((*r.pick(&times)).into(), (*r.pick(&times)).into(), text(&mut r, 4)) }
            else { let a = r.below(30) as u32; (time_str(a), time_str(a + r.below(20) as u32), text(&mut r, 30)) }
        }).collect();
        let (qa, qb) = (r.below(40) as u32, r.below(60) as u32);
        cx.check("dialogue info", || format!("{ts:?} query {qa}..{qb}"), || {
            let es: Vec<Event> = ts.iter().map(|(a, b, t)| ev(a, b, t)).collect();
            let mut infos = vec![]; let mut iv = vec![];
            for e in &es {
                let w = match (cs_of(e.start), cs_of(e.end)) { (Some(a), Some(b)) if a < b => Some((a, b)), _ => None };
                match (DialogueInfo::analyze(e), w) {
                    (Ok(d), Some((a, b))) => {
                        ensure!(d.start_time_cs() == a && d.end_time_cs() == b && d.duration_cs() == b - a, "times {}..{}", d.start_time_cs(), d.end_time_cs());
                        ensure!(u64::from(d.duration_ms()) == (u64::from(b - a) * 10).min(u32::MAX.into()), "duration {}ms", d.duration_ms());
                        let t = TextAnalysis::analyze(e.text).map_err(|e| e.to_string())?;
                        ensure!(d.override_count() == t.override_tags().len() && d.animation_score() == calculate_animation_score(t.override_tags()), "animation score");
                        ensure!(d.complexity_score() == calculate_complexity_score(d.animation_score(), t.char_count(), t.override_tags().len()), "complexity");
                        ensure!(d.performance_impact() == get_performance_impact(d.complexity_score()), "impact");
                        ensure!(std::ptr::eq(d.event(), e), "event");
                        infos.push(d); iv.push((a, b));
                    }
                    (Err(_), None) => {}
                    (Ok(_), None) => return Err(format!("accepted {:?}..{:?}", e.start, e.end)),
                    (Err(x), Some(_)) => return Err(format!("refused {:?}..{:?}: {x}", e.start, e.end)),
                }
            }
            for i in 0..iv.len() { for j in 0..iv.len() {
                let ((a, b), (c, d)) = (iv[i], iv[j]);
                let w = if (a, b) == (c, d) { TimingRelation::Identical } else if b <= c || d <= a { TimingRelation::NoOverlap } else if (a <= c && d <= b) || (c <= a && b <= d) { TimingRelation::FullOverlap } else { TimingRelation::PartialOverlap };
                ensure!(infos[i].timing_relation(&infos[j]) == w, "relation of {:?} and {:?}", iv[i], iv[j]);
            } }
            let inr: Vec<usize> = (0..iv.len()).filter(|&i| iv[i].0 < qb && qa < iv[i].1).collect();
            ensure!(find_events_in_range(&infos, qa, qb) == inr, "in range {:?} expected {inr:?}", find_events_in_range(&infos, qa, qb));
            let tot = (!iv.is_empty()).then(|| iv.iter().map(|x| x.1).max().unwrap() - iv.iter().map(|x| x.0).min().unwrap());
            ensure!(calculate_total_duration(&infos) == tot, "total {:?} expected {tot:?}", calculate_total_duration(&infos));
            let avg = (!iv.is_empty()).then(|| (iv.iter().map(|x| u64::from(x.1 - x.0)).sum::<u64>() / iv.len() as u64) as u32);
            ensure!(calculate_average_duration(&infos) == avg, "average {:?} expected {avg:?}", calculate_average_duration(&infos));
            let mut w: Vec<_> = iv.iter().enumerate().map(|(i, x)| (x.0, x.1, infos[i].event() as *const Event as usize)).collect();
            w.sort_by_key(|x| (x.0, x.1));
            sort_events_by_time(&mut infos);
            let g: Vec<_> = infos.iter().map(|d| (d.start_time_cs(), d.end_time_cs(), d.event() as *const Event as usize)).collect();
            ensure!(g == w, "not in time order, or not the same events");
            Ok(())
        });
    }
}

// ---------- C14 ----------
const FMT: &str = "Format: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding";
#[derive(Clone, Debug, PartialEq)]
struct RS { font: String, size: f32, col: [[u8; 4]; 4], f: [bool; 4], spacing: f32, angle: f32, outline: f32, shadow: f32, m: [f32; 4] }
#[derive(Clone)]
struct SD { name: String, parent: Option<String>, f: Vec<String> } // f = the 22 fields after Name

fn col(s: &str) -> Option<[u8; 4]> { if s.trim().is_empty() { Some([255; 4]) } else { parse_bgr_color(s).ok() } }
fn alone(d: &SD) -> Option<RS> {
    let f = &d.f;
    let fl = |i: usize| f[i].parse::<f32>().ok();
    let u = |i: usize| f[i].parse::<u16>().ok().map(f32::from);
    let b = |i: usize| match f[i].as_str() { "0" => Some(false), "1" => Some(true), _ => None };
    let size = fl(1).filter(|s| *s > 0.0 && *s <= 1000.0)?;
    for i in [10, 11] { fl(i).filter(|x| (0.0..=1000.0).contains(x))?; }
    for i in [14, 17, 21] { f[i].parse::<u8>().ok()?; }
    Some(RS { font: if f[0].is_empty() { "Arial".into() } else { f[0].clone() }, size, col: [col(&f[2])?, col(&f[3])?, col(&f[4])?, col(&f[5])?],
        f: [b(6)?, b(7)?, b(8)?, b(9)?], spacing: fl(12)?, angle: fl(13)?, outline: fl(15)?, shadow: fl(16)?, m: [u(18)?, u(19)?, u(20)?, u(20)?] })
}
fn over(d: &SD, p: &RS) -> Option<RS> {
    let mut o = p.clone(); let f = &d.f;
    let fl = |i: usize| f[i].parse::<f32>().ok();
    if !f[0].is_empty() { o.font = f[0].clone() }
    if !f[1].is_empty() && f[1] != "0" { o.size = fl(1).filter(|s| *s > 0.0 && *s <= 1000.0)? }
    for k in 0..4 { if !f[2 + k].is_empty() { o.col[k] = col(&f[2 + k])? } }
    for k in 0..4 { match f[6 + k].as_str() { "0" => o.f[k] = false, "1" => o.f[k] = true, _ => {} } }
    for i in [10, 11] { if !f[i].is_empty() && f[i] != "100" { fl(i).filter(|x| (0.0..=1000.0).contains(x))?; } }
    for (i, t) in [(12, &mut o.spacing), (13, &mut o.angle), (15, &mut o.outline), (16, &mut o.shadow)] { if !f[i].is_empty() && f[i] != "0" { *t = fl(i)? } }
    for i in [14, 17, 21] { if !f[i].is_empty() { f[i].parse::<u8>().ok()?; } }
    for k in 0..2 { if !f[18 + k].is_empty() { o.m[k] = f[18 + k].parse::<u16>().ok()?.into() } }
    if !f[20].is_empty() && f[20] != "0" { let v: f32 = f[20].parse::<u16>().ok()?.into(); o.m[2] = v; o.m[3] = v }
    Some(o)
}
fn resolve(n: &str, all: &BTreeMap<String, SD>) -> Option<RS> {
    let d = &all[n];
    match d.parent.as_ref().filter(|p| all.contains_key(*p)).and_then(|p| resolve(p, all)) { Some(p) => over(d, &p), None => alone(d) }
}
fn cyclic(all: &BTreeMap<String, SD>) -> bool {
    all.keys().any(|k| { let mut c = k; for _ in 0..=all.len() { match &all[c].parent { Some(p) if all.contains_key(p) => c = p, _ => return false } } true })
}
fn sd(r: &mut Rng, i: usize, n: usize) -> SD {
    let parent = if r.chance(2, 3) { Some(if r.chance(1, 12) { "Nowhere".into() } else if r.chance(1, 8) { format!("S{}", r.us(n)) } else { format!("S{}", r.us(i.max(1))) }) } else { None };
    let parent = parent.filter(|p| *p != format!("S{i}") || r.chance(1, 6));
    let child = parent.is_some();
    let mut g = |def: &str, v: &[&str]| -> String { if r.chance(1, 60) { "zz".into() } else if child && r.chance(1, 3) { String::new() } else if r.chance(1, 3) { def.into() } else { (*r.pick(v)).into() } };
    let mut f = vec![g("Arial", &["Verdana", "Noto 字", ""]), g("20", &["0", "30", "48.5", "1000", "1001", "-3"])];
    for _ in 0..4 { f.push(g("&H00FFFFFF", &["&H000000FF", "&H80112233", "", "FF00FF"])) }
    for _ in 0..4 { f.push(g("0", &["1", "1"])) }
    f.push(g("100", &["50", "150.5"])); f.push(g("100", &["200"]));
    f.push(g("0", &["1.5", "-2"])); f.push(g("0", &["45"])); f.push(g("1", &["3"]));
    f.push(g("2", &["0", "3.5"])); f.push(g("0", &["1", "4"])); f.push(g("2", &["8"]));
    f.push(g("10", &["0", "33"])); f.push(g("10", &["7"])); f.push(g("10", &["0", "99"])); f.push(g("1", &["0"]));
    SD { name: format!("S{i}"), parent, f }
}
fn same(g: &ResolvedStyle, w: &RS) -> Result<(), String> {
    ensure!(g.font_name() == w.font && g.font_size() == w.size, "font {:?} {}, expected {w:?}", g.font_name(), g.font_size());
    ensure!([g.primary_color(), g.secondary_color(), g.outline_color()] == w.col[..3], "colours, expected {w:?}");
    ensure!([g.is_bold(), g.is_italic(), g.is_underline(), g.is_strike_out()] == w.f, "flags, expected {w:?}");
    ensure!([g.spacing(), g.angle(), g.outline(), g.shadow()] == [w.spacing, w.angle, w.outline, w.shadow], "spacing {} angle {} outline {} shadow {}, expected {w:?}", g.spacing(), g.angle(), g.outline(), g.shadow());
    let m = [g.margin_l(), g.margin_r(), g.margin_t(), g.margin_b()];
    ensure!(m.map(f32::from) == w.m, "margins {m:?}, expected {:?}", w.m);
    Ok(())
}
pub fn styles(cx: &mut Cx) {
    for _ in 0..cx.n(3 * 12_000) {
        let mut r = cx.rng.clone(); cx.rng.next();
        let n = r.us(7);
        let sds: Vec<SD> = (0..n).map(|i| sd(&mut r, i, n)).collect();
        let mut order: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() { let j = r.us(i + 1); order.swap(i, j) }
        let res = if r.chance(1, 2) { Some(((1 + r.below(1920) as u32, 1 + r.below(1080) as u32), (1 + r.below(1920) as u32, 1 + r.below(1080) as u32))) } else { None };
        let head = match res { Some((l, p)) => format!("[Script Info]\nPlayResX: {}\nPlayResY: {}\nLayoutResX: {}\nLayoutResY: {}\n\n", p.0, p.1, l.0, l.1), None => String::new() };
        let mk = |o: &[usize]| {
            let mut s = format!("{head}[V4+ Styles]\n{FMT}\n");
            for &i in o { let d = &sds[i]; s += &format!("Style: {}{},{}\n", d.parent.as_ref().map_or(String::new(), |p| format!("*{p},")), d.name, d.f.join(",")) }
            s + "\n[V4+ Styles]\nStyle: Late,X,20,&H0,&H0,&H0,&H0,0,0,0,0,100,100,0,0,1,0,0,2,0,0,0,1\n"
        };
        if n >= 2 {
            // the two resolvers themselves, with vertical margins given apart
            let (d, p) = (&sds[n - 1], &sds[n - 2]);
            let pk = |r: &mut Rng| if r.chance(1, 3) { None } else { Some(*r.pick(&["", "0", "7", "300", "x"])) };
            let (mt, mb) = (pk(&mut r), pk(&mut r));
            let under = r.chance(2, 3);
            cx.check("resolution under a parent takes each empty field from it", || format!("{:?} margins {mt:?} {mb:?} under {:?}", d.f, p.f), || {
                let st = |d: &'_ SD| -> Style<'static> {
                    let f: Vec<&'static str> = d.f.iter().map(|x| &*Box::leak(x.clone().into_boxed_str())).collect();
                    Style { name: "D", parent: None, fontname: f[0], fontsize: f[1], primary_colour: f[2], secondary_colour: f[3], outline_colour: f[4], back_colour: f[5], bold: f[6], italic: f[7], underline: f[8], strikeout: f[9],
                        scale_x: f[10], scale_y: f[11], spacing: f[12], angle: f[13], border_style: f[14], outline: f[15], shadow: f[16], alignment: f[17], margin_l: f[18], margin_r: f[19], margin_v: f[20], encoding: f[21], ..Style::default() }
                };
                let (ps, mut ds) = (st(p), st(d));
                (ds.margin_t, ds.margin_b) = (mt, mb);
                let u = |x: &str| x.parse::<u16>().ok();
                if !under {
                    // V is read only when T and B are not both there
                    let mut e = d.clone();
                    let both = mt.is_some() && mb.is_some();
                    if both { e.f[20] = "0".into(); }
                    let mut w = alone(&e);
                    if let (Some(t), Some(b)) = (mt, mb) { w = match (w, u(t), u(b)) { (Some(mut w), Some(t), Some(b)) => { w.m[2] = t.into(); w.m[3] = b.into(); Some(w) } _ => None }; }
                    let g = ResolvedStyle::from_style(&ds).ok();
                    ensure!(g.is_some() == w.is_some(), "readable: {}, expected {}", g.is_some(), w.is_some());
                    if let (Some(g), Some(w)) = (g, w) { same(&g, &w)?; }
                    return Ok(());
                }
                let (Ok(pr), Some(pw)) = (ResolvedStyle::from_style(&ps), alone(p)) else { return Ok(()) };
                let mut e = d.clone();
                let both = mt.is_some() && mb.is_some();
                if both { e.f[20] = String::new(); }
                let mut w = over(&e, &pw);
                if let (Some(t), Some(b)) = (mt, mb) {
                    if let Some(mut x) = w { let mut ok = true;
                        if !t.is_empty() { match u(t) { Some(v) => x.m[2] = v.into(), None => ok = false } }
                        if !b.is_empty() { match u(b) { Some(v) => x.m[3] = v.into(), None => ok = false } }
                        w = if ok { Some(x) } else { None } }
                }
                let g = ResolvedStyle::from_style_with_parent(&ds, &pr).ok();
                ensure!(g.is_some() == w.is_some(), "readable: {}, expected {}", g.is_some(), w.is_some());
                if let (Some(g), Some(w)) = (g, w) { same(&g, &w)?; }
                Ok(())
            });
        }
        let src = mk(&order);
        cx.check("style resolution", || format!("{src:?}"), || {
            let sc = Script::parse(&src).map_err(|e| e.to_string())?;
            let an = StyleAnalyzer::new(&sc);
            let all: BTreeMap<String, SD> = sds.iter().map(|d| (d.name.clone(), d.clone())).collect();
            let cyc = cyclic(&all);
            let (sx, sy) = res.map_or((1.0, 1.0), |(l, p)| (p.0 as f64 / l.0 as f64, p.1 as f64 / l.1 as f64));
            let av = (sx + sy) / 2.0;
            let near = |a: f32, b: f32, k: f64| (f64::from(a) - f64::from(b) * k).abs() <= 1e-3 + (f64::from(b) * k).abs() * 1e-5;
            let mg = |a: u16, b: f32, k: f64| { let w = (f64::from(b) * k).min(65535.0); (f64::from(a) - w).abs() <= 1.001 };
            for d in &sds {
                let w = if cyc { alone(d) } else { resolve(&d.name, &all) };
                match (an.resolve_style(&d.name), w) {
                    (None, None) => {}
                    (Some(g), Some(w)) => {
                        ensure!(g.font_name() == w.font, "{}: font {:?} expected {:?}", d.name, g.font_name(), w.font);
                        ensure!(near(g.font_size(), w.size, av), "{}: size {} expected {}", d.name, g.font_size(), f64::from(w.size) * av);
                        ensure!([g.primary_color(), g.secondary_color(), g.outline_color()] == w.col[..3], "{}: colours", d.name);
                        ensure!([g.is_bold(), g.is_italic(), g.is_underline(), g.is_strike_out()] == w.f, "{}: flags {:?}", d.name, w.f);
                        ensure!(near(g.spacing(), w.spacing, sx) && near(g.angle(), w.angle, 1.0) && near(g.outline(), w.outline, av) && near(g.shadow(), w.shadow, av), "{}: spacing {} angle {} outline {} shadow {}, expected {:?} x{sx} x{av}", d.name, g.spacing(), g.angle(), g.outline(), g.shadow(), w);
                        ensure!(mg(g.margin_l(), w.m[0], sx) && mg(g.margin_r(), w.m[1], sx) && mg(g.margin_t(), w.m[2], sy) && mg(g.margin_b(), w.m[3], sy), "{}: margins {} {} {} {} expected {:?} x{sx} x{sy}", d.name, g.margin_l(), g.margin_r(), g.margin_t(), g.margin_b(), w.m);
                        ensure!(g.complexity_score() <= 100, "complexity");
                    }
                    (Some(_), None) => return Err(format!("{}: resolved although a field cannot be read", d.name)),
                    (None, Some(_)) => return Err(format!("{}: not resolved", d.name)),
                }
            }
            ensure!(an.resolved_styles().keys().all(|k| all.contains_key(*k)), "a style of a later section was resolved");
            // independent of the order in the section
            let ident: Vec<usize> = (0..n).collect();
            let src2 = mk(&ident);
            let sc2 = Script::parse(&src2).map_err(|e| e.to_string())?;
            let an2 = StyleAnalyzer::new(&sc2);
            ensure!(format!("{:?}", an.resolved_styles()) == format!("{:?}", an2.resolved_styles()), "depends on the order of the styles");
            let _ = an.validate_styles();
            Ok(())
        });
    }
}

// ---------- C15 ----------
pub fn lint(cx: &mut Cx) {
    for i in 0..cx.n(3 * 12_000) {
        let mut r = cx.rng.clone(); cx.rng.next();
        let mut s = script(&mut r, Opt { canonical: i % 3 != 0, bom: true });
        if r.chance(1, 2) {
            s += "\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n";
            for _ in 0..r.us(4) { let a = r.below(2000) as u32; let b = (a + r.below(600) as u32).saturating_sub(100);
                let k = if r.chance(1, 12) { 250 } else { 10 };
                let t = r.string(TAGS, k).replace(['\n', '\r'], ""); let (p, q) = if r.chance(1, 5) { (*r.pick(&["*", " ", "s", "**", "é"]), *r.pick(&["", " ", "0", "*"])) } else { ("", "") }; s += &format!("Dialogue: 0,{},{},{p}S{}{q},,0,0,0,,{t}\n", time_str(a), time_str(b), r.us(3)) }
        }
        if r.chance(1, 6) { s += &odd(&mut r, 20) }
        let (max, sev) = (r.us(6), *r.pick(&[LS::Info, LS::Hint, LS::Warning, LS::Error, LS::Critical]));
        let dis = *r.pick(&["", "timing-overlap", "encoding", "missing-style"]);
        cx.check("lint", || format!("max {max} severity {sev:?} disabled {dis:?}: {s:?}"), || {
            let Ok(sc) = Script::parse(&s) else { return Ok(()) };
            let an = ScriptAnalysis::analyze(&sc).map_err(|e| e.to_string())?;
            let all = lint_script(&sc, &LintConfig::default()).map_err(|e| e.to_string())?;
            let k = |v: &[ass_core::analysis::LintIssue]| v.iter().map(|i| (i.rule_id(), i.severity(), i.message().to_string())).collect::<Vec<_>>();
            ensure!(k(&all) == k(an.lint_issues()), "linting and analysis disagree");
            let mut cfg = LintConfig::default().with_min_severity(sev);
            if !dis.is_empty() { cfg.disabled_rules.push(dis) }
            let some = lint_script(&sc, &cfg).map_err(|e| e.to_string())?;
            let want: Vec<_> = k(&all).into_iter().filter(|x| x.1 >= sev && x.0 != dis).collect();
            ensure!(k(&some) == want, "filtered issues are not the issues filtered");
            let few = lint_script(&sc, &cfg.clone().with_max_issues(max)).map_err(|e| e.to_string())?;
            ensure!(k(&few) == want[..if max == 0 { want.len() } else { max.min(want.len()) }], "limit {max} gave {} issues of {}", few.len(), want.len());
            let n = |id: &str| all.iter().filter(|i| i.rule_id() == id).count();
            let evs = sc.sections().iter().find_map(|x| if let Section::Events(e) = x { Some(&e[..]) } else { None }).unwrap_or(&[]);
            let iv: Vec<Option<(u32, u32)>> = evs.iter().map(|e| Some((ass_core::utils::parse_ass_time(e.start).ok()?, ass_core::utils::parse_ass_time(e.end).ok()?))).collect();
            let neg = iv.iter().flatten().filter(|(a, b)| a >= b).count();
            ensure!(n("negative-duration") == neg, "{} negative durations, expected {neg}", n("negative-duration"));
            if iv.iter().all(|x| x.is_some()) {
                let v: Vec<_> = iv.iter().flatten().filter(|(a, b)| a < b).collect();
                let mut o = 0; for i in 0..v.len() { for j in i + 1..v.len() { if v[i].0 < v[j].1 && v[j].0 < v[i].1 { o += 1 } } }
                ensure!(n("timing-overlap") == o, "{} overlaps, expected {o}", n("timing-overlap"));
            }
            let mut tags = 0; let (mut short, mut fast, mut long) = (0, 0, 0);
            for (e, t) in evs.iter().zip(&iv) {
                let w = reference(e.text);
                if !w.deep { tags += w.empties; let c = w.plain.chars().count();
                    if c > 200 { long += 1 }
                    if let Some((a, b)) = t { if b > a && c > 0 && c as f64 * 100.0 / f64::from(b - a) > 20.0 { fast += 1 } } }
                if let Some((a, b)) = t { if b >= a && b - a < 50 { short += 1 } }
            }
            ensure!(n("invalid-tag") == tags, "{} tag issues, expected {tags}", n("invalid-tag"));
            for (m, w) in [("short event", short), ("reading speed", fast), ("Very long text", long)] {
                let g = all.iter().filter(|i| i.rule_id() == "accessibility" && i.message().contains(m)).count();
                ensure!(g == w, "{g} issues of kind {m:?}, expected {w}");
            }
            let names: BTreeSet<&str> = an.resolved_styles().iter().map(|s| s.name).collect();
            let miss = evs.iter().filter(|e| !names.contains(e.style)).count();
            ensure!(n("missing-style") == miss, "{} missing styles, expected {miss}", n("missing-style"));
            let p = an.performance_summary();
            ensure!(p.total_events == an.dialogue_info().len() && p.performance_score <= 100, "summary");
            ensure!(an.has_critical_issues() == all.iter().any(|i| i.severity() == LS::Critical), "critical");
            Ok(())
        });
    }
}
