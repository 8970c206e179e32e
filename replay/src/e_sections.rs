//! Commands on the lines of the other sections: script properties, styles, embedded files, override tags.
use super::c_analysis::{block_tags, Ref, TAGS};
use super::*;
use crate::ensure;
use ass_editor::commands::*;
use ass_editor::core::StyleBuilder;
use ass_editor::{EditorDocument, Position, Range};

const STYLES: &[&str] = &["[V4+ Styles]", "[V4 Styles]", "[Styles]"];
const KEYS: &[&str] = &["Title", "Title2", "Tit", "PlayResX", "WrapStyle", "Original Script", "Original"];
const NAMES: &[&str] = &["S0", "S00", "S1", "Default", "Défaut", "Arial"];
const COLS: &[&str] = &["Name", "Fontname", "Fontsize", "PrimaryColour", "Bold", "Italic", "Alignment", "MarginL", "Encoding"];
const FILES: &[&str] = &["a.ttf", "a", "b.otf", "a.ttf2", "é.png"];

fn bare(l: &str) -> &str { l.trim_end_matches(['\r', '\n']) }
/// Lines with their breaks, and the section each stands in (none for headers and what precedes them).
fn split(s: &str) -> Vec<(String, Option<String>)> {
    let mut at = None;
    s.split_inclusive('\n').map(|l| {
        let t = l.trim_start_matches('\u{FEFF}').trim();
        if t.starts_with('[') { at = Some(t.to_string()); (l.to_string(), None) } else { (l.to_string(), at.clone()) }
    }).collect()
}
fn in_any(x: &Option<String>, hs: &[&str]) -> bool { x.as_deref().is_some_and(|s| hs.contains(&s)) }
fn header(v: &[(String, Option<String>)], hs: &[&str]) -> Option<usize> { v.iter().position(|(l, _)| hs.contains(&l.trim_start_matches('\u{FEFF}').trim())) }
fn key_of(l: &str) -> Option<(&str, &str)> {
    let t = l.trim();
    if t.starts_with(';') || t.starts_with('#') { return None }
    let i = t.find(':')?;
    Some((t[..i].trim(), t[i + 1..].trim()))
}
/// The rest of a line that is `key:...`.
fn value_of<'a>(l: &'a str, key: &str) -> Option<&'a str> { bare(l).trim_start().strip_prefix(key)?.strip_prefix(':') }
fn join(v: &[(String, Option<String>)]) -> String { v.iter().map(|x| x.0.as_str()).collect() }
/// `v` with the text `new` of whole lines after line `i`.
fn after(v: &[(String, Option<String>)], i: usize, new: &str) -> String {
    let mut s: String = v[..=i].iter().map(|x| x.0.as_str()).collect();
    if !s.ends_with('\n') { s.push('\n') }
    s + new + &v[i + 1..].iter().map(|x| x.0.as_str()).collect::<String>()
}
fn with(v: &[(String, Option<String>)], i: usize, new: &str) -> String {
    v.iter().enumerate().map(|(k, x)| if k == i { format!("{new}{}", &x.0[bare(&x.0).len()..]) } else { x.0.clone() }).collect()
}
fn without(v: &[(String, Option<String>)], r: std::ops::Range<usize>) -> String { v.iter().enumerate().filter(|(k, _)| !r.contains(k)).map(|x| x.1 .0.as_str()).collect() }

fn document(r: &mut Rng) -> String {
    let nl = if r.chance(1, 5) { "\r\n" } else { "\n" };
    let mut s = String::new();
    if r.chance(1, 8) { s.push('\u{FEFF}') }
    if r.chance(1, 5) { s += &format!("; see [Events] and [Fonts]{nl}") }
    let mut secs: Vec<usize> = (0..5).filter(|_| r.chance(4, 5)).collect();
    if r.chance(1, 3) { for i in (1..secs.len()).rev() { let j = r.us(i + 1); secs.swap(i, j) } }
    if r.chance(1, 8) { secs.push(r.us(5)) }
    for k in secs {
        match k {
            0 => {
                s += &format!("[Script Info]{nl}");
                for _ in 0..r.us(6) {
                    let k = *r.pick(KEYS);
                    s += &match r.us(9) { 0 => format!("; {k}: no"), 1 => format!("#{k}: no"), 2 => String::new(), 3 => format!("  {k} : sp "), 4 => "Comment [Events] Style: S0,x".into(), 5 => format!("Note: {k}: in [V4+ Styles]"), _ => format!("{k}: {}", r.pick(&["v", "é x", "1:2", ""])) };
                    s += nl;
                }
            }
            1 => {
                s += *r.pick(STYLES); s += nl;
                let mut cols: Vec<&str> = COLS.iter().copied().filter(|c| *c == "Name" || r.chance(2, 3)).collect();
                if r.chance(1, 4) { let j = r.us(cols.len()); cols.swap(0, j) }
                if r.chance(5, 6) { s += &format!("Format: {}{nl}", cols.join(*r.pick(&[", ", ",", " , "]))) }
                for _ in 0..r.us(5) {
                    if r.chance(1, 6) { s += &format!("; Style: {},x{nl}", r.pick(NAMES)) }
                    let par = if r.chance(1, 6) { format!("*{},", r.pick(NAMES)) } else { String::new() };
                    let n = if r.chance(1, 8) { r.us(cols.len() + 1) } else { cols.len() };
                    let sp = *r.pick(&["", "", " "]);
                    let f: Vec<String> = (0..n).map(|i| if cols[i] == "Name" { r.pick(NAMES).to_string() } else { format!("{sp}{}", r.pick(&["S0", "20", "-1", "Arial", "&H00FF00FF"])) }).collect();
                    s += &format!("{}Style:{}{par}{}{nl}", r.pick(&["", "", " "]), r.pick(&[" ", "", "  "]), f.join(","));
                }
            }
            2 => {
                s += &format!("[Events]{nl}Format: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text{nl}");
                for _ in 0..r.us(5) {
                    if r.chance(1, 6) { s += nl }
                    let t = r.string(&["word", "Style: S0,x", ",S0,", "S1", "[Fonts]", "{\\b1}", "{\\fnS0}é", "界", "Title: v", ", "], 4);
                    let sp = *r.pick(&["", "", " "]);
                    s += &format!("{}: 0,0:00:00.00,0:00:05.00,{sp}{}{sp},{},0,0,0,{},{t}{nl}", r.pick(&["Dialogue", "Comment", "Dialogue", "Picture"]), r.pick(NAMES), r.pick(NAMES), r.pick(&["", "S0", "fx"]));
                }
            }
            3 | _ => {
                let (h, key) = if k == 3 { ("[Fonts]", "fontname:") } else { ("[Graphics]", "filename:") };
                s += &format!("{h}{nl}");
                for _ in 0..r.us(4) {
                    s += &format!("{key} {}{nl}", r.pick(FILES));
                    for _ in 0..r.us(3) { s += *r.pick(&["!!data", "M12{\\b1}", "x[Events]", "; c"]); s += nl }
                    if r.chance(1, 8) { s += nl }
                }
            }
        }
        if r.chance(2, 3) { s += nl }
    }
    if r.chance(1, 3) { while s.ends_with(['\n', '\r']) { s.pop(); } }
    s
}

/// Line, columns and fields of the first style with this name; a field is (blanks before, value, blanks after).
struct Found { line: usize, head: String, cols: Vec<String>, fields: Vec<(String, String, String)> }
fn find(v: &[(String, Option<String>)], name: &str) -> Option<Found> {
    let mut cols: Vec<String> = vec![];
    for (i, (l, sec)) in v.iter().enumerate() {
        if !in_any(sec, STYLES) { continue }
        if let Some(f) = value_of(l, "Format") { cols = f.split(',').map(|c| c.trim().to_string()).collect(); continue }
        let Some(f) = value_of(l, "Style") else { continue };
        let mut head = bare(l)[..bare(l).len() - f.len()].to_string();
        let mut fields: Vec<(String, String, String)> = f.split(',').map(|x| {
            let a = &x[..x.len() - x.trim_start().len()];
            (a.into(), x.trim().into(), x[a.len() + x.trim().len()..].into())
        }).collect();
        if fields.len() > 1 && fields[0].1.starts_with('*') { let p = fields.remove(0); head += &format!("{}{}{},", p.0, p.1, p.2) }
        let c = cols.iter().position(|c| c == "Name").unwrap_or(0);
        if fields.get(c).is_some_and(|x| x.1 == name) { return Some(Found { line: i, head, cols, fields }) }
    }
    None
}
impl Found {
    fn text(&self) -> String { self.head.clone() + &self.fields.iter().map(|(a, b, c)| format!("{a}{b}{c}")).collect::<Vec<_>>().join(",") }
}
/// Parts of an event line around its style and its text.
fn event(l: &str) -> Option<(String, String, String, String)> {
    let f = value_of(l, "Dialogue").or_else(|| value_of(l, "Comment"))?;
    let p: Vec<&str> = f.splitn(10, ',').collect();
    if p.len() < 5 { return None }
    let h = &bare(l)[..bare(l).len() - f.len()];
    Some((format!("{h}{},{},{},", p[0], p[1], p[2]), p[3].to_string(), p[4..].join(","), p.get(9).map_or("", |x| x.trim()).to_string()))
}
/// Line ranges of the files in a section, and the line after its last line that is not blank.
fn files(v: &[(String, Option<String>)], h: &str, key: &str) -> Option<(usize, usize, Vec<(String, std::ops::Range<usize>)>)> {
    let at = header(v, &[h])?;
    let (mut end, mut fs): (usize, Vec<(String, std::ops::Range<usize>)>) = (at + 1, vec![]);
    for i in at + 1..v.len() {
        if v[i].1.is_none() { break }
        if v[i].0.trim().is_empty() { continue }
        end = i + 1;
        match v[i].0.trim_start().strip_prefix(key) {
            Some(n) => fs.push((n.trim().into(), i..i + 1)),
            None => if let Some(f) = fs.last_mut() { f.1.end = i + 1 },
        }
    }
    Some((at, end, fs))
}
type Want = Result<String, ()>;
fn run(s: &str, what: impl FnOnce(&mut EditorDocument) -> Result<CommandResult, ass_editor::EditorError>, want: Want) -> Result<(), String> {
    let mut d = EditorDocument::from_content(s).map_err(|e| e.to_string())?;
    let got = what(&mut d);
    match want {
        Err(()) => { ensure!(got.is_err(), "it succeeded, giving {:?}", d.text()); ensure!(d.text() == s, "it failed, yet left {:?}", d.text()); }
        Ok(w) => {
            let res = got.map_err(|e| format!("failed: {e}"))?;
            ensure!(d.text() == w, "it gives {:?}, expected {w:?}", d.text());
            if let Some(m) = res.modified_range { ensure!(m.start.offset <= m.end.offset && w.is_char_boundary(m.start.offset) && w.is_char_boundary(m.end.offset), "range {m:?} is not one of the result"); }
            if w != s { ensure!(res.content_changed, "no change reported"); d.undo().map_err(|e| format!("undo: {e}"))?; ensure!(d.text() == s, "after undo {:?}", d.text()); }
        }
    }
    Ok(())
}

pub fn sections(cx: &mut Cx) {
    for _ in 0..cx.n(2500) {
        let s = document(&mut cx.rng);
        let v = split(&s);
        let r = &mut cx.rng;
        // script properties
        let (key, val) = (r.pick(KEYS).to_string(), r.pick(&["new", "é: 1", "[Events]", ""]).to_string());
        let lines: Vec<(usize, &str, &str)> = v.iter().enumerate().filter(|(_, x)| in_any(&x.1, &["[Script Info]"])).filter_map(|(i, x)| key_of(&x.0).map(|(a, b)| (i, a, b))).collect();
        let (info, hit) = (header(&v, &["[Script Info]"]), lines.iter().find(|x| x.1 == key));
        cx.check("script_info_commands", || format!("{key:?} {val:?} in {s:?}"), || {
            let d = EditorDocument::from_content(&s).map_err(|e| e.to_string())?;
            let (g, all) = (GetScriptInfoCommand::new(key.clone()).get_value(&d), GetAllScriptInfoCommand::new().get_all(&d));
            if info.is_some() {
                ensure!(g.as_ref().ok() == Some(&hit.map(|x| x.2.to_string())), "value is {:?}", g.ok());
                let w: Vec<(String, String)> = lines.iter().map(|x| (x.1.into(), x.2.into())).collect();
                ensure!(all.as_ref().ok() == Some(&w), "all values are {:?}", all.ok());
            } else { ensure!(g.is_err() && all.is_err(), "a value without a section"); }
            let set = match (info, hit) { (None, _) => Err(()), (_, Some(x)) => Ok(with(&v, x.0, &format!("{key}: {val}"))), (Some(h), None) => Ok(after(&v, h, &format!("{key}: {val}\n"))) };
            run(&s, |d| SetScriptInfoCommand::new(key.clone(), val.clone()).execute(d), set).map_err(|e| format!("set: {e}"))?;
            let del = match (info, hit) { (None, _) => Err(()), (_, Some(x)) => Ok(without(&v, x.0..x.0 + 1)), _ => Ok(s.clone()) };
            run(&s, |d| DeleteScriptInfoCommand::new(key.clone()).execute(d), del).map_err(|e| format!("delete: {e}"))?;
            let mut d = EditorDocument::from_content(&s).map_err(|e| e.to_string())?;
            d.set_script_info_field(&key, &val).map_err(|e| e.to_string())?;
            let w = hit.map_or(s.clone(), |x| with(&v, x.0, &format!("{key}: {val}")));
            ensure!(d.text() == w, "set_script_info_field gives {:?}, expected {w:?}", d.text());
            Ok(())
        });
        // styles
        let r = &mut cx.rng;
        let (name, to) = (r.pick(NAMES).to_string(), r.pick(&["S0", "New", "S1", "Ünew"]).to_string());
        let ups: Vec<(String, String)> = (0..1 + r.us(3)).map(|_| (r.pick(COLS).to_string(), r.pick(&["X", "99", "Comic Sans", "S0"]).to_string())).chain(Some(("Nope".into(), "q".into()))).collect();
        let f = find(&v, &name);
        cx.check("style_commands", || format!("{name:?} to {to:?}, {ups:?} in {s:?}"), || {
            let edit = match &f {
                Some(f) if f.fields.len() >= 2 && !f.cols.is_empty() => {
                    let mut g = Found { line: f.line, head: f.head.clone(), cols: f.cols.clone(), fields: f.fields.clone() };
                    for (k, x) in &ups { if let Some(c) = g.cols.iter().position(|c| c == k) { if c < g.fields.len() { g.fields[c].1 = x.clone() } } }
                    Ok(with(&v, g.line, &g.text()))
                }
                _ => Err(()),
            };
            run(&s, |d| ups.iter().fold(EditStyleCommand::new(name.clone()), |c, (k, x)| c.set_field(k, x.clone())).execute(d), edit).map_err(|e| format!("edit: {e}"))?;
            let del = f.as_ref().map(|f| without(&v, f.line..f.line + 1)).ok_or(());
            run(&s, |d| DeleteStyleCommand::new(name.clone()).execute(d), del).map_err(|e| format!("delete: {e}"))?;
            let clone = match (&f, find(&v, &to)) {
                (Some(f), None) => {
                    let mut g = Found { line: f.line, head: f.head.clone(), cols: f.cols.clone(), fields: f.fields.clone() };
                    g.fields[f.cols.iter().position(|c| c == "Name").unwrap_or(0)].1 = to.clone();
                    let (l, b) = (&v[f.line].0, bare(&v[f.line].0).len());
                    Ok(with(&v, f.line, &format!("{}\n{}", &l[..b], g.text())))
                }
                _ => Err(()),
            };
            run(&s, |d| CloneStyleCommand::new(name.clone(), to.clone()).execute(d), clone).map_err(|e| format!("clone: {e}"))?;
            let mut d = EditorDocument::from_content(&s).map_err(|e| e.to_string())?;
            if let Some(f) = &f {
                d.edit_style_line(&name, "Style: whole,line").map_err(|e| e.to_string())?;
                let w = with(&v, f.line, "Style: whole,line");
                ensure!(d.text() == w, "edit_style_line gives {:?}, expected {w:?}", d.text());
            }
            Ok(())
        });
        cx.check("create_style", || format!("{to:?} in {s:?}"), || {
            let b = StyleBuilder::new().font("Foo Sans").size(77).bold(true);
            let mut d = EditorDocument::from_content(&s).map_err(|e| e.to_string())?;
            CreateStyleCommand::new(to.clone(), b).execute(&mut d).map_err(|e| e.to_string())?;
            let got = d.text();
            let mut e = EditorDocument::from_content(&s).map_err(|e| e.to_string())?;
            e.add_style_line("Style: added,line").map_err(|e| e.to_string())?;
            let mut ev = EditorDocument::from_content(&s).map_err(|e| e.to_string())?;
            ev.add_event_line("Dialogue: added,line").map_err(|e| e.to_string())?;
            let place = |hs: &[&str]| header(&v, hs).map(|h| (h..v.len()).find(|i| in_any(&v[*i].1, hs) && value_of(&v[*i].0, "Format").is_some()).unwrap_or(h));
            if let Some(p) = place(STYLES) {
                let names: Option<Vec<&str>> = value_of(&v[p].0, "Format").map(|f| f.split(',').map(str::trim).collect());
                let pre: String = v[..=p].iter().map(|x| x.0.as_str()).collect();
                let rest = got.get(pre.len()..).filter(|_| got.starts_with(&pre)).ok_or(format!("text before changed: {got:?}"))?;
                let rest = if pre.ends_with('\n') { rest } else { rest.strip_prefix('\n').ok_or("no line break before the new line")? };
                let (line, tail) = rest.split_once('\n').ok_or("no line break after the new line")?;
                let post: String = v[p + 1..].iter().map(|x| x.0.as_str()).collect();
                ensure!(tail == post, "text after changed: {got:?}");
                let fs: Vec<&str> = line.strip_prefix("Style: ").ok_or(format!("new line is {line:?}"))?.split(',').collect();
                if let Some(n) = names {
                    ensure!(fs.len() == n.len(), "{} fields for {} columns: {line:?}", fs.len(), n.len());
                    for (c, x) in n.iter().zip(&fs) {
                        let w = match *c { "Name" => to.as_str(), "Fontname" => "Foo Sans", "Fontsize" => "77", "Bold" => "-1", _ => continue };
                        ensure!(*x == w, "column {c} of the new style is {x:?} in {line:?}");
                    }
                } else { ensure!(fs[0] == to, "new line is {line:?}"); }
                let w = after(&v, p, "Style: added,line\n");
                ensure!(e.text() == w, "add_style_line gives {:?}, expected {w:?}", e.text());
            } else {
                for (g, l) in [(&got, format!("Style: {to},")), (&e.text(), "Style: added,line".into())] {
                    let (a, c) = (g.find("\n[V4+ Styles]\nFormat: Name, "), g.find(&format!("\n{l}")));
                    let (a, c) = (a.ok_or("no new section")?, c.ok_or("no new style")?);
                    let end = c + 1 + g[c + 1..].find('\n').ok_or("no line break after the new line")? + 1;
                    ensure!(format!("{}{}", &g[..a], &g[end..]) == s && a < c, "the rest changed: {g:?}");
                }
            }
            if let Some(p) = place(&["[Events]"]) { let w = after(&v, p, "Dialogue: added,line\n"); ensure!(ev.text() == w, "add_event_line gives {:?}, expected {w:?}", ev.text()); }
            Ok(())
        });
        let r = &mut cx.rng;
        let filter = if r.chance(1, 2) { Some(r.pick(&["word", "S0", "é", "fx", "zzz"]).to_string()) } else { None };
        cx.check("apply_style", || format!("{name:?} to {to:?}, {filter:?} in {s:?}"), || {
            let w: String = v.iter().map(|(l, sec)| match event(l) {
                Some((a, st, b, t)) if in_any(sec, &["[Events]"]) && st.trim() == name && filter.as_ref().is_none_or(|f| t.contains(f.as_str())) => format!("{a}{},{b}{}", st.replace(name.as_str(), &to), &l[bare(l).len()..]),
                _ => l.clone(),
            }).collect();
            let mut c = ApplyStyleCommand::new(name.clone(), to.clone());
            if let Some(f) = &filter { c = c.with_filter(f.clone()) }
            run(&s, |d| { let mut x = c.execute(d); if let Ok(r) = &mut x { r.content_changed |= name == to } x }, if header(&v, &["[Events]"]).is_some() { Ok(w) } else { Err(()) })?;
            let old = filter.clone().unwrap_or("word".into());
            let at = v.iter().position(|(l, sec)| in_any(sec, &["[Events]"]) && event(l).is_some_and(|e| e.3.contains(&old)));
            let w = at.map_or(s.clone(), |i| { let (l, t) = (&v[i].0, event(&v[i].0).unwrap().3); let p = bare(l).trim_end().len() - t.len(); format!("{}{}{}{}{}", join(&v[..i]), &l[..p], l[p..].replacen(old.as_str(), "NEW", 1), "", join(&v[i + 1..])) });
            let mut d = EditorDocument::from_content(&s).map_err(|e| e.to_string())?;
            d.edit_event_text(&old, "NEW").map_err(|e| e.to_string())?;
            ensure!(d.text() == w, "edit_event_text({old:?}) gives {:?}, expected {w:?}", d.text());
            Ok(())
        });
        // embedded files
        let r = &mut cx.rng;
        let (file, data) = (r.pick(FILES).to_string(), (0..r.us(3)).map(|_| r.pick(&["M123", "!x", "`"]).to_string()).collect::<Vec<_>>());
        for font in [true, false] {
            let (h, key) = if font { ("[Fonts]", "fontname:") } else { ("[Graphics]", "filename:") };
            cx.check("embedded_file_commands", || format!("{h} {file:?} {data:?} in {s:?}"), || {
                let fs = files(&v, h, key);
                let entry = format!("{key} {file}\n{}", data.iter().map(|l| format!("{l}\n")).collect::<String>());
                let add = match &fs { Some((_, e, _)) => after(&v, e - 1, &entry), None => format!("{s}{}{h}\n{entry}", if s.is_empty() || s.ends_with('\n') { "" } else { "\n" }) };
                run(&s, |d| if font { AddFontCommand::new(file.clone(), data.clone()).execute(d) } else { AddGraphicCommand::new(file.clone(), data.clone()).execute(d) }, Ok(add)).map_err(|e| format!("add: {e}"))?;
                let rem = fs.as_ref().map(|(_, _, l)| l.iter().find(|x| x.0 == file).map_or(s.clone(), |x| without(&v, x.1.clone()))).ok_or(());
                run(&s, |d| if font { RemoveFontCommand::new(file.clone()).execute(d) } else { RemoveGraphicCommand::new(file.clone()).execute(d) }, rem).map_err(|e| format!("remove: {e}"))?;
                let clear = fs.as_ref().map_or(s.clone(), |(a, e, _)| without(&v, a + 1..*e));
                run(&s, |d| if font { ClearFontsCommand::new().execute(d) } else { ClearGraphicsCommand::new().execute(d) }, Ok(clear)).map_err(|e| format!("clear: {e}"))?;
                let d = EditorDocument::from_content(&s).map_err(|e| e.to_string())?;
                let l = if font { ListFontsCommand::new().list(&d) } else { ListGraphicsCommand::new().list(&d) }.map_err(|e| e.to_string())?;
                let w: Vec<String> = fs.iter().flat_map(|x| x.2.iter().map(|f| f.0.clone())).collect();
                ensure!(l == w, "listed {l:?}, expected {w:?}");
                Ok(())
            });
        }
    }
    // override tags
    for _ in 0..cx.n(6000) {
        let r = &mut cx.rng;
        let s = r.string(TAGS, 14);
        let bounds: Vec<usize> = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect();
        let (a, b) = if r.chance(2, 3) { (0, s.len()) } else { let (a, b) = (*r.pick(&bounds), *r.pick(&bounds)); (a.min(b), a.max(b)) };
        let pat = r.pick(&["\\b", "\\b1", "\\fn", "\\", "", "b", "é", "\\t", "\\1c", "\\p"]).to_string();
        let new = r.pick(&["\\b0", "", "\\é", "\\fs9"]).to_string();
        let (all, keep) = (r.chance(1, 2), r.chance(1, 3));
        let wraps = *r.pick(&[("\\b1", "\\b0"), ("\\b700", "\\b0"), ("\\i1", "\\i0"), ("\\u1", "\\u0"), ("\\s1", "\\s0"), ("\\c&H00FF00&", "\\c"), ("\\1c&HFF&", "\\c"), ("\\fs20", "\\r"), ("\\blur2", "\\r"), ("\\bord3", "\\r"), ("\\shad1", "\\r"), ("\\be1", "\\r"), ("\\an8", "\\r"), ("\\b", "\\b0")]);
        let text = &s[a..b];
        // contents of the blocks, and whether each is closed
        let (mut blocks, mut depth, mut from) = (vec![], 0, 0);
        for (i, c) in text.bytes().enumerate() {
            if c == b'{' { if depth == 0 { from = i + 1 } depth += 1 } else if c == b'}' && depth > 0 { depth -= 1; if depth == 0 { blocks.push((from, i, true)) } }
        }
        if depth > 0 { blocks.push((from, text.len(), false)) }
        let tags = |x: &str, at: usize| { let mut o = Ref::default(); block_tags(x, at, &mut o); o.tags };
        cx.check("tag_commands", || format!("{pat:?} {new:?} all={all} keep={keep} range {a}..{b} of {s:?}"), || {
            let range = Range::new(Position::new(a), Position::new(b));
            for p in [None, Some(pat.clone())] {
                let (mut w, mut at) = (String::new(), 0);
                for &(x, y, closed) in &blocks { if closed {
                    w += &text[at..x - 1]; at = y + 1;
                    let mut inner = String::new();
                    if let Some(p) = &p {
                        let p = p.strip_prefix('\\').unwrap_or(p);
                        let mut k = x;
                        for t in tags(&text[x..y], x) { let e = t.pos + 1 + t.name.len() + t.args.len(); if t.name.starts_with(p) { inner += &text[k..t.pos]; k = e } }
                        inner += &text[k..y];
                    }
                    if keep || !inner.is_empty() { w += &format!("{{{inner}}}") }
                } }
                w += &text[at..];
                let mut c = RemoveTagCommand::new(range);
                if let Some(p) = p { c = c.pattern(p) }
                if keep { c = c.keep_empty_overrides() }
                run(&s, |d| { let mut x = c.execute(d); if let Ok(r) = &mut x { r.content_changed = true } x }, Ok(format!("{}{w}{}", &s[..a], &s[b..]))).map_err(|e| format!("remove: {e}"))?;
            }
            let (mut w, mut at, mut done) = (String::new(), 0, false);
            let mut want: Vec<(String, usize)> = vec![];
            for &(x, y, closed) in &blocks { for t in tags(&text[x..y], x) {
                let full = format!("\\{}{}", t.name, t.args);
                want.push((if t.args.starts_with('(') && t.args.ends_with(')') { format!("\\{}", t.name) } else { full.clone() }, a + t.pos));
                if closed && full.starts_with(&pat) && (all || !done) { w += &text[at..t.pos]; w += &new; at = t.pos + pat.len(); done = true }
            } }
            w += &text[at..];
            let mut c = ReplaceTagCommand::new(range, pat.clone(), new.clone());
            if all { c = c.all() }
            run(&s, |d| c.execute(d), Ok(format!("{}{w}{}", &s[..a], &s[b..]))).map_err(|e| format!("replace: {e}"))?;
            let got = ParseTagCommand::new(range).with_positions().parse_tags_from_text(text).map_err(|e| e.to_string())?;
            let got: Vec<(String, usize)> = got.into_iter().map(|t| (t.tag, t.position.map_or(usize::MAX, |p| p.offset))).collect();
            ensure!(got == want, "parsed {got:?}, expected {want:?}");
            let (open, close) = wraps;
            run(&s, |d| WrapTagCommand::new(range, open.into()).execute(d), Ok(format!("{}{{{open}}}{text}{{{close}}}{}", &s[..a], &s[b..]))).map_err(|e| format!("wrap in {open}: {e}"))?;
            // a range whose start is inside a character is refused, and nothing changes
            if let Some(x) = (0..b).find(|&x| !s.is_char_boundary(x)) {
                let bad = Range::new(Position::new(x), Position::new(b));
                run(&s, |d| WrapTagCommand::new(bad, open.into()).execute(d), Err(())).map_err(|e| format!("wrap of a range inside a character: {e}"))?;
            }
            run(&s, |d| InsertTagCommand::new(Position::new(b), "\\i1".into()).execute(d), Ok(format!("{}{{\\i1}}{}", &s[..b], &s[b..]))).map_err(|e| format!("insert: {e}"))
        });
    }
}
