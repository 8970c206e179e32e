use crate::ensure;
use crate::fw::{Cx, Rng};
use ass_core::Script;
use ass_renderer::collision::{BoundingBox, CollisionDetector, CollisionResolver, PositionedEvent, SmartCollisionResolver};
use ass_renderer::renderer::EventSelector;
use std::collections::BTreeSet;

pub fn fmt_time(cs: u32) -> String {
    format!("{}:{:02}:{:02}.{:02}", cs / 360_000, cs / 6000 % 60, cs / 100 % 60, cs % 100)
}

#[derive(Clone, Debug)]
struct Ev { kind: u8, start: u32, end: u32, text: &'static str }
const TEXTS: &[&str] = &["plain", "a", "{\\fad(100,100)}x", "{\\t(\\fs20)}x", "{\\move(1,2,3,4)}x", "{\\k20}ka", "{\\b1}bold", "{\\fade(1,2,3,4,5,6,7)}z", "{\\K9}q", "", "{\\pos(1,2)}p"];

fn render_script(evs: &[Ev], has_section: bool) -> String {
    let mut s = String::from("[Script Info]\nTitle: t\n");
    if has_section {
        s += "\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n";
        for e in evs {
            let k = ["Dialogue", "Comment", "Picture", "Command"][e.kind as usize];
            s += &format!("{k}: 0,{},{},Default,,0,0,0,,{}\n", fmt_time(e.start), fmt_time(e.end), e.text);
        }
    }
    s
}
fn gen_events(r: &mut Rng) -> Vec<Ev> {
    let n = if r.chance(1, 10) { r.us(40) } else { r.us(7) };
    let span = *r.pick(&[5u32, 20, 300, 5000, 400_000]);
    (0..n).map(|_| {
        let start = r.below(span as u64 + 1) as u32;
        let end = match r.below(6) { 0 => start, 1 => start.saturating_sub(r.below(3) as u32), 2 => span, _ => start + r.below(span as u64 / 2 + 2) as u32 };
        Ev { kind: *r.pick(&[0u8, 0, 0, 0, 1, 1, 2, 3]), start, end, text: r.pick(TEXTS) }
    }).collect()
}
fn animated(e: &Ev, t: u32) -> bool {
    let x = e.text;
    ["\\t(", "\\move(", "\\fade(", "\\fad("].iter().any(|p| x.contains(p)) || ((x.contains("\\k") || x.contains("\\K")) && t > e.start)
}

pub fn r03(cx: &mut Cx) {
    for _ in 0..cx.n(6000) {
        let mut r = Rng(cx.rng.next());
        // history: several scripts (re-parsed, equal-sized edits included), comment toggles, resets
        let mut steps: Vec<(Vec<Ev>, bool, u32, u8)> = vec![];
        let mut cur = gen_events(&mut r);
        let mut has = true;
        let mut render_comments = false;
        let nsteps = 1 + r.us(9);
        for _ in 0..nsteps {
            match r.below(8) {
                0 => { cur = gen_events(&mut r); has = !r.chance(1, 12); }
                1 => { for e in cur.iter_mut() { if r.chance(1, 3) { let d = r.below(30) as u32; e.start += d; e.end += d; } } }
                2 => { let a = r.us(cur.len().max(1)); if a < cur.len() { cur[a].kind = *r.pick(&[0u8, 1, 2, 3]); } }
                3 => render_comments = !render_comments,
                _ => {}
            }
            let mut cands: Vec<u32> = vec![0, 1, 99, 100, 101, 350_000, u32::MAX, 1 << 31];
            for e in &cur { cands.extend([e.start, e.end, e.start.saturating_sub(1), e.end.saturating_sub(1), e.start + 1, e.end + 1]); }
            let t = if r.chance(1, 3) && !steps.is_empty() { steps.last().unwrap().2.saturating_add(r.below(220) as u32).saturating_sub(100) } else { *r.pick(&cands) };
            let op = if r.chance(1, 15) { 1 } else { 0 } | if render_comments { 2 } else { 0 };
            steps.push((cur.clone(), has, t, op));
        }
        cx.check("active_events_history", || format!("{steps:?}"), || {
            let mut sel = EventSelector::new();
            let mut prev: BTreeSet<usize> = BTreeSet::new();
            let mut last: Option<u32> = None;
            for (i, (evs, has, t, op)) in steps.iter().enumerate() {
                if op & 1 != 0 { sel.reset(); prev.clear(); last = None; }
                let rc = op & 2 != 0;
                sel.set_render_comments(rc);
                let src = render_script(evs, *has);
                let script = Script::parse(&src).map_err(|e| format!("parse {e:?}"))?;
                let got = sel.select_active(&script, *t).map_err(|e| format!("err {e:?}"))?;
                let want: Vec<usize> = if !*has { vec![] } else {
                    evs.iter().enumerate().filter(|(_, e)| (e.kind == 0 || (e.kind == 1 && rc)) && e.start <= *t && *t < e.end).map(|(i, _)| i).collect()
                };
                let desc: Vec<(String, String, String)> = got.events.iter().map(|e| (e.start.to_string(), e.end.to_string(), e.text.to_string())).collect();
                let wdesc: Vec<(String, String, String)> = want.iter().map(|&i| (fmt_time(evs[i].start), fmt_time(evs[i].end), evs[i].text.to_string())).collect();
                ensure!(desc == wdesc, "step {i} t={t}: active {desc:?} expected {wdesc:?}");
                let w: BTreeSet<usize> = want.iter().copied().collect();
                let na: BTreeSet<usize> = got.newly_active.iter().copied().collect();
                let ni: BTreeSet<usize> = got.newly_inactive.iter().copied().collect();
                ensure!(na == w.difference(&prev).copied().collect() && na.len() == got.newly_active.len(), "step {i}: newly active {na:?}, now {w:?}, before {prev:?}");
                ensure!(ni == prev.difference(&w).copied().collect() && ni.len() == got.newly_inactive.len(), "step {i}: newly inactive {ni:?}");
                let dirty = w != prev || want.iter().any(|&i| animated(&evs[i], *t)) || last.map_or(true, |l| (i64::from(l) - i64::from(*t)).abs() > 100);
                ensure!(got.is_dirty == dirty, "step {i} t={t} last={last:?}: dirty={} expected {dirty}", got.is_dirty);
                prev = w; last = Some(*t);
            }
            Ok(())
        });
    }
    for _ in 0..cx.n(4000) {
        let mut r = Rng(cx.rng.next());
        let ext = [0u32, 1, u32::MAX, u32::MAX - 1, 1 << 31];
        let c = |r: &mut Rng| if r.chance(1, 12) { *r.pick(&ext) } else { r.below(30) as u32 };
        let rects: Vec<[u32; 4]> = (0..1 + r.us(6)).map(|_| [c(&mut r), c(&mut r), c(&mut r), c(&mut r)]).collect();
        cx.check("dirty_regions_cover", || format!("{rects:?}"), || {
            let mut sel = EventSelector::new();
            for (i, a) in rects.iter().enumerate() {
                sel.add_dirty_region(a[0], a[1], a[2], a[3]);
                for b in &rects[..=i] {
                    let fits = b[0] as u64 + b[2] as u64 <= u32::MAX as u64 && b[1] as u64 + b[3] as u64 <= u32::MAX as u64;
                    if !fits { continue; }
                    let ok = sel.dirty_regions().iter().any(|g| g.x <= b[0] && g.y <= b[1]
                        && g.x as u64 + g.width as u64 >= b[0] as u64 + b[2] as u64 && g.y as u64 + g.height as u64 >= b[1] as u64 + b[3] as u64);
                    ensure!(ok, "rect {b:?} lost: {:?}", sel.dirty_regions());
                }
                // nothing outside the joint bounding box is marked
                let (mx, my) = (rects[..=i].iter().map(|b| b[0]).min().unwrap(), rects[..=i].iter().map(|b| b[1]).min().unwrap());
                let bx = rects[..=i].iter().map(|b| b[0] as u64 + b[2] as u64).max().unwrap();
                let by = rects[..=i].iter().map(|b| b[1] as u64 + b[3] as u64).max().unwrap();
                for g in sel.dirty_regions() {
                    ensure!(g.x >= mx && g.y >= my && g.x as u64 + g.width as u64 <= bx && g.y as u64 + g.height as u64 <= by, "region {g:?} larger than the union's box");
                }
            }
            sel.clear_dirty_regions();
            ensure!(sel.dirty_regions().is_empty(), "clear");
            Ok(())
        });
    }
}

fn pe(b: BoundingBox, layer: i32, alignment: u8, priority: i32) -> PositionedEvent {
    PositionedEvent { bbox: b, layer, margin_v: 0, margin_l: 0, margin_r: 0, alignment, priority }
}
/// strict overlap of two boxes given as (x, y, w, h), with `gap` required between them
fn hit(a: [i64; 4], b: [i64; 4], gap: i64) -> bool {
    a[0] - gap < b[0] + b[2] + gap && a[0] + a[2] + gap > b[0] - gap && a[1] - gap < b[1] + b[3] + gap && a[1] + a[3] + gap > b[1] - gap
}
fn bb(a: [i64; 4]) -> BoundingBox { BoundingBox::new(a[0] as f32, a[1] as f32, a[2] as f32, a[3] as f32) }
fn arr(b: BoundingBox) -> [i64; 4] { [b.x as i64, b.y as i64, b.width as i64, b.height as i64] }
/// nearest position in the stacking direction that overlaps no same-layer box, clamped into the frame
fn expect_place(prior: &[([i64; 4], i32)], want: [i64; 4], layer: i32, down: bool, gap: i64, sh: i64) -> i64 {
    let same: Vec<[i64; 4]> = prior.iter().filter(|p| p.1 == layer).map(|p| p.0).collect();
    let mut cand: Vec<i64> = vec![want[1]];
    for b in &same { cand.push(if down { b[1] + b[3] + 2 * gap } else { b[1] - want[3] - 2 * gap }); }
    cand.retain(|&y| if down { y >= want[1] } else { y <= want[1] });
    let free: Vec<i64> = cand.into_iter().filter(|&y| !same.iter().any(|&b| hit([want[0], y, want[2], want[3]], b, gap))).collect();
    let y = if down { free.into_iter().min() } else { free.into_iter().max() }.expect("a free position exists");
    y.clamp(0, (sh - want[3]).max(0))
}

pub fn r04(cx: &mut Cx) {
    for _ in 0..cx.n(20_000) {
        let mut r = Rng(cx.rng.next());
        let sh = *r.pick(&[20i64, 60, 200, 1080]);
        let gap = *r.pick(&[0i64, 1, 2, 2, 5]);
        let mx = if r.chance(1, 5) { 14 } else { 5 };
        let n = 1 + r.us(mx);
        let ops: Vec<([i64; 4], i32, u8, bool)> = (0..n).map(|_| {
            let h = r.range(1, (sh / 3).max(2));
            ([r.range(0, 30), r.range(-5, sh), r.range(1, 25), h], r.range(0, 1) as i32 * r.range(0, 1) as i32, r.range(1, 9) as u8, r.chance(1, 4))
        }).collect();
        cx.check("stacking_non_overlap", || format!("screen height {sh} gap {gap} ops(box,layer,align,fixed) {ops:?}"), || {
            let mut res = CollisionResolver::new(640.0, sh as f32);
            res.set_collision_margin(gap as f32);
            let mut placed: Vec<([i64; 4], i32)> = vec![];
            for (i, (b, layer, al, fixed)) in ops.iter().enumerate() {
                if *fixed { res.add_fixed(pe(bb(*b), *layer, *al, 0)); placed.push((*b, *layer)); }
                else {
                    let g = res.find_position(pe(bb(*b), *layer, *al, 0));
                    let y = expect_place(&placed, *b, *layer, !(1..=3).contains(al), gap, sh);
                    ensure!(arr(g) == [b[0], y, b[2], b[3]], "op {i}: placed {:?} expected y {y}", arr(g));
                    placed.push(([b[0], y, b[2], b[3]], *layer));
                }
                let rec: Vec<([i64; 4], i32)> = res.positioned_events().iter().map(|e| (arr(e.bbox), e.layer)).collect();
                ensure!(rec == placed, "op {i}: recorded {rec:?} expected {placed:?}");
            }
            res.clear();
            ensure!(res.positioned_events().is_empty(), "clear");
            Ok(())
        });
        let prios: Vec<i32> = ops.iter().map(|_| *r.pick(&[-5, 0, 1, 50, 99, 100, 101, 500])).collect();
        let thr = *r.pick(&[100, 100, 0, 50]);
        cx.check("priority_stacking", || format!("screen height {sh} threshold {thr} ops {ops:?} priorities {prios:?}"), || {
            let mut s = SmartCollisionResolver::new(640.0, sh as f32);
            s.set_priority_threshold(thr);
            let mut evs: Vec<PositionedEvent> = ops.iter().zip(&prios).enumerate().map(|(i, ((b, l, a, _), p))| { let mut e = pe(bb(*b), *l, *a, *p); e.margin_v = i as i32; e }).collect();
            for _ in 0..2 {
                let before = evs.clone();
                s.process_events(&mut evs);
                let mut ord: Vec<PositionedEvent> = before;
                ord.sort_by_key(|e| -e.priority);
                let mut placed: Vec<([i64; 4], i32)> = vec![];
                ensure!(evs.len() == ord.len(), "event count");
                for (g, w) in evs.iter().zip(&ord) {
                    let want = arr(w.bbox);
                    let y = if w.priority >= thr { want[1] } else { expect_place(&placed, want, w.layer, !(1..=3).contains(&w.alignment), 2, sh) };
                    ensure!(g.margin_v == w.margin_v && g.priority == w.priority && arr(g.bbox) == [want[0], y, want[2], want[3]], "event {} placed {:?} expected y {y}", w.margin_v, arr(g.bbox));
                    placed.push((arr(g.bbox), w.layer));
                }
            }
            Ok(())
        });
        let ex: Vec<[i64; 4]> = ops[1..].iter().map(|o| o.0).collect();
        let b = ops[0].0;
        cx.check("overlap_geometry", || format!("box {b:?} others {ex:?}"), || {
            let s = SmartCollisionResolver::new(640.0, sh as f32);
            let exb: Vec<BoundingBox> = ex.iter().map(|e| bb(*e)).collect();
            let any = ex.iter().any(|e| hit(b, *e, 0));
            ensure!(s.check_collision(&bb(b), &exb) == any, "check_collision");
            for e in &ex {
                ensure!(bb(b).intersects(&bb(*e)) == hit(b, *e, 0), "intersects {e:?}");
                let ox = ((b[0] + b[2]).min(e[0] + e[2]) - b[0].max(e[0])).max(0);
                let oy = ((b[1] + b[3]).min(e[1] + e[3]) - b[1].max(e[1])).max(0);
                ensure!(bb(b).overlap_area(&bb(*e)) == (ox * oy) as f32, "overlap area {e:?}");
            }
            let m = bb(b).expand(3.0);
            ensure!(arr(m) == [b[0] - 3, b[1] - 3, b[2] + 6, b[3] + 6], "expand");
            ensure!(bb(b).center() == (b[0] as f32 + b[2] as f32 / 2.0, b[1] as f32 + b[3] as f32 / 2.0), "center");
            if let Some((px, py)) = s.find_free_position(&bb(b), &exb, &BoundingBox::new(0.0, 0.0, 640.0, sh as f32)) {
                ensure!(!ex.iter().any(|e| hit([px as i64, py as i64, b[2], b[3]], *e, 0)) && px as i64 == b[0], "free position ({px},{py}) overlaps");
            } else { ensure!(any || b[1] + b[3] > sh || b[1] < 0, "no free position reported although the requested one is free"); }
            Ok(())
        });
    }
}

pub fn r05(cx: &mut Cx) {
    use ass_renderer::utils::TextureAtlas;
    for _ in 0..cx.n(12_000) {
        let mut r = Rng(cx.rng.next());
        let (w, h) = (r.range(0, 24) as u32, r.range(0, 24) as u32);
        let ext = [u32::MAX, u32::MAX - 3, 1 << 31, 1 << 30];
        let ops: Vec<(u32, u32, bool)> = (0..1 + r.us(14)).map(|_| {
            let d = |r: &mut Rng, m: u32| match r.below(14) { 0 => *r.pick(&ext), 1 => m, 2 => m + 1, 3 => 0, _ => r.below(m as u64 / 2 + 3) as u32 };
            (d(&mut r, w), d(&mut r, h), r.chance(1, 25))
        }).collect();
        let short = r.chance(1, 10);
        cx.check("atlas_disjoint_in_bounds", || format!("atlas {w}x{h} requests (w,h,clear-first) {ops:?} short={short}"), || {
            let mut a = TextureAtlas::new(w, h);
            let mut live: Vec<ass_renderer::verif_hooks::AtlasRegion> = vec![];
            let mut model = vec![0u8; (w * h * 4) as usize];
            for (i, &(rw, rh, clr)) in ops.iter().enumerate() {
                if clr { a.clear(); live.clear(); model.fill(0); ensure!(a.data() == &model[..], "clear leaves pixels"); }
                let Some(g) = a.allocate(rw, rh) else {
                    ensure!(!(live.is_empty() && rw <= w && rh <= h), "op {i}: empty atlas refused a region that fits");
                    continue;
                };
                ensure!((g.width, g.height) == (rw, rh), "op {i}: size changed {g:?}");
                ensure!(g.x as u64 + rw as u64 <= w as u64 && g.y as u64 + rh as u64 <= h as u64, "op {i}: {g:?} leaves the {w}x{h} atlas");
                for o in &live {
                    let dis = g.x as u64 + rw as u64 <= o.x as u64 || o.x as u64 + o.width as u64 <= g.x as u64 || g.y as u64 + rh as u64 <= o.y as u64 || o.y as u64 + o.height as u64 <= g.y as u64;
                    ensure!(dis || rw == 0 || rh == 0 || o.width == 0 || o.height == 0, "op {i}: {g:?} overlaps {o:?}");
                    ensure!(o.id != g.id, "op {i}: duplicate id");
                }
                let n = (rw * rh * 4) as usize;
                let px: Vec<u8> = (0..n).map(|k| (k as u32 * 7 + i as u32 * 31 + 1) as u8).collect();
                if short && n > 0 {
                    // fewer bytes than the region needs: only whole supplied rows are written
                    let cut = &px[..n - 1];
                    a.write_region(&g, cut);
                } else { a.write_region(&g, &px); }
                let rows = if short && n > 0 { rh - 1 } else { rh };
                for y in 0..rows { for x in 0..rw * 4 { model[((g.y + y) * w * 4 + g.x * 4 + x) as usize] = px[(y * rw * 4 + x) as usize]; } }
                ensure!(a.data() == &model[..], "op {i}: pixels outside the region changed or region pixels wrong");
                live.push(g);
            }
            Ok(())
        });
    }
}

pub fn r06(cx: &mut Cx) {
    use ass_renderer::cache::{DrawingCacheKey, RenderCache, TextCacheKey};
    use ass_renderer::utils::GlyphCache;
    use ass_renderer::verif_hooks::{CachedGlyph, GlyphKey, ShapedText};
    use std::collections::HashMap;
    for _ in 0..cx.n(6000) {
        let mut r = Rng(cx.rng.next());
        let cap = r.us(6);
        let ops: Vec<(u8, u16)> = (0..r.us(40)).map(|_| (*r.pick(&[0u8, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 2]), r.below(9) as u16)).collect();
        cx.check("glyph_cache_bounded_truthful", || format!("cap {cap} ops {ops:?}"), || {
            let key = |k: u16| GlyphKey { font_family: format!("f{}", k % 2), glyph_id: k, size: 10, style_flags: (k % 3) as u32 };
            let mut c = GlyphCache::new(cap);
            let mut model: HashMap<u16, u32> = HashMap::new();
            for (i, &(o, k)) in ops.iter().enumerate() {
                match o {
                    0 => {
                        let before: HashMap<u16, u32> = (0..9).filter_map(|k| c.get(&key(k)).map(|g| (k, g.width))).collect();
                        c.insert(key(k), CachedGlyph { bitmap: vec![], width: i as u32 + 1, height: 0, advance: 0.0, bearing_x: 0.0, bearing_y: 0.0 });
                        model.insert(k, i as u32 + 1);
                        ensure!(c.len() <= cap, "op {i}: {} entries, limit {cap}", c.len());
                        if cap > 0 { ensure!(c.get(&key(k)).map(|g| g.width) == Some(i as u32 + 1), "op {i}: inserted glyph not returned"); }
                        let lost = before.keys().filter(|q| **q != k && c.get(&key(**q)).is_none()).count();
                        let must = usize::from(!before.contains_key(&k) && before.len() >= cap && cap > 0);
                        ensure!(lost == must, "op {i}: {lost} other entries evicted, expected {must}");
                    }
                    1 => {}
                    _ => { c.clear(); model.clear(); ensure!(c.is_empty(), "clear"); }
                }
                let mut present = 0;
                for q in 0..9u16 { if let Some(g) = c.get(&key(q)) { present += 1; ensure!(model.get(&q) == Some(&g.width), "op {i}: stale value for key {q}"); } }
                ensure!(present == c.len() && c.is_empty() == (present == 0), "op {i}: len {} but {present} present", c.len());
            }
            Ok(())
        });
        let (c1, c2) = (r.us(5), r.us(5));
        let ops: Vec<(u8, u16)> = (0..r.us(40)).map(|_| (r.below(4) as u8, r.below(7) as u16)).collect();
        cx.check("render_cache_bounded_truthful", || format!("limits {c1},{c2} ops {ops:?}"), || {
            let mut c = RenderCache::with_limits(c1, c2);
            let tk = |k: u16| TextCacheKey { text: format!("t{}", k / 4), font_family: "f".into(), font_size: 12, bold: k & 1 == 1, italic: k & 2 == 2 };
            let dk = |k: u16| DrawingCacheKey { commands: format!("m {k}") };
            let path = |n: usize| { let mut b = tiny_skia::PathBuilder::new(); b.move_to(0.0, 0.0); b.line_to(n as f32, 1.0); b.finish() };
            let st = |n: usize| ShapedText { glyphs: vec![], width: n as f32, height: 0.0, baseline: 0.0, font_size: 1.0, ascent: 0.0, descent: 0.0, ink_min: 0.0, ink_max: 0.0 };
            let (mut mt, mut md): (HashMap<u16, usize>, HashMap<u16, Option<usize>>) = Default::default();
            let (mut th, mut tm, mut dh, mut dm) = (0, 0, 0, 0);
            let mut look_t = |c: &mut RenderCache, k: u16| { let g = c.get_shaped_text(&tk(k)); if g.is_some() { th += 1 } else { tm += 1 } (g.map(|s| s.width as usize), th, tm) };
            let mut look_d = |c: &mut RenderCache, k: u16| { let g = c.get_drawing_path(&dk(k)); if g.is_some() { dh += 1 } else { dm += 1 } (g.map(|p| p.map(|p| p.bounds().right() as usize)), dh, dm) };
            for (i, &(o, k)) in ops.iter().enumerate() {
                let i1 = i + 1;
                match o {
                    0 => {
                        let before = (0..7u16).filter(|q| look_t(&mut c, *q).0.is_some()).collect::<Vec<_>>();
                        let a = c.store_shaped_text(tk(k), st(i1)); ensure!(a.width == i1 as f32, "store returns the stored text");
                        mt.insert(k, i1);
                        let after = (0..7u16).filter(|q| look_t(&mut c, *q).0.is_some()).collect::<Vec<_>>();
                        ensure!(after.len() <= c1, "op {i}: {} shaped entries, limit {c1}", after.len());
                        let lost = before.iter().filter(|q| **q != k && !after.contains(q)).count();
                        let must = usize::from(!before.contains(&k) && before.len() >= c1 && c1 > 0);
                        ensure!(lost == must, "op {i}: {lost} shaped texts evicted, expected {must}");
                        if c1 > 0 { ensure!(after.contains(&k), "op {i}: stored text missing"); }
                    }
                    1 => {
                        let p = if k == 6 { None } else { path(i1) };
                        let before = (0..7u16).filter(|q| look_d(&mut c, *q).0.is_some()).collect::<Vec<_>>();
                        c.store_drawing_path(dk(k), p); md.insert(k, if k == 6 { None } else { Some(i1) });
                        let after = (0..7u16).filter(|q| look_d(&mut c, *q).0.is_some()).collect::<Vec<_>>();
                        ensure!(after.len() <= c2, "op {i}: {} drawing entries, limit {c2}", after.len());
                        let lost = before.iter().filter(|q| **q != k && !after.contains(q)).count();
                        let must = usize::from(!before.contains(&k) && before.len() >= c2 && c2 > 0);
                        ensure!(lost == must, "op {i}: {lost} drawings evicted, expected {must}");
                        if c2 > 0 { ensure!(after.contains(&k), "op {i}: stored drawing missing"); }
                    }
                    _ => {}
                }
                let (g, h1, m1) = look_t(&mut c, k);
                if let Some(v) = g { ensure!(mt.get(&k) == Some(&v), "op {i}: stale shaped text"); }
                let (g, h2, m2) = look_d(&mut c, k);
                if let Some(v) = g { ensure!(md.get(&k) == Some(&v), "op {i}: stale drawing"); }
                let s = c.stats();
                ensure!((s.text_hits, s.text_misses, s.drawing_hits, s.drawing_misses) == (h1, m1, h2, m2), "op {i}: statistics {s:?}");
            }
            c.clear();
            ensure!(c.get_shaped_text(&tk(0)).is_none() && c.get_drawing_path(&dk(0)).is_none() && c.stats().text_misses == 1 && c.stats().evictions == 0, "clear");
            Ok(())
        });
    }
}

pub fn r07(cx: &mut Cx) {
    use ass_renderer::utils::DirtyRegion as D;
    let vals = [0u32, 1, 2, 3, 7, 100, 1 << 31, u32::MAX - 1, u32::MAX];
    for _ in 0..cx.n(120_000) {
        let mut r = Rng(cx.rng.next());
        let m = r.below(3);
        let c = |r: &mut Rng| match m { 0 => r.below(7) as u32, 1 => *r.pick(&vals), _ => r.next() as u32 };
        let a = D::new(c(&mut r), c(&mut r), c(&mut r), c(&mut r));
        let b = D::new(c(&mut r), c(&mut r), c(&mut r), c(&mut r));
        let (px, py) = (c(&mut r), c(&mut r));
        cx.check("dirty_region_algebra", || format!("a={a:?} b={b:?} p=({px},{py})"), || {
            let inside = |d: &D, x: u32, y: u32| x >= d.x && y >= d.y && (x as u64) < d.x as u64 + d.width as u64 && (y as u64) < d.y as u64 + d.height as u64;
            ensure!(a.contains_point(px, py) == inside(&a, px, py), "contains_point");
            ensure!(a.area() == a.width as u64 * a.height as u64, "area");
            let g = a.merge(&b);
            ensure!(g == b.merge(&a), "merge is not symmetric: {g:?} vs {:?}", b.merge(&a));
            ensure!(g.x == a.x.min(b.x) && g.y == a.y.min(b.y), "merge origin {g:?}");
            let r64 = (a.x as u64 + a.width as u64).max(b.x as u64 + b.width as u64);
            let b64 = (a.y as u64 + a.height as u64).max(b.y as u64 + b.height as u64);
            ensure!(g.width as u64 == (r64 - g.x as u64).min(u32::MAX as u64) && g.height as u64 == (b64 - g.y as u64).min(u32::MAX as u64), "merge extent {g:?}");
            let (x2, y2) = (b.x.saturating_add(b.width), b.y.saturating_add(b.height));
            let (ax2, ay2) = (a.x as u64 + a.width as u64, a.y as u64 + a.height as u64);
            let touch = a.x as u64 <= x2 as u64 && b.x as u64 <= ax2.min(u32::MAX as u64) && a.y as u64 <= y2 as u64 && b.y as u64 <= ay2.min(u32::MAX as u64);
            ensure!(a.intersects((b.x, b.y, x2, y2)) == touch, "intersects");
            Ok(())
        });
    }
    cx.check("full_screen_covers", || "full screen".into(), || {
        let f = D::full_screen();
        for &x in &vals[..8] { for &y in &vals[..8] { ensure!(f.contains_point(x, y), "({x},{y}) not covered"); } }
        for &x in &vals { ensure!(f.intersects((x, x, x, x)), "{x}"); let g = f.merge(&D::new(x, 1, 5, 5)); ensure!(g == f, "merge {g:?}"); }
        Ok(())
    });
}
