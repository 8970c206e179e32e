use vstd::prelude::*;
use vstd::string::*;
verus! {
//@@ struct crates/ass-core/parser/ast/span.rs Span derive(Clone, Copy)
//@@ struct crates/ass-core/parser/ast/style/definition.rs Style
pub struct CoreError { pub kind: u8 }
impl CoreError { #[verifier::external_body] pub fn parse(s: &str) -> CoreError { CoreError { kind: 0 } } }
pub type Result<T> = core::result::Result<T, CoreError>;
/// the set of text decorations: assumed contract of the bitflags type, one member per flag
#[derive(Clone, Copy)]
pub struct TextFormatting { pub bits: u8 }
pub uninterp spec fn set_of(f: TextFormatting) -> Set<int>;
pub const BOLD: u8 = 1;
pub const ITALIC: u8 = 2;
pub const UNDERLINE: u8 = 4;
pub const STRIKE_OUT: u8 = 8;
#[verifier::external_body]
fn no_flags() -> (r: TextFormatting) ensures set_of(r) == Set::<int>::empty() { TextFormatting { bits: 0 } }
#[verifier::external_body]
fn with_flag(f: TextFormatting, k: u8) -> (r: TextFormatting) ensures set_of(r) == set_of(f).insert(k as int) { TextFormatting { bits: f.bits | k } }
#[verifier::external_body]
fn without_flag(f: TextFormatting, k: u8) -> (r: TextFormatting) ensures set_of(r) == set_of(f).remove(k as int) { TextFormatting { bits: f.bits & !k } }
#[verifier::external_body]
fn has_flag(f: TextFormatting, k: u8) -> (r: bool) ensures r == set_of(f).contains(k as int) { f.bits & k != 0 }
//@@ struct crates/ass-core/analysis/styles/resolved_style/mod.rs ResolvedStyle pubfields
// ---- assumed contracts of the standard library and of IEEE arithmetic ------------------------------
#[verifier::external_body]
fn empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body]
fn owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body]
fn copy<'a>(p: &ResolvedStyle<'a>) -> (r: ResolvedStyle<'a>) ensures r == *p { ResolvedStyle { font_name: p.font_name.clone(), ..*p } }
pub uninterp spec fn mulf(a: f32, b: f32) -> f32;
pub uninterp spec fn addf(a: f32, b: f32) -> f32;
pub uninterp spec fn subf(a: f32, b: f32) -> f32;
pub uninterp spec fn halff(a: f32) -> f32;
pub uninterp spec fn divf(a: f32, b: f32) -> f32;
pub uninterp spec fn absf(a: f32) -> f32;
pub uninterp spec fn gtf(a: f32, b: f32) -> bool;
pub uninterp spec fn from16(a: u16) -> f32;
pub uninterp spec fn to16(a: f32) -> u16;
pub uninterp spec fn from32(a: u32) -> f32;
#[verifier::external_body]
fn mul(a: f32, b: f32) -> (r: f32) ensures r == mulf(a, b) { a * b }
#[verifier::external_body]
fn add(a: f32, b: f32) -> (r: f32) ensures r == addf(a, b) { a + b }
#[verifier::external_body]
fn sub(a: f32, b: f32) -> (r: f32) ensures r == subf(a, b) { a - b }
#[verifier::external_body]
fn half(a: f32) -> (r: f32) ensures r == halff(a) { a / 2.0 }
#[verifier::external_body]
fn div(a: f32, b: f32) -> (r: f32) ensures r == divf(a, b) { a / b }
#[verifier::external_body]
fn abs(a: f32) -> (r: f32) ensures r == absf(a) { a.abs() }
#[verifier::external_body]
fn gt(a: f32, b: f32) -> (r: bool) ensures r == gtf(a, b) { a > b }
#[verifier::external_body]
fn of_u16(a: u16) -> (r: f32) ensures r == from16(a) { f32::from(a) }
#[verifier::external_body]
fn to_u16(a: f32) -> (r: u16) ensures r == to16(a) { a as u16 }
#[verifier::external_body]
fn of_u32(a: u32) -> (r: f32) ensures r == from32(a) { a as f32 }
fn umin8(a: u8, b: u8) -> (r: u8) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
/// what a field text denotes, if it is readable (the readers are exercised by the bounded replay; colours are proved in c_color)
pub uninterp spec fn parse_float_of(s: Seq<char>) -> Option<f32>;
pub uninterp spec fn parse_font_size_of(s: Seq<char>) -> Option<f32>;
pub uninterp spec fn parse_percentage_of(s: Seq<char>) -> Option<f32>;
pub uninterp spec fn parse_u8_of(s: Seq<char>) -> Option<u8>;
pub uninterp spec fn parse_u16_of(s: Seq<char>) -> Option<u16>;
pub uninterp spec fn parse_color_with_default_of(s: Seq<char>) -> Option<[u8; 4]>;
pub open spec fn flag_of(s: Seq<char>) -> Option<bool> { if s == "0"@ { Some(false) } else if s == "1"@ { Some(true) } else { None } }
#[verifier::external_body]
fn parse_float(s: &str) -> (r: Result<f32>) ensures r is Ok == (parse_float_of(s@) is Some), r is Ok ==> parse_float_of(s@) == Some(r->Ok_0) { unimplemented!() }
#[verifier::external_body]
fn parse_font_size(s: &str) -> (r: Result<f32>) ensures r is Ok == (parse_font_size_of(s@) is Some), r is Ok ==> parse_font_size_of(s@) == Some(r->Ok_0) { unimplemented!() }
#[verifier::external_body]
fn parse_percentage(s: &str) -> (r: Result<f32>) ensures r is Ok == (parse_percentage_of(s@) is Some), r is Ok ==> parse_percentage_of(s@) == Some(r->Ok_0) { unimplemented!() }
#[verifier::external_body]
fn parse_u8(s: &str) -> (r: Result<u8>) ensures r is Ok == (parse_u8_of(s@) is Some), r is Ok ==> parse_u8_of(s@) == Some(r->Ok_0) { unimplemented!() }
#[verifier::external_body]
fn parse_u16(s: &str) -> (r: Result<u16>) ensures r is Ok == (parse_u16_of(s@) is Some), r is Ok ==> parse_u16_of(s@) == Some(r->Ok_0) { unimplemented!() }
#[verifier::external_body]
fn parse_color_with_default(s: &str) -> (r: Result<[u8; 4]>) ensures r is Ok == (parse_color_with_default_of(s@) is Some), r is Ok ==> parse_color_with_default_of(s@) == Some(r->Ok_0) { unimplemented!() }
//@@ fn crates/ass-core/analysis/styles/resolved_style/parsing.rs parse_bool_flag
//@ret r
//@strmatch flag_str
//@spec
    ensures r is Ok == (flag_of(flag_str@) is Some), r is Ok ==> flag_of(flag_str@) == Some(r->Ok_0)
//@@ end
// ---- specification -----------------------------------------------------------------------------------
/// a field left empty, or at its default, is the parent's; any other is its own
#[verifier::opaque]
pub open spec fn pick<T>(s: Seq<char>, default: Seq<char>, own: Option<T>, parent: T) -> Option<T> { if s.len() == 0 || s == default { Some(parent) } else { own } }
pub open spec fn mark(s: Seq<char>, parent: bool) -> bool { if s == "0"@ { false } else if s == "1"@ { true } else { parent } }
pub open spec fn flags_merge(r: TextFormatting, p: TextFormatting, b: Seq<char>, i: Seq<char>, u: Seq<char>, s: Seq<char>) -> bool {
    &&& set_of(r).contains(BOLD as int) == mark(b, set_of(p).contains(BOLD as int))
    &&& set_of(r).contains(ITALIC as int) == mark(i, set_of(p).contains(ITALIC as int))
    &&& set_of(r).contains(UNDERLINE as int) == mark(u, set_of(p).contains(UNDERLINE as int))
    &&& set_of(r).contains(STRIKE_OUT as int) == mark(s, set_of(p).contains(STRIKE_OUT as int))
}
/// the vertical margins: both given margins when both are there, else the common one
pub open spec fn margins(s: &Style, top: u16, bottom: u16) -> (Option<u16>, Option<u16>) {
    match (s.margin_t, s.margin_b) {
        (Some(t), Some(b)) => (pick(t@, ""@, parse_u16_of(t@), top), pick(b@, ""@, parse_u16_of(b@), bottom)),
        _ => (pick(s.margin_v@, "0"@, parse_u16_of(s.margin_v@), top), pick(s.margin_v@, "0"@, parse_u16_of(s.margin_v@), bottom)),
    }
}
#[verifier::opaque]
pub open spec fn reads<T>(s: Seq<char>, default: Seq<char>, own: Option<T>) -> bool { s.len() == 0 || s == default || own is Some }
pub open spec fn margins_read(s: &Style) -> bool {
    match (s.margin_t, s.margin_b) { (Some(t), Some(b)) => reads(t@, ""@, parse_u16_of(t@)) && reads(b@, ""@, parse_u16_of(b@)), _ => reads(s.margin_v@, "0"@, parse_u16_of(s.margin_v@)) }
}
#[verifier::opaque]
pub open spec fn merge_readable(s: &Style) -> bool {
    &&& reads(s.fontsize@, "0"@, parse_font_size_of(s.fontsize@))
    &&& reads(s.primary_colour@, ""@, parse_color_with_default_of(s.primary_colour@))
    &&& reads(s.secondary_colour@, ""@, parse_color_with_default_of(s.secondary_colour@))
    &&& reads(s.outline_colour@, ""@, parse_color_with_default_of(s.outline_colour@))
    &&& reads(s.back_colour@, ""@, parse_color_with_default_of(s.back_colour@))
    &&& reads(s.scale_x@, "100"@, parse_percentage_of(s.scale_x@))
    &&& reads(s.scale_y@, "100"@, parse_percentage_of(s.scale_y@))
    &&& reads(s.spacing@, "0"@, parse_float_of(s.spacing@))
    &&& reads(s.angle@, "0"@, parse_float_of(s.angle@))
    &&& reads(s.border_style@, ""@, parse_u8_of(s.border_style@))
    &&& reads(s.outline@, "0"@, parse_float_of(s.outline@))
    &&& reads(s.shadow@, "0"@, parse_float_of(s.shadow@))
    &&& reads(s.alignment@, ""@, parse_u8_of(s.alignment@))
    &&& reads(s.margin_l@, ""@, parse_u16_of(s.margin_l@))
    &&& reads(s.margin_r@, ""@, parse_u16_of(s.margin_r@))
    &&& margins_read(s)
    &&& reads(s.encoding@, ""@, parse_u8_of(s.encoding@))
}
/// the resolution of a style under a resolved parent
#[verifier::opaque]
pub open spec fn merged(s: &Style, p: &ResolvedStyle, r: &ResolvedStyle) -> bool {
    &&& r.name == s.name
    &&& r.font_name@ == (if s.fontname@.len() == 0 { p.font_name@ } else { s.fontname@ })
    &&& pick(s.fontsize@, "0"@, parse_font_size_of(s.fontsize@), p.font_size) == Some(r.font_size)
    &&& pick(s.primary_colour@, ""@, parse_color_with_default_of(s.primary_colour@), p.primary_color) == Some(r.primary_color)
    &&& pick(s.secondary_colour@, ""@, parse_color_with_default_of(s.secondary_colour@), p.secondary_color) == Some(r.secondary_color)
    &&& pick(s.outline_colour@, ""@, parse_color_with_default_of(s.outline_colour@), p.outline_color) == Some(r.outline_color)
    &&& pick(s.back_colour@, ""@, parse_color_with_default_of(s.back_colour@), p.back_color) == Some(r.back_color)
    &&& flags_merge(r.formatting, p.formatting, s.bold@, s.italic@, s.underline@, s.strikeout@)
    &&& pick(s.scale_x@, "100"@, parse_percentage_of(s.scale_x@), p.scale_x) == Some(r.scale_x)
    &&& pick(s.scale_y@, "100"@, parse_percentage_of(s.scale_y@), p.scale_y) == Some(r.scale_y)
    &&& pick(s.spacing@, "0"@, parse_float_of(s.spacing@), p.spacing) == Some(r.spacing)
    &&& pick(s.angle@, "0"@, parse_float_of(s.angle@), p.angle) == Some(r.angle)
    &&& pick(s.border_style@, ""@, parse_u8_of(s.border_style@), p.border_style) == Some(r.border_style)
    &&& pick(s.outline@, "0"@, parse_float_of(s.outline@), p.outline) == Some(r.outline)
    &&& pick(s.shadow@, "0"@, parse_float_of(s.shadow@), p.shadow) == Some(r.shadow)
    &&& pick(s.alignment@, ""@, parse_u8_of(s.alignment@), p.alignment) == Some(r.alignment)
    &&& pick(s.margin_l@, ""@, parse_u16_of(s.margin_l@), p.margin_l) == Some(r.margin_l)
    &&& pick(s.margin_r@, ""@, parse_u16_of(s.margin_r@), p.margin_r) == Some(r.margin_r)
    &&& margins(s, p.margin_t, p.margin_b) == (Some(r.margin_t), Some(r.margin_b))
    &&& pick(s.encoding@, ""@, parse_u8_of(s.encoding@), p.encoding) == Some(r.encoding)
    &&& r.complexity_score <= 100
}
/// the resolution of a style without a parent
pub open spec fn alone(s: &Style, r: &ResolvedStyle) -> bool {
    &&& r.name == s.name
    &&& r.font_name@ == (if s.fontname@.len() == 0 { "Arial"@ } else { s.fontname@ })
    &&& parse_font_size_of(s.fontsize@) == Some(r.font_size)
    &&& parse_color_with_default_of(s.primary_colour@) == Some(r.primary_color)
    &&& parse_color_with_default_of(s.secondary_colour@) == Some(r.secondary_color)
    &&& parse_color_with_default_of(s.outline_colour@) == Some(r.outline_color)
    &&& parse_color_with_default_of(s.back_colour@) == Some(r.back_color)
    &&& flag_of(s.bold@) == Some(set_of(r.formatting).contains(BOLD as int))
    &&& flag_of(s.italic@) == Some(set_of(r.formatting).contains(ITALIC as int))
    &&& flag_of(s.underline@) == Some(set_of(r.formatting).contains(UNDERLINE as int))
    &&& flag_of(s.strikeout@) == Some(set_of(r.formatting).contains(STRIKE_OUT as int))
    &&& parse_percentage_of(s.scale_x@) == Some(r.scale_x)
    &&& parse_percentage_of(s.scale_y@) == Some(r.scale_y)
    &&& parse_float_of(s.spacing@) == Some(r.spacing)
    &&& parse_float_of(s.angle@) == Some(r.angle)
    &&& parse_u8_of(s.border_style@) == Some(r.border_style)
    &&& parse_float_of(s.outline@) == Some(r.outline)
    &&& parse_float_of(s.shadow@) == Some(r.shadow)
    &&& parse_u8_of(s.alignment@) == Some(r.alignment)
    &&& parse_u16_of(s.margin_l@) == Some(r.margin_l)
    &&& parse_u16_of(s.margin_r@) == Some(r.margin_r)
    &&& match (s.margin_t, s.margin_b) { (Some(t), Some(b)) => parse_u16_of(t@) == Some(r.margin_t) && parse_u16_of(b@) == Some(r.margin_b), _ => parse_u16_of(s.margin_v@) == Some(r.margin_t) && parse_u16_of(s.margin_v@) == Some(r.margin_b) }
    &&& parse_u8_of(s.encoding@) == Some(r.encoding)
    &&& r.complexity_score <= 100
}
pub open spec fn alone_readable(s: &Style) -> bool {
    &&& parse_font_size_of(s.fontsize@) is Some && parse_color_with_default_of(s.primary_colour@) is Some && parse_color_with_default_of(s.secondary_colour@) is Some
    &&& parse_color_with_default_of(s.outline_colour@) is Some && parse_color_with_default_of(s.back_colour@) is Some
    &&& flag_of(s.bold@) is Some && flag_of(s.italic@) is Some && flag_of(s.underline@) is Some && flag_of(s.strikeout@) is Some
    &&& parse_percentage_of(s.scale_x@) is Some && parse_percentage_of(s.scale_y@) is Some && parse_float_of(s.spacing@) is Some && parse_float_of(s.angle@) is Some
    &&& parse_u8_of(s.border_style@) is Some && parse_float_of(s.outline@) is Some && parse_float_of(s.shadow@) is Some && parse_u8_of(s.alignment@) is Some
    &&& parse_u16_of(s.margin_l@) is Some && parse_u16_of(s.margin_r@) is Some && parse_u8_of(s.encoding@) is Some
    &&& match (s.margin_t, s.margin_b) { (Some(t), Some(b)) => parse_u16_of(t@) is Some && parse_u16_of(b@) is Some, _ => parse_u16_of(s.margin_v@) is Some }
}
/// scaling: sizes, border and shadow by the mean, spacing and side margins across, top and bottom margins down, nothing else
pub open spec fn scaled(p: &ResolvedStyle, r: &ResolvedStyle, x: f32, y: f32) -> bool {
    let m = halff(addf(x, y));
    &&& r.font_size == mulf(p.font_size, m) && r.outline == mulf(p.outline, m) && r.shadow == mulf(p.shadow, m)
    &&& r.spacing == mulf(p.spacing, x)
    &&& r.margin_l == to16(mulf(from16(p.margin_l), x)) && r.margin_r == to16(mulf(from16(p.margin_r), x))
    &&& r.margin_t == to16(mulf(from16(p.margin_t), y)) && r.margin_b == to16(mulf(from16(p.margin_b), y))
    &&& r.name == p.name && r.font_name == p.font_name && r.primary_color == p.primary_color && r.secondary_color == p.secondary_color
    &&& r.outline_color == p.outline_color && r.back_color == p.back_color && r.formatting == p.formatting
    &&& r.scale_x == p.scale_x && r.scale_y == p.scale_y && r.angle == p.angle && r.border_style == p.border_style
    &&& r.alignment == p.alignment && r.encoding == p.encoding && r.complexity_score <= 100
}
impl<'a> ResolvedStyle<'a> {
//@@ fn crates/ass-core/analysis/styles/resolved_style/scaling.rs ResolvedStyle::calculate_complexity
//@ret r
//@re-all \((style\.\w+) - (100\.0)\)\.abs\(\) > (\w+) => gt(abs(sub(\1, \2)), \3)
//@re-all (style\.\w+)\.abs\(\) > (\w+) => gt(abs(\1), \2)
//@re-all (style\.\w+) > ([\d.]+) => gt(\1, \2)
//@re (?s)style\s*\.formatting\s*\.intersects\(TextFormatting::(\w+) \| TextFormatting::(\w+)\) => (has_flag(style.formatting, \1) || has_flag(style.formatting, \2))
//@re-all style\.formatting\.contains\(TextFormatting::(\w+)\) => has_flag(style.formatting, \1)
//@re score\.min\(100\) => umin8(score, 100)
//@spec
    ensures r <= 100
//@@ end
//@@ fn crates/ass-core/analysis/styles/resolved_style/scaling.rs ResolvedStyle::apply_resolution_scaling
//@re \((\w+) \+ (\w+)\) / 2\.0 => half(add(\1, \2))
//@re-all (self\.\w+) \*= (\w+); => \1 = mul(\1, \2);
//@re-all \(f32::from\((self\.\w+)\) \* (\w+)\) as u16 => to_u16(mul(of_u16(\1), \2))
//@spec
    ensures scaled(old(self), final(self), scale_x, scale_y)
//@@ end
//@@ fn crates/ass-core/analysis/styles/resolved_style/from_style.rs ResolvedStyle::from_style
//@ret r
//@re-all (style\.\w+)\.is_empty\(\) => empty(\1)
//@re "Arial"\.to_string\(\) => owned("Arial")
//@re-all (style\.\w+)\.to_string\(\) => owned(\1)
//@re TextFormatting::empty\(\) => no_flags()
//@re-all formatting \|= TextFormatting::(\w+); => formatting = with_flag(formatting, \1);
//@spec
    ensures r is Ok == alone_readable(style), r is Ok ==> alone(style, &r->Ok_0)
//@@ end
#[verifier::rlimit(100)] #[verifier::spinoff_prover]
//@@ fn crates/ass-core/analysis/styles/resolved_style/inheritance.rs ResolvedStyle::from_style_with_parent
//@ret r
//@re let mut resolved = parent\.clone\(\); => let mut resolved = copy(parent);
//@re-all (style\.\w+)\.is_empty\(\) => empty(\1)
//@re-all \b([tb])\.is_empty\(\) => empty(\1)
//@re-all (style\.\w+)\.to_string\(\) => owned(\1)
//@re-all formatting \|= TextFormatting::(\w+); => formatting = with_flag(formatting, \1);
//@re-all formatting &= !TextFormatting::(\w+); => formatting = without_flag(formatting, \1);
//@re if !empty\(style\.fontname\) \{\s*resolved\.font_name = ([^;]*);\s*\} => resolved.font_name = if !empty(style.fontname) { \1 } else { resolved.font_name };
//@re resolved\.formatting = formatting; => resolved.formatting = formatting; proof { assert(flags_merge(formatting, parent.formatting, style.bold@, style.italic@, style.underline@, style.strikeout@)); }
//@re-all if !empty\(([tb]|style\.\w+)\) \{\s*resolved\.(\w+) = (\w+)\([\w.]+\)\?;\s*\} => let w_ = if !empty(\1) { \3(\1) } else { Ok(resolved.\2) }; let ghost p_ = resolved.\2; resolved.\2 = match w_ { Ok(v) => v, Err(e) => { assert(!merge_readable(style)) by { reveal(merge_readable); reveal(reads); } return Err(e); } }; proof { assert(pick(\1@, ""@, \3_of(\1@), p_) == Some(resolved.\2) && reads(\1@, ""@, \3_of(\1@))) by { reveal(pick); reveal(reads); } }
//@re-all if !empty\((style\.\w+)\) && style\.\w+ != ("\d+") \{\s*resolved\.(\w+) = (\w+)\([\w.]+\)\?;\s*\} => let w_ = if !empty(\1) && \1 != \2 { \4(\1) } else { Ok(resolved.\3) }; let ghost p_ = resolved.\3; resolved.\3 = match w_ { Ok(v) => v, Err(e) => { assert(!merge_readable(style)) by { reveal(merge_readable); reveal(reads); } return Err(e); } }; proof { assert(pick(\1@, \2@, \4_of(\1@), p_) == Some(resolved.\3) && reads(\1@, \2@, \4_of(\1@))) by { reveal(pick); reveal(reads); } }
//@re-all let margin_v = (\w+\([\w.]+\))\?; => let margin_v = match \1 { Ok(v) => v, Err(e) => { assert(!merge_readable(style)) by { reveal(merge_readable); reveal(reads); } return Err(e); } };
//@re if let \(Some\(t\), Some\(b\)\) => let ghost g = resolved; if let (Some(t), Some(b))
//@re (resolved\.margin_b = margin_v;\s*\}) => \1 proof { assert(resolved == ResolvedStyle { margin_t: resolved.margin_t, margin_b: resolved.margin_b, ..g }); assert(margins(style, parent.margin_t, parent.margin_b) == (Some(resolved.margin_t), Some(resolved.margin_b)) && margins_read(style)) by { reveal(pick); reveal(reads); } }
//@re Ok\(resolved\)\s*\}$ => proof { assert(merge_readable(style)) by { reveal(merge_readable); } assert(merged(style, parent, &resolved)) by { reveal(merged); } } Ok(resolved) }
//@spec
    ensures r is Ok == merge_readable(style), r is Ok ==> merged(style, parent, &r->Ok_0)
//@start
    proof { reveal_strlit(""); reveal_strlit("0"); reveal_strlit("1"); assert("0"@[0] != "1"@[0]); }
//@@ end
}
// ---- the table of resolved styles: assumed contract of the ordered map ---------------------------------
pub struct Table<'a> { pub id: &'a u8 }
impl<'a> Table<'a> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, ResolvedStyle<'a>>;
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&ResolvedStyle<'a>>) ensures r is Some == self@.contains_key(k@), r is Some ==> *r->Some_0 == self@[k@] { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: &'a str, v: ResolvedStyle<'a>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    /// values_mut: every value, once
    #[verifier::external_body]
    pub fn scale_all(&mut self, x: f32, y: f32)
        ensures final(self)@.dom() == old(self)@.dom(), forall|k: Seq<char>| #[trigger] old(self)@.contains_key(k) ==> scaled(&old(self)@[k], &final(self)@[k], x, y)
    { unimplemented!() }
}
pub struct ScriptInfo<'a> { pub id: &'a u8 }
pub uninterp spec fn layout_of(i: &ScriptInfo) -> Option<(u32, u32)>;
pub uninterp spec fn play_of(i: &ScriptInfo) -> Option<(u32, u32)>;
impl<'a> ScriptInfo<'a> {
    #[verifier::external_body]
    pub fn layout_resolution(&self) -> (r: Option<(u32, u32)>) ensures r == layout_of(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn play_resolution(&self) -> (r: Option<(u32, u32)>) ensures r == play_of(self) { unimplemented!() }
}
pub enum Section<'a> { ScriptInfo(ScriptInfo<'a>), Styles(Vec<Style<'a>>), Other }
pub struct Script<'a> { pub sections: Vec<Section<'a>> }
pub struct StyleInheritance<'a> { pub id: &'a u8 }
pub struct StyleConflict<'a> { pub id: &'a u8 }
pub struct StyleAnalysisConfig { pub id: u8 }
//@@ struct crates/ass-core/analysis/styles/analyzer/types.rs StyleAnalyzer pubfields "BTreeMap<&'a str, ResolvedStyle<'a>>" "Table<'a>" "BTreeMap<&'a str, StyleInheritance<'a>>" "Table<'a>"
/// an order in which parents come before their children and every name comes once
pub open spec fn ordered(v: Seq<&Style>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i].name@ != #[trigger] v[j].name@
    &&& forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && v[i].parent is Some && #[trigger] v[j].name@ == (#[trigger] v[i]).parent->Some_0@ ==> j < i
}
/// style i is resolved under its parent when that is there, else alone; an unreadable one is left out
pub open spec fn settled(v: Seq<&Style>, i: int, t: Map<Seq<char>, ResolvedStyle>) -> bool {
    let s = v[i];
    if s.parent is Some && t.contains_key(s.parent->Some_0@) {
        t.contains_key(s.name@) == merge_readable(s) && (t.contains_key(s.name@) ==> merged(s, &t[s.parent->Some_0@], &t[s.name@]))
    } else {
        t.contains_key(s.name@) == alone_readable(s) && (t.contains_key(s.name@) ==> alone(s, &t[s.name@]))
    }
}
pub open spec fn known(v: Seq<&Style>, n: int, t: Map<Seq<char>, ResolvedStyle>) -> bool {
    forall|k: Seq<char>| #[trigger] t.contains_key(k) ==> exists|i: int| 0 <= i < n && #[trigger] v[i].name@ == k
}
pub open spec fn resolves(v: Seq<&Style>, t: Map<Seq<char>, ResolvedStyle>) -> bool {
    known(v, v.len() as int, t) && forall|i: int| 0 <= i < v.len() ==> #[trigger] settled(v, i, t)
}
/// one more style settles without disturbing the earlier ones
proof fn step<'a>(v: Seq<&Style<'a>>, n: int, t: Map<Seq<char>, ResolvedStyle<'a>>, u: Map<Seq<char>, ResolvedStyle<'a>>)
    requires ordered(v), 0 <= n < v.len(), known(v, n, t), forall|i: int| 0 <= i < n ==> #[trigger] settled(v, i, t),
        u == t || exists|r: ResolvedStyle<'a>| u == #[trigger] t.insert(v[n].name@, r), settled(v, n, u),
    ensures known(v, n + 1, u), forall|i: int| 0 <= i < n + 1 ==> #[trigger] settled(v, i, u)
{
    assert(known(v, n + 1, u)) by {
        assert forall|k: Seq<char>| #[trigger] u.contains_key(k) implies exists|i: int| 0 <= i < n + 1 && #[trigger] v[i].name@ == k by {
            if k != v[n].name@ { assert(t.contains_key(k)); let i = choose|i: int| 0 <= i < n && #[trigger] v[i].name@ == k; assert(v[i].name@ == k); } else { assert(v[n].name@ == k); }
        }
    }
    assert forall|i: int| 0 <= i < n + 1 implies #[trigger] settled(v, i, u) by {
        if i < n {
            assert(settled(v, i, t));
            assert(v[i].name@ != v[n].name@);
            if v[i].parent is Some { let p = v[i].parent->Some_0@; if v[n].name@ == p { assert(n < i); } assert(u.contains_key(p) == t.contains_key(p)); }
        }
    }
}
impl<'a> Script<'a> {
    fn sections(&self) -> (r: &[Section<'a>]) ensures r@ == self.sections@ { self.sections.as_slice() }
}
/// the scaling of the first script information section, when it has two different resolutions
pub open spec fn factor(v: Seq<Section>, n: int) -> Option<(f32, f32)>
    decreases v.len() - n
{
    if n < 0 || n >= v.len() { None } else if let Section::ScriptInfo(i) = v[n] {
        match (layout_of(&i), play_of(&i)) { (Some(l), Some(p)) => if l != p { Some((divf(from32(p.0), from32(l.0)), divf(from32(p.1), from32(l.1)))) } else { None }, _ => None }
    } else { factor(v, n + 1) }
}
impl<'a> StyleAnalyzer<'a> {
//@@ fn crates/ass-core/analysis/styles/analyzer/analysis.rs StyleAnalyzer::resolve_styles_with_inheritance
//@re for style in ordered_styles \{ => let mut k_: usize = 0; while k_ < ordered_styles.len() { let style = ordered_styles[k_]; k_ += 1; let ghost t_ = self.resolved_styles@;
//@re (?s)self\.resolved_styles\.get\(parent_name\)\.map_or_else\(\s*\|\| ([^|]*?),\s*\|(\w+)\| (.*?),?\s*\)\s*\} else => match self.resolved_styles.get(parent_name) { None => \1, Some(\2) => \3 } } else
//@re (?s)for (\w+) in self\.resolved_styles\.values_mut\(\) \{\s*\1\.apply_resolution_scaling\((\w+), (\w+)\);\s*\} => self.resolved_styles.scale_all(\2, \3);
//@re (self\.resolved_styles\.insert\(style\.name, resolved_style\);\s*\}) => \1 proof { if resolved is Ok { assert(self.resolved_styles@ == t_.insert(style.name@, resolved->Ok_0)); } step(ordered_styles@, k_ as int - 1, t_, self.resolved_styles@); }
//@spec
    requires old(self).resolved_styles@ == Map::<Seq<char>, ResolvedStyle>::empty(), ordered(ordered_styles@)
    ensures match old(self).resolution_scaling {
        None => resolves(ordered_styles@, final(self).resolved_styles@),
        Some(f) => exists|t: Map<Seq<char>, ResolvedStyle<'a>>| resolves(ordered_styles@, t) && #[trigger] t.dom() == final(self).resolved_styles@.dom()
            && forall|k: Seq<char>| #[trigger] t.contains_key(k) ==> scaled(&t[k], &final(self).resolved_styles@[k], f.0, f.1),
    }
//@loop 0
    invariant k_ <= ordered_styles@.len(), ordered(ordered_styles@), known(ordered_styles@, k_ as int, self.resolved_styles@),
        forall|i: int| 0 <= i < k_ ==> #[trigger] settled(ordered_styles@, i, self.resolved_styles@),
        self.resolution_scaling == old(self).resolution_scaling,
    decreases ordered_styles@.len() - k_
//@@ end
//@@ fn crates/ass-core/analysis/styles/analyzer/analysis.rs StyleAnalyzer::calculate_resolution_scaling
//@re for section in self\.script\.sections\(\) \{ => let v_ = self.script.sections(); let mut k_: usize = 0; while k_ < v_.len() { let section = &v_[k_]; k_ += 1;
//@re-all (\w+) as f32 / (\w+) as f32 => div(of_u32(\1), of_u32(\2))
//@spec
    ensures final(self).resolution_scaling == (match factor(old(self).script.sections@, 0) { Some(f) => Some(f), None => old(self).resolution_scaling }),
        final(self).resolved_styles == old(self).resolved_styles
//@loop 0
    invariant_except_break k_ <= v_@.len(), self.resolution_scaling == old(self).resolution_scaling, factor(v_@, k_ as int) == factor(v_@, 0),
    invariant v_@ == old(self).script.sections@, self.resolved_styles == old(self).resolved_styles, 
    ensures self.resolution_scaling == (match factor(v_@, 0) { Some(f) => Some(f), None => old(self).resolution_scaling }),
    decreases v_@.len() - k_
//@@ end
}
}
fn main() {}
