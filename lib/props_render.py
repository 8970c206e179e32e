from props_base import P, NA
R = 'crates/ass-renderer/src/'
FIN = "finite-precision f32 is CBMC's IEEE-754 model; transcendental functions (powf) are not reached by Kani and are bounded"

P('R01', feat='render', kani=['render'], verus=['r_composite'],
  kani_thorough_only=['r01_scalar_pixel', 'r01_rgba_pixel'] + ['r01_quad_%02d' % k for k in range(16) if k not in (0, 5, 10, 15)],
  title='Compositing is exact source-over, clipped to the frame',
  statement='Compositing a coverage tile or a premultiplied RGBA tile onto a frame at any position, partly or fully off-frame included, changes exactly the frame pixels the tile covers, and each byte of those becomes source scaled by coverage plus destination attenuated by the source alpha, every scaling rounded to nearest. The result never wraps past 255, zero coverage or zero alpha leaves a pixel untouched, and full opaque coverage replaces it. The vectorised and the scalar path give identical bytes.',
  over=['inputs'], text='all frame sizes, tile sizes, positions, coverages, colours and destination bytes',
  why='Tests composite a few small tiles with a few colours; rounding at every (source, coverage, destination) triple, every clip position and lane equality need all inputs.',
  files=[R+'backends/coverage/composite.rs', R+'backends/coverage/blend.rs'],
  mech=[('clip loops', R+'backends/coverage/composite.rs composite_coverage/composite_rgba'), ('mul255, blend_row (SIMD and scalar), blend_pixel', R+'backends/coverage/blend.rs')],
  bounded='wrappers composite/composite_bitmap and the multi-group SIMD row loop: replayed on generated tiles only',
  trusted=['models of the SSE2 lane instructions _mm_mullo_epi16/_mm_add_epi16/_mm_srl_epi16 in kani/render/src/blend.rs'],
  assumptions=['frame and tile at most i32::MAX bytes, |x|,|y| <= 2^30 (larger values overflow i32 in the original)', 'the SIMD row blend is proved per 4-pixel group (Kani); its group loop is bounded (replay)'],
  note='Verus proves the clip loops, the scalar row/pixel blend and the rounding for all sizes; Kani proves the 4-pixel SIMD group per byte for all operands (4 of 16 bytes in quick, all in thorough). SIMD group loop and enum wrappers are bounded replay.')

P('R02', feat='render', verus=['r_frame'],
  title='Scratch clearing and cropping are exact',
  statement='Clearing a rectangle of a frame zeroes exactly the frame pixels inside the rectangle and leaves every other byte as it was, for rectangles partly or fully off-frame too. Cropping a frame, optionally within a hinted box, yields nothing exactly when no pixel of that box is visible, and otherwise the tightest rectangle containing all visible pixels of the box together with a byte-exact copy of it.',
  over=['inputs'], text='all frame sizes and contents, all rectangles and hints, inside, straddling and outside the frame',
  why='Tests crop a couple of drawings; tightness, exact copy and the untouched remainder are statements about every pixel of every frame.',
  files=[R+'backends/software/dirty.rs'], mech=[('clear_region, crop_pixmap', R+'backends/software/dirty.rs')], hook='verif_hooks::{clear_region, crop_pixmap} (cfg ass_verif)',
  trusted=['tiny_skia::Pixmap accessors (width, height, data, data_mut): modelled as a w*h*4 byte buffer'],
  assumptions=['frame at most i32::MAX bytes; rectangle coordinates within +-2^30'],
  note='Both functions proved by Verus on the extracted source, unbounded.')

P('R03', feat='render', verus=['r_selector'],
  title='Active events are exactly those whose interval holds the time',
  statement='For every script and every time, the events selected for display are exactly the dialogue events (and comments only when asked for) with start <= time < end, in file order, whatever was queried before, including edited scripts of the same size and times going backwards. The reported newly active and newly inactive events are exactly the differences to the previous query, and the frame is reported dirty exactly when something appeared or disappeared, an active event is animated, it is the first query, or time moved by more than a second. Every damaged rectangle recorded stays covered by the dirty regions until they are cleared, and these never extend past the bounding box of what was recorded.',
  over=['inputs', 'histories'], text='all scripts, all sequences of queries, comment toggles, resets and dirty-region additions',
  why='Tests query one fixed script at a few times; cached time indexes and difference tracking are history properties.',
  files=[R+'renderer/event_selector.rs', R+'renderer/time_index.rs'], mech=[('EventSelector::select_active, ensure_index, add_dirty_region', R+'renderer/event_selector.rs'), ('TimeIndex::build', R+'renderer/time_index.rs')],
  bounded='history behaviour of select_active over parsed scripts is bounded replay',
  note='Verus proves the dirty-region bookkeeping for every history step; the active-set and difference tracking is bounded replay of whole query histories on the real selector.')

P('R04', feat='render', kani=['render'], kani_thorough_only=['r04_intersects_x_axis', 'r04_intersects_y_axis', 'r04_overlap_area_y'],
  title='Stacked subtitles take the nearest free place and stay on screen',
  statement='An event that is positioned automatically ends at the nearest vertical position, at or past its requested one in its stacking direction (up for bottom alignments, down otherwise), where its box with the margin overlaps no previously placed box of the same layer, then clamped into the frame; x and size never change, other layers are ignored, and earlier boxes never move. Priority processing places higher priorities first, never moves events at or above the threshold, and keeps all events. Overlap tests are symmetric and agree with positive overlap area.',
  over=['inputs', 'histories'], text='all boxes, layers, alignments, margins and placement histories',
  why='Tests place two boxes once; the guarantee is about every stack and order.',
  files=[R+'collision/resolver.rs', R+'collision/mod.rs'], mech=[('CollisionResolver::find_position', R+'collision/resolver.rs'), ('BoundingBox::intersects/overlap_area/expand', R+'collision/mod.rs')],
  bounded='stacking over whole placement histories is bounded replay on integer boxes',
  trusted=[FIN], assumptions=['box geometry proved on quarter-pixel grids where f32 is exact: +-32 px for both axes together, +-8192 px per axis in the thorough tier'],
  note='Kani proves overlap, expansion, overlap area and the whole placement against zero or one earlier box on exact f32 grids; stacks of several boxes and priority processing are bounded replay.')

P('R05', feat='render', verus=['r_atlas'],
  title='Atlas regions are disjoint, in bounds and exactly written',
  statement='Every region a texture atlas hands out has the requested size, lies inside the atlas and overlaps no region handed out since the last clear; a request that cannot fit is refused without handing out anything. Writing a region stores exactly its pixels at its place and changes no other atlas byte, and clearing makes the atlas empty and blank again.',
  over=['inputs', 'histories'], text='all atlas sizes, all request sequences and region contents',
  why='Tests allocate two regions; disjointness is an invariant over all allocation histories and sizes.',
  files=[R+'utils/caches.rs'], mech=[('TextureAtlas::allocate, write_region, clear', R+'utils/caches.rs')], hook='verif_hooks::AtlasRegion (cfg ass_verif)',
  trusted=['derived Clone of AtlasRegion copies its fields', 'slice::fill sets every element'], assumptions=['atlas byte size at most u32::MAX (the original computes it in u32)'],
  note='new, allocate, write_region and clear proved by Verus against a representation invariant (pairwise disjoint, in bounds), unbounded.')

P('R06', feat='render', verus=['r_caches', 'r_rendercache'],
  title='Render caches stay bounded and never return a wrong value',
  statement='A glyph, shaped-text or drawing cache never holds more entries than its limit (a zero limit stores nothing), a hit returns exactly the value last stored under that key, and storing evicts at most one other entry and only when a new key meets a full cache. Hit, miss and eviction statistics count exactly those events, and clearing empties everything.',
  over=['histories'], text='all sequences of stores, lookups and clears, all limits and keys',
  why='Tests store a handful of entries; bound and truthfulness are invariants of every history.',
  files=[R+'utils/caches.rs', R+'cache/mod.rs'], mech=[('GlyphCache::insert/get', R+'utils/caches.rs'), ('RenderCache::store_*/get_*', R+'cache/mod.rs')], hook='verif_hooks::{GlyphKey, CachedGlyph, ShapedText} (cfg ass_verif)',
  trusted=['std HashMap contract of vstd (ahash::AHashMap assumed to satisfy the same)', 'derived Hash/Eq/Clone of the key types are deterministic and structural', 'Clone of tiny_skia::Path is a copy'],
  assumptions=['statistics counters below usize::MAX'],
  note='All store/get/clear operations proved by Verus over the map view, unbounded.')

P('R07', feat='render', kani=['render'],
  title='Dirty-region algebra never loses damage',
  statement='Merging two dirty regions gives the smallest region containing both, symmetrically and without overflow for any 32-bit coordinates; a point is reported inside exactly when it is; a region and a box are reported touching exactly when they share or abut; the area is the true product; and the full-screen region contains every point and absorbs any merge.',
  over=['inputs'], text='all pairs of regions, points and boxes over the full 32-bit range',
  why='Tests use a few small rectangles; overflow and boundary cases need the full range.',
  files=[R+'utils/regions.rs'], mech=[('DirtyRegion::merge, intersects, contains_point, area', R+'utils/regions.rs')],
  note='Loop-free Kani harnesses with full-domain symbolic operands: complete proofs.')

P('R08', feat='render', kani=['render'],
  title='Animations progress monotonically and stay between their endpoints',
  statement='Every animation, move, fade and transform progress is 0 up to its start, 1 from its end, within [0,1] and non-decreasing in between, for every 32-bit time and acceleration, including empty or inverted intervals. Interpolated colours, alphas, integers, positions and scales equal the endpoints at 0 and 1, stay between them and never wrap. Parsing the arguments of fade and move tags accepts or rejects every numeric argument list without failing and converts milliseconds exactly.',
  over=['inputs'], text='all times, intervals, accelerations, endpoint values and argument lists',
  why='Tests sample a few times; monotonicity and endpoint exactness are claims about every time and value.',
  files=[R+'animation/mod.rs', R+'pipeline/transform/mod.rs', R+'pipeline/animation.rs', R+'pipeline/tag_processor/parse.rs'], mech=[('AnimationTiming::progress, AnimatedValue::interpolate', R+'animation/'), ('calculate_move_progress, calculate_fade_progress', R+'pipeline/animation.rs'), ('interpolate_*, TransformAnimation', R+'pipeline/transform/mod.rs'), ('parse_fade_args', R+'pipeline/tag_processor/parse.rs')], hook='verif_hooks (cfg ass_verif)',
  bounded='monotonicity in time, powf acceleration and argument parsing: bounded replay',
  trusted=[FIN],
  note='Kani proves progress bounds and endpoints, colour/alpha/integer interpolation and timing arithmetic for all operand bits (loop-free); powf acceleration, monotonicity over pairs of times and argument parsing are bounded replay.')
