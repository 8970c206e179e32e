//! Contract-replay engine: executes the contracts (as executable predicates) of each property
//! against the real code linked from /repo.  Used (a) to turn a failed proof obligation into a
//! concrete failing input, (b) as the *bounded* stand-in for functions no verifier reaches.
//! Usage: replay <PROPERTY> <out.json> [seed] [tier] [known.json]
mod fw;
#[cfg(feature = "core")]
mod core_props;
#[cfg(feature = "editor")]
mod editor_props;
#[cfg(feature = "render")]
mod render_props;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a.get(1).cloned().unwrap_or_default();
    let out = a.get(2).cloned().unwrap_or_else(|| "/dev/stdout".into());
    let seed: u64 = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = a.get(4).map(|s| s == "thorough").unwrap_or(false);
    fw::quiet_panics();
    let mut cx = fw::Cx::new(&prop, seed, thorough);
    cx.watch(&out, std::env::var("REPLAY_TRACE").is_ok());
    let mut known = false;
    #[cfg(feature = "core")]
    {
        known |= core_props::run(&prop, &mut cx);
    }
    #[cfg(feature = "editor")]
    {
        known |= editor_props::run(&prop, &mut cx);
    }
    #[cfg(feature = "render")]
    {
        known |= render_props::run(&prop, &mut cx);
    }
    if !known {
        eprintln!("unknown property {prop}");
        std::process::exit(3);
    }
    std::fs::write(&out, cx.to_json()).expect("write");
}
