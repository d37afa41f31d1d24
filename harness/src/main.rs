//! pbt check <property> <quick|thorough> --seed N --out <evidence.json> --replay-dir <dir>
//! pbt replay <file>
//! pbt literals <src dir>
mod alone;
mod direct;
mod engine;
mod gen;
mod model;
mod props;
mod walk;

use engine::*;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::time::Instant;

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(|s| s.as_str()) {
        Some("literals") => print!("{}", gen::dump_literals(Path::new(&a[1]))),
        Some("replay") => replay(&a[1]),
        Some("check") => check(&a),
        Some("all") => all(&a),
        _ => {
            eprintln!("usage: pbt check|replay|literals ...");
            std::process::exit(2)
        }
    }
}

fn find(id: &str) -> props::Prop {
    match props::props().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
}

fn replay(file: &str) {
    let s = std::fs::read_to_string(file).unwrap_or_else(|e| {
        eprintln!("{file}: {e}");
        std::process::exit(2)
    });
    let (id, im) = Image::load(&s);
    let p = find(&id);
    let _ = props::FOCUS.set(p.focus);
    install_panic_hook();
    println!("property {id}\n{}", im.describe());
    match judge(p.check, p.mask, &im).fail {
        Some(m) => {
            println!("{m}\nVIOLATION property={id} replay={file}");
            std::process::exit(1)
        }
        None => println!("holds on this input"),
    }
}

/// Development aid: every property with the same number of cases, one line each.
fn all(a: &[String]) {
    let cases: u64 = a.get(1).and_then(|s| s.parse().ok()).unwrap_or(100_000);
    let exe = std::env::current_exe().unwrap();
    let repo = arg(a, "--repo").unwrap_or_else(|| "/repo".into());
    for p in props::props() {
        let c = if p.id == "P09" { cases * 20 } else { cases };
        let o = std::process::Command::new(&exe)
            .args(["check", p.id, "quick", "--cases", &c.to_string(), "--repo", &repo, "--replay-dir", "/tmp/rp"])
            .output();
        if let Ok(o) = o {
            let t = String::from_utf8_lossy(&o.stdout).into_owned();
            if o.status.code() != Some(0) {
                let stop = a.iter().any(|x| x == "--first");
                let l = t.lines().find(|l| l.starts_with("  ")).unwrap_or("").chars().take(160).collect::<String>();
                println!("{} exit {:?} {l}", p.id, o.status.code());
                if stop {
                    break;
                }
            }
        }
    }
}

fn check(a: &[String]) {
    let id = a.get(1).cloned().unwrap_or_default();
    let tier = a.get(2).cloned().unwrap_or_else(|| "quick".into());
    let seed: u64 = arg(a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let out = arg(a, "--out").map(PathBuf::from);
    let rdir = PathBuf::from(arg(a, "--replay-dir").unwrap_or_else(|| "replay".into()));
    let variant = if cfg!(feature = "ea_real") { "-real" } else { "" };
    let p = find(&id);
    let _ = props::FOCUS.set(p.focus);
    install_panic_hook();
    let ctx = gen::Ctx::new(p.focus, Path::new(&arg(a, "--repo").unwrap_or_else(|| "/repo".into())));
    let cases = arg(a, "--cases").and_then(|s| s.parse().ok()).unwrap_or(p.cases[(tier == "thorough") as usize]);
    let t0 = Instant::now();
    let _ = now_ms();

    // a case that does not come back
    let (gen_fn, focus_id) = (p.gen, p.id);
    let wd_ctx = gen::Ctx::new(p.focus, Path::new(&arg(a, "--repo").unwrap_or_else(|| "/repo".into())));
    let wd_dir = rdir.clone();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        if let Some(i) = stuck(20_000) {
            let im = gen_fn(i, &mut case_rng(seed, i), &wd_ctx);
            let f = save(&wd_dir, focus_id, variant, &im, "does not terminate");
            // a stalled machine is not a hang: ask again, alone, with a longer limit
            if finishes(&f, 60) {
                continue;
            }
            // every property asks for a value here, and none ever comes
            println!("case {i} does not terminate: {}", im.describe());
            println!("VIOLATION property={focus_id} replay={f}");
            std::process::exit(1);
        }
    });

    let st = run(p.check, p.mask, p.gen, cases, seed, &ctx, if tier == "thorough" { u64::MAX } else { 420_000 });
    let mut violation = None;
    if let Some((i, im, m)) = &st.failure {
        let small = shrink(p.check, p.mask, im);
        let m2 = judge(p.check, p.mask, &small).fail.unwrap_or_else(|| m.clone());
        let f = save(&rdir, p.id, variant, &small, &m2);
        println!("case {i} of {cases}: {m}");
        println!("shrunk to {}", small.describe());
        println!("  {m2}");
        violation = Some(f);
    }
    let wall = t0.elapsed().as_secs_f64();
    if let Some(out) = out {
        let mut s = String::from("{\n");
        let _ = writeln!(s, " \"property\": {},", json_str(p.id));
        let _ = writeln!(s, " \"tier\": {},", json_str(&tier));
        let _ = writeln!(s, " \"seed\": {seed},");
        let _ = writeln!(s, " \"level\": \"exploration\",");
        let _ = writeln!(s, " \"coverage\": {{");
        let _ = writeln!(s, "  \"evaluations\": {},", st.evaluations);
        let _ = writeln!(s, "  \"nontrivial\": {},", st.nontrivial);
        let _ = writeln!(s, "  \"distinct_nontrivial\": {},", st.distinct_nontrivial);
        let _ = writeln!(s, "  \"comparisons\": {},", st.comparisons);
        let _ = writeln!(s, "  \"rule\": {},", json_str(p.rule));
        let _ = writeln!(s, "  \"oracle\": {},", json_str(p.oracle));
        let ls: Vec<String> = st.labels.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect();
        let _ = writeln!(s, "  \"classes\": {{{}}},", ls.join(", "));
        let _ = writeln!(s, "  \"dictionary\": {{\"literals\": {}, \"new_since_pinned_commit\": {}}},", ctx.lits.len(), ctx.hot.len());
        let _ = writeln!(s, "  \"build\": {},", json_str(if cfg!(feature = "ea_real") { "caps_ea_real_entry_size" } else { "default features" }));
        let ss: Vec<String> = st.samples.iter().map(|x| format!("\n   {}", json_str(x))).collect();
        let _ = writeln!(s, "  \"samples\": [{}]", ss.join(","));
        let _ = writeln!(s, " }},");
        let _ = writeln!(s, " \"wall_s\": {wall:.2},");
        let _ = writeln!(s, " \"violations\": {},", violation.is_some() as u32);
        let _ = writeln!(
            s,
            " \"assumptions\": [\"the reference decoder states the specifications the library documents\", \"inputs are sampled, not exhausted, unless the rule says so\"]\n}}"
        );
        if let Some(d) = out.parent() {
            let _ = std::fs::create_dir_all(d);
        }
        if let Err(e) = std::fs::write(&out, s) {
            eprintln!("{}: {e}", out.display());
        }
    }
    println!(
        "{} {tier} seed {seed}: {} cases, {} non-trivial ({} distinct), {} comparisons, {wall:.1} s",
        p.id, st.evaluations, st.nontrivial, st.distinct_nontrivial, st.comparisons
    );
    if let Some(f) = violation {
        println!("VIOLATION property={} replay={f}", p.id);
        std::process::exit(1);
    }
}

/// Whether the saved case comes back, whatever it says, within `secs` seconds.
fn finishes(file: &str, secs: u64) -> bool {
    let Ok(exe) = std::env::current_exe() else { return true };
    let null = std::process::Stdio::null;
    let Ok(mut c) = std::process::Command::new(exe).args(["replay", file]).stdout(null()).stderr(null()).spawn() else { return true };
    for _ in 0..secs * 10 {
        if !matches!(c.try_wait(), Ok(None)) {
            return true;
        }
        std::thread::sleep(std::time::Duration::from_millis(100));
    }
    let _ = c.kill();
    let _ = c.wait();
    false
}

fn save(dir: &Path, id: &str, variant: &str, im: &Image, msg: &str) -> String {
    let _ = std::fs::create_dir_all(dir);
    let f = dir.join(format!("{id}{variant}-{:016x}.replay", im.hash64()));
    if let Err(e) = std::fs::write(&f, im.save(id, msg)) {
        eprintln!("{}: {e}", f.display());
    }
    f.display().to_string()
}
