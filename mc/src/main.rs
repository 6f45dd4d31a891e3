//! `mc <ID>`: explores one property in a child process (so that crashes of the code under test
//! become violations), `mc replay <file>`: re-runs one recorded case, `mc list`.
#![allow(clippy::all)]
#[macro_use]
mod fw;
#[allow(dead_code)]
mod alloc;
#[allow(dead_code)]
mod model;
mod props;
#[allow(dead_code)]
mod sched;

#[global_allocator]
static ALLOC: alloc::Track = alloc::Track;

use std::io::{BufRead, BufReader};

fn load_known() -> Vec<fw::Known> {
    let mut r = vec![];
    for l in std::fs::read_to_string("known_findings.txt").unwrap_or_default().lines() {
        let Ok(j) = serde_json::from_str::<serde_json::Value>(l) else { continue };
        if j.get("fixed").is_some() { continue }
        if let (Some(p), Some(k), Some(w)) = (j["property"].as_str(), j["key"].as_str(), j["what"].as_str()) {
            r.push(fw::Known { property: p.into(), key: k.into(), what: w.into() })
        }
    }
    r
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let tier = match std::env::var("VERIF_TIER").as_deref() { Ok("thorough") => fw::Tier::Thorough, _ => fw::Tier::Quick };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let metas = props::all();
    let find = |id: &str| metas.iter().find(|m| m.id == id).unwrap_or_else(|| { eprintln!("unknown property {id}"); std::process::exit(2) });
    match args.first().map(|s| s.as_str()) {
        Some("list") => { for m in &metas { println!("{}", m.id) } }
        Some("--child") => {
            let m = find(&args[1]);
            fw::install_child_handlers();
            let run = fw::Run::new(m.id, tier, seed, load_known(), None);
            guarded(m, &run);
            std::process::exit(run.finish(m));
        }
        // a case that may end its process (a stack overflow), in a process of its own
        Some("--probe") => std::process::exit(props::c06::probe(&args[1])),
        Some("replay") => {
            let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).expect("replay file")).expect("json");
            let m = find(j["property"].as_str().unwrap());
            let tier = if j["tier"] == "thorough" { fw::Tier::Thorough } else { fw::Tier::Quick };
            fw::install_child_handlers();
            let run = fw::Run::new(m.id, tier, seed, load_known(), Some((j["section"].as_str().unwrap().into(), j["index"].as_u64().unwrap())));
            guarded(m, &run);
            std::process::exit(run.finish(m));
        }
        Some(id) => {
            let m = find(id);
            std::process::exit(parent(m, tier, seed));
        }
        None => { eprintln!("usage: mc ID | replay FILE | list"); std::process::exit(2) }
    }
}

/// the parts of an exploration outside its sections (tables built through the library from valid
/// inputs) must not panic either
fn guarded(m: &fw::Meta, run: &fw::Run) {
    if let Err(e) = fw::no_panic(|| (m.run)(run)) { run.fail_global("setup", fw::V { key: "setup-panic".into(), detail: e }) }
}

fn parent(m: &fw::Meta, tier: fw::Tier, seed: u64) -> i32 {
    let t0 = std::time::Instant::now();
    let _ = std::fs::remove_file(format!("evidence/{}.json", m.id));
    let mut ch = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["--child", m.id]).stdout(std::process::Stdio::piped()).spawn().expect("spawn");
    let out = ch.stdout.take().unwrap();
    let mut crash: Option<String> = None;
    let mut rd = BufReader::new(out);
    let mut buf = vec![];
    while { buf.clear(); rd.read_until(b'\n', &mut buf).unwrap_or(0) > 0 } {
        let l = String::from_utf8_lossy(&buf).trim_end().to_string();
        if l.starts_with("MC-CRASH ") { crash = Some(l) } else if !l.is_empty() { println!("{l}") }
    }
    let st = ch.wait().expect("wait");
    if let Some(c) = crash {
        let mut it = c.splitn(4, ' ').skip(1);
        let sig = it.next().unwrap_or("?").to_string();
        let idx: u64 = it.next().and_then(|s| s.parse().ok()).unwrap_or(0);
        let sec = it.next().unwrap_or("?").to_string();
        let what = match sig.as_str() { "0" => "no progress: the case does not terminate (watchdog)".to_string(), "6" => "abort (signal 6)".into(), s => format!("crash (signal {s})") };
        let _ = std::fs::create_dir_all("replays");
        let _ = std::fs::create_dir_all("evidence");
        let s2: String = sec.chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect();
        let path = format!("replays/{}-{}-{}.json", m.id, s2, idx);
        let tn = format!("{tier:?}").to_lowercase();
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&serde_json::json!({"property": m.id, "tier": tn, "section": sec, "index": idx, "key": "crash", "detail": what})).unwrap());
        let ev = serde_json::json!({"property": m.id, "tier": tn, "seed": seed, "level": m.level,
            "coverage": {"evaluations": idx + 1, "distinct_nontrivial": 1, "states": 1, "transitions": idx + 1, "traces_validated_against_impl": idx, "rule": m.rule,
                "samples": [format!("section {sec} case {idx}: {what}")], "exhaustive": false},
            "assumptions": m.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": 1});
        let _ = std::fs::write(format!("evidence/{}.json", m.id), serde_json::to_string_pretty(&ev).unwrap());
        println!("failure: section={sec} index={idx} key=crash :: {what}");
        println!("VIOLATION property={} replay={}", m.id, path);
        return 1;
    }
    match st.code() { Some(c @ (0 | 1)) => c, other => { eprintln!("exploration ended abnormally: {other:?} {st:?}"); 2 } }
}
