mod alloc;
mod checks;
mod dec;
mod enc;
mod explore;
mod fsm;
mod ids;
mod model;
mod obs;
mod rich;
mod sched;
mod shared;
mod store;
mod sys;
mod tree;
mod util;

use explore::*;
use std::fmt::Write as _;
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, exit};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::A = alloc::A;

const THREADS: usize = 8;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    match s[..] {
        ["run", id, tier] => supervise(id, tier),
        ["worker", id, tier, slots] => worker_main(id, tier_of(tier), Path::new(slots)),
        ["single", id, tier, space, choices] => single(id, tier_of(tier), space.parse().unwrap(), choices),
        ["replay", path] => replay(Path::new(path)),
        ["list"] => {
            for id in checks::IDS {
                for t in [Tier::Quick, Tier::Thorough] {
                    for s in checks::spaces(id, t) {
                        println!("{id} {} {}: {}", t.name(), s.name, s.bound);
                    }
                }
            }
        }
        _ => {
            eprintln!("usage: mc run ID quick|thorough | mc replay PATH | mc list");
            exit(2)
        }
    }
}
fn tier_of(t: &str) -> Tier {
    match t {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => {
            eprintln!("unknown tier {t}");
            exit(2)
        }
    }
}
fn root() -> PathBuf {
    PathBuf::from(std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into()))
}

// ------------------------------------------------------------- findings

struct Known {
    id: String,
    key: String,
    what: String,
}
/// lines `finding: property=<id> key=<key> :: <description>`; everything else is commentary
fn known_findings() -> Vec<Known> {
    let txt = std::fs::read_to_string(root().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    txt.lines()
        .filter_map(|l| {
            let r = l.strip_prefix("finding: property=")?;
            let (id, r) = r.split_once(" key=")?;
            let (key, what) = r.split_once(" :: ")?;
            Some(Known { id: id.into(), key: key.trim().into(), what: what.into() })
        })
        .collect()
}

// ------------------------------------------------------------- worker

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_replay(id: &str, tier: Tier, f: &Found) -> PathBuf {
    let d = root().join("out/replay");
    std::fs::create_dir_all(&d).unwrap();
    let h = fnv(fnv(7, f.bad.key.as_bytes()), f.space_name.as_bytes());
    let p = d.join(format!("{id}-{:016x}.txt", h));
    let mut bytes = String::new();
    if !f.bad.key.starts_with("crash") {
        let sp = checks::spaces(id, tier);
        let mut cx = Cx::new(900);
        cx.keep_bytes = true;
        let _ = run_one(f.space, &sp[f.space], &f.choices, std::ptr::null_mut(), &mut cx);
        if cx.last_bytes.len() < 200_000 {
            for b in &cx.last_bytes {
                write!(bytes, "{b:02x}").unwrap();
            }
        }
    }
    let mut o = std::fs::File::create(&p).unwrap();
    writeln!(
        o,
        "property={id}\ntier={}\nspace={}\nspace_name={}\nchoices={}\nlabels={}\nkey={}\nmessage={}\nbytes={}",
        tier.name(),
        f.space,
        f.space_name,
        f.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","),
        f.labels,
        f.bad.key.replace('\n', " "),
        f.bad.msg.replace('\n', " "),
        bytes
    )
    .unwrap();
    p
}

fn evidence(id: &str, tier: Tier, stats: &[SpaceStats], wall: f64, violations: usize, known: &[String]) {
    let d = root().join("evidence");
    std::fs::create_dir_all(&d).unwrap();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let info = checks::info(id);
    let sum = |f: fn(&SpaceStats) -> u64| stats.iter().map(f).sum::<u64>();
    let mut o = String::new();
    let samples: Vec<String> = stats
        .iter()
        .flat_map(|s| s.samples.iter().take(2).map(move |x| format!("{}: {}", s.name, if x.len() > 300 { format!("{}…", x.chars().take(300).collect::<String>()) } else { x.clone() })))
        .collect();
    let spaces: Vec<String> = stats
        .iter()
        .map(|s| {
            let ex: Vec<String> = s.extra.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect();
            format!(
                "      {{\"space\": {}, \"bound\": {}, \"executions\": {}, \"distinct_states\": {}, \"choice_transitions\": {}, \"distinct_outcomes\": {}, \"library_calls\": {}, \"calls_ok\": {}, \"calls_rejected\": {}, \"longest_choice_sequence\": {}, \"complete\": {}, \"wall_s\": {:.2}, \"counters\": {{{}}}}}",
                jstr(&s.name), jstr(&s.bound), s.executions, s.states, s.transitions, s.outcomes, s.calls, s.ok, s.err, s.max_depth, s.complete, s.wall, ex.join(", ")
            )
        })
        .collect();
    write!(
        o,
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {seed},\n  \"level\": \"model_checking\",\n  \"coverage\": {{\n    \"states\": {},\n    \"transitions\": {},\n    \"traces_validated_against_impl\": {},\n    \"exhaustive\": {},\n    \"rule\": {},\n    \"samples\": [{}],\n    \"spaces\": [\n{}\n    ],\n    \"known_findings\": [{}]\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {violations}\n}}\n",
        jstr(id),
        jstr(tier.name()),
        sum(|s| s.states),
        sum(|s| s.transitions),
        sum(|s| s.executions),
        stats.iter().all(|s| s.complete) && !stats.is_empty(),
        jstr(info.rule),
        samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "),
        spaces.join(",\n"),
        known.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "),
        info.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "),
        wall
    )
    .unwrap();
    std::fs::write(d.join(format!("{id}.json")), o).unwrap();
}

fn worker_main(id: &str, tier: Tier, slotfile: &Path) {
    install_hook();
    let t0 = Instant::now();
    let slots: &'static Slots = Box::leak(Box::new(Slots::open(slotfile, THREADS)));
    watchdog(slots, 40.0);
    let budget = std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
        Tier::Quick => 240,
        Tier::Thorough => 780,
    });
    let end = t0 + Duration::from_secs(budget);
    let known: Vec<Known> = known_findings().into_iter().filter(|k| k.id == id).collect();
    let is_known = |b: &Bad| known.iter().any(|k| k.key == b.key);
    let only = std::env::var("MC_ONLY").ok();
    let spaces = checks::spaces(id, tier);
    let mut stats = vec![];
    let mut found = vec![];
    for (i, sp) in spaces.iter().enumerate() {
        if only.as_ref().is_some_and(|o| !sp.name.contains(o.as_str())) {
            continue;
        }
        let (st, f) = explore(i, sp, checks::threads(id, THREADS), end, slots, &is_known);
        eprintln!(
            "{id} {:<28} {:>9} executions {:>9} states {:>9} calls ({} ok, {} err) {:>6} outcomes depth {} {:.1}s{}",
            st.name, st.executions, st.states, st.calls, st.ok, st.err, st.outcomes, st.max_depth, st.wall,
            if st.complete { "" } else { "  [not exhausted]" }
        );
        stats.push(st);
        let new = f.iter().any(|x| !is_known(&x.bad));
        found.extend(f);
        // for trying many changes to the library quickly
        if new && std::env::var("MC_FIRST").is_ok() {
            break;
        }
    }
    let mut kn: Vec<String> = vec![];
    let mut viol: Vec<&Found> = vec![];
    for f in &found {
        match known.iter().find(|k| k.key == f.bad.key) {
            Some(k) => {
                if !kn.contains(&k.what) {
                    kn.push(k.what.clone())
                }
            }
            None => viol.push(f),
        }
    }
    evidence(id, tier, &stats, t0.elapsed().as_secs_f64(), viol.len(), &kn);
    for k in &kn {
        println!("KNOWN-FINDING: property={id} {k}");
    }
    let mut code = 0;
    for f in viol {
        code = 1;
        let p = write_replay(id, tier, f);
        println!("VIOLATION property={id} replay={}", p.display());
        println!("  space {} [{}]\n  {}: {}", f.space_name, f.labels, f.bad.key, f.bad.msg);
    }
    if code == 0 {
        println!("OK property={id} tier={} executions={}", tier.name(), stats.iter().map(|s| s.executions).sum::<u64>());
    }
    std::io::stdout().flush().unwrap();
    exit(code)
}

fn run_single(id: &str, tier: Tier, space: usize, choices: &[u32]) -> R {
    let spaces = checks::spaces(id, tier);
    let ch = choices.to_vec();
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(THREAD_STACK)
            .spawn_scoped(s, || {
                let mut cx = Cx::new(0);
                cx.verbose = true;
                cx.keep_bytes = true;
                let (r, t) = run_one(space, &spaces[space], &ch, std::ptr::null_mut(), &mut cx);
                eprintln!("space {}: {}", spaces[space].name, fmt_trace(&t));
                r
            })
            .unwrap()
            .join()
            .unwrap()
    })
}
fn parse_choices(s: &str) -> Vec<u32> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}
/// exit 3 = this trace violates the property, 0 = it does not
fn single(id: &str, tier: Tier, space: usize, choices: &str) {
    install_hook();
    match run_single(id, tier, space, &parse_choices(choices)) {
        Ok(()) => exit(0),
        Err(b) => {
            println!("{}: {}", b.key, b.msg);
            exit(3)
        }
    }
}

fn spawn_single(id: &str, tier: Tier, space: usize, choices: &[u32], quiet: bool) -> Option<String> {
    let c: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.args(["single", id, tier.name(), &space.to_string(), &c.join(",")]);
    if quiet {
        cmd.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    }
    let mut ch = cmd.spawn().unwrap();
    let t = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            use std::os::unix::process::ExitStatusExt;
            return match (st.code(), st.signal()) {
                (Some(0), _) => None,
                (Some(3), _) => Some("violation".into()),
                (Some(c), _) => Some(format!("harness-error {c}")),
                (_, Some(s)) => Some(format!("crash: killed by signal {s}")),
                _ => None,
            };
        }
        if t.elapsed().as_secs() > 60 {
            let _ = ch.kill();
            let _ = ch.wait();
            return Some("crash: no progress (hang)".into());
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn supervise(id: &str, tier: &str) {
    let t0 = Instant::now();
    let tr = tier_of(tier);
    if !checks::IDS.contains(&id) {
        eprintln!("unknown property {id}");
        exit(2);
    }
    let dir = root().join("out");
    std::fs::create_dir_all(&dir).unwrap();
    let sf = dir.join(format!("slots-{id}-{}", std::process::id()));
    let st = Command::new(std::env::current_exe().unwrap())
        .args(["worker", id, tier, sf.to_str().unwrap()])
        .status()
        .unwrap();
    let cleanup = || {
        let _ = std::fs::remove_file(&sf);
        for b in ["/dev/shm/mc-onenote", "/tmp/mc-onenote"] {
            if let Ok(rd) = std::fs::read_dir(b) {
                for e in rd.flatten() {
                    // leftovers of processes that are gone
                    let n = e.file_name().to_string_lossy().to_string();
                    let pid = n.split('-').next().unwrap_or("").to_string();
                    if !pid.is_empty() && !Path::new(&format!("/proc/{pid}")).exists() {
                        let _ = std::fs::remove_dir_all(e.path());
                    }
                }
            }
        }
    };
    match st.code() {
        Some(c @ (0 | 1)) => {
            cleanup();
            exit(c)
        }
        Some(c) if c != 77 => {
            eprintln!("worker failed with status {c}");
            cleanup();
            exit(2)
        }
        _ => {}
    }
    eprintln!("worker died ({st}); isolating the execution");
    let slots = Slots::open(&sf, THREADS);
    let spaces = checks::spaces(id, tr);
    let mut hit = false;
    for i in 0..THREADS {
        let (act, space, choices) = slots.read(i);
        if !act || space >= spaces.len() {
            continue;
        }
        if let Some(why) = spawn_single(id, tr, space, &choices, true) {
            if why.starts_with("harness-error") {
                continue;
            }
            let msg = if why == "violation" {
                "the property fails for this execution".to_string()
            } else {
                format!("the library did not return: {why}")
            };
            let f = Found {
                space,
                space_name: spaces[space].name.clone(),
                labels: String::new(),
                choices,
                bad: Bad { key: if why == "violation" { "crash: in worker".into() } else { why }, msg },
            };
            if known_findings().iter().any(|k| k.id == id && k.key == f.bad.key) {
                continue;
            }
            let p = write_replay(id, tr, &f);
            println!("VIOLATION property={id} replay={}", p.display());
            println!("  space {}: {}", f.space_name, f.bad.msg);
            hit = true;
            break;
        }
    }
    let st = SpaceStats {
        name: "aborted run".into(),
        bound: "the run ended when the library crashed or hung".into(),
        ..Default::default()
    };
    evidence(id, tr, &[st], t0.elapsed().as_secs_f64(), hit as usize, &[]);
    cleanup();
    exit(if hit { 1 } else { 2 })
}

fn replay(p: &Path) {
    let txt = std::fs::read_to_string(p).expect("replay file");
    let f = |k: &str| {
        txt.lines().find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix('='))).unwrap_or("").to_string()
    };
    let (id, tier) = (f("property"), tier_of(&f("tier")));
    println!("{id} {} {}", f("space_name"), f("labels"));
    println!("recorded: {}: {}", f("key"), f("message"));
    match spawn_single(&id, tier, f("space").parse().unwrap(), &parse_choices(&f("choices")), false) {
        None => {
            println!("not reproduced");
            exit(0)
        }
        Some(w) => {
            println!("reproduced: {w}");
            exit(1)
        }
    }
}
