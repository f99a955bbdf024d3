//! Worker process: runs seeds, records or replays decision lists.
use std::collections::HashSet;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::time::Instant;

use crate::flow::{self, FlowEntry};
use crate::json::esc;
use crate::ops::{self, Fam, Profile, PROFILES};
use crate::world::*;

fn mixseed(base: u64, i: u64) -> u64 {
    let mut r = Rng(base ^ i.wrapping_mul(0xD1B54A32D192ED03));
    r.next();
    r.next()
}

struct Args(Vec<String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.iter().position(|a| a == k).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map_or(d, |s| s.parse().expect("number"))
    }
    fn has(&self, k: &str) -> bool {
        self.0.iter().any(|a| a == k)
    }
}

/// Which counter makes a run of this profile non-trivial.
fn key_stats(p: &str) -> &'static [&'static str] {
    match p {
        "C01" => &["op-replace"],
        "C02" => &["pinned-leaf-sightings", "flow-polls"],
        "C03" => &["op-project", "op-project-ref"],
        "C04" => &["destructor-bodies"],
        "C05" => &["multi-field-destructions"],
        "C06" => &["move-performed", "move-refused"],
        "C07" => &["flow-polls"],
        "C08" => &["thread-switches", "nested-op-in-destructor"],
        _ => &["op-project", "op-project-ref", "op-replace", "op-set", "op-destroy", "flow-polls"],
    }
}

fn one_run(types: Fam, flows: &'static [FlowEntry], suite: &str, prof: &Profile, src: Src) {
    with(|w| w.reset(src));
    set_actor(0);
    match suite {
        "flow" => flow::run_flow(flows, prof.name.starts_with("C09")),
        "lite" => {
            let (st, h) = ops::run_lite(types);
            with(|w| (w.steps, w.hash) = (st, h));
        }
        _ => ops::run_zoo(types, prof),
    }
}

fn report(suite: &str, prof: &Profile, index: Option<u64>) -> String {
    with(|w| {
        let v: Vec<String> = w
            .violations
            .iter()
            .map(|v| {
                format!(
                    "{{\"props\":[{}],\"class\":{},\"msg\":{}}}",
                    v.props.iter().map(|p| esc(p)).collect::<Vec<_>>().join(","),
                    esc(&v.class),
                    esc(&v.msg)
                )
            })
            .collect();
        let log = w.log.as_ref().map_or(String::new(), |l| format!(",\"log\":[{}]", l.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")));
        format!(
            "{{\"suite\":{},\"profile\":{},\"index\":{},\"hash\":\"{:016x}\",\"steps\":{},\"violations\":[{}],\"choices\":[{}]{}}}",
            esc(suite),
            esc(prof.name),
            index.map_or("null".into(), |i| i.to_string()),
            w.hash,
            w.steps,
            v.join(","),
            w.trace.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","),
            log
        )
    })
}

pub fn main(types: Fam, flows: &'static [FlowEntry]) -> ! {
    let args = Args(std::env::args().collect());
    let cmd = args.0.get(1).cloned().unwrap_or_default();
    let suite = args.get("--suite").unwrap_or("zoo").to_string();
    let prof = PROFILES.iter().find(|p| Some(p.name) == args.get("--profile")).unwrap_or(&PROFILES[0]);
    let props: Vec<String> = args.get("--props").unwrap_or("").split(',').filter(|s| !s.is_empty()).map(String::from).collect();
    if let Some(l) = args.get("--max-ops") {
        ops::set_max_ops(l.parse().unwrap());
    }
    let base = args.num("--base", 1);
    if suite == "flow" && flows.is_empty() || suite != "flow" && types.is_empty() {
        println!("{{\"runs\":0,\"steps\":0,\"vtime\":0,\"nontrivial\":0,\"distinct\":0,\"other\":[],\"stats\":{{}}}}");
        std::process::exit(0);
    }
    if suite == "lite" {
        set_lite(cmd == "run");
    }
    let echo = args.has("--echo");
    match cmd.as_str() {
        "run" => {
            let start = args.num("--start", 0);
            let count = args.num("--count", 1000);
            let ms = args.num("--ms", u64::MAX);
            let cur = args.get("--cur").map(|p| std::fs::File::create(p).expect("cur file"));
            let keys = key_stats(prof.name);
            let quiet = args.has("--no-hash-set");
            let (mut steps, mut nontrivial, mut runs, mut vtime) = (0u64, 0u64, 0u64, 0u64);
            let mut distinct: HashSet<u64> = HashSet::new();
            let mut light: Vec<u64> = Vec::new();
            let mut all_hash = 0u64;
            let mut other: Vec<String> = Vec::new();
            let t0 = Instant::now();
            for i in start..start.saturating_add(count) {
                // the real clock only bounds the batch; it is never read by a run
                if runs % 16 == 0 && t0.elapsed().as_millis() as u64 > ms {
                    break;
                }
                if echo {
                    eprintln!("@{i}");
                }
                if let Some(f) = &cur {
                    let _ = f.write_at(&i.to_le_bytes(), 0);
                }
                if suite == "lite" {
                    // under an interpreter, where bookkeeping would be most of the work
                    with(|w| w.src = Src::Seed(Rng(mixseed(base, i))));
                    let (st, h) = ops::run_lite(types);
                    runs += 1;
                    steps += st;
                    nontrivial += 1;
                    light.push(h);
                    continue;
                }
                let before: u64 = with(|w| w.stats.sum(keys));
                one_run(types, flows, &suite, prof, Src::Seed(Rng(mixseed(base, i))));
                runs += 1;
                let (after, st, h, vt) = with(|w| (w.stats.sum(keys), w.steps, w.hash, w.now));
                steps += st;
                vtime += vt;
                all_hash = all_hash.rotate_left(5) ^ h;
                if after > before && !quiet {
                    nontrivial += 1;
                    distinct.insert(h);
                }
                if violated() {
                    let hit = props.is_empty() || with(|w| w.violations.iter().any(|v| v.props.iter().any(|p| props.iter().any(|q| q == p))));
                    if hit {
                        println!("{}", report(&suite, prof, Some(i)));
                        let _ = std::io::stdout().flush();
                        // no destructors: the state may be anything now
                        unsafe { libc_exit(77) }
                    }
                    with(|w| {
                        w.bump("runs-ended-by-other-property");
                        for v in &w.violations {
                            let s = format!("{:?} {}", v.props, v.class);
                            if other.len() < 8 && !other.contains(&s) {
                                other.push(s);
                            }
                        }
                    });
                    ops::abandon();
                }
            }
            light.iter().for_each(|h| all_hash = all_hash.rotate_left(5) ^ h);
            distinct.extend(light);
            LIGHT.finish();
            let stats = with(|w| w.stats.total().iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
            println!(
                "{{\"runs\":{runs},\"steps\":{steps},\"vtime\":{vtime},\"nontrivial\":{nontrivial},\"distinct\":{},\"hash\":\"{all_hash:016x}\",\"other\":[{}],\"stats\":{{{stats}}}}}",
                distinct.len(),
                other.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")
            );
            let _ = std::io::stdout().flush();
            unsafe { libc_exit(0) }
        }
        // replays a decision list, or re-runs one seed while writing down its decisions
        "replay" | "record" => {
            let src = if cmd == "replay" {
                let s = std::fs::read_to_string(args.get("--script").expect("--script")).expect("script");
                Src::Script(s.split_whitespace().map(|x| x.parse().expect("decision")).collect(), 0)
            } else {
                Src::Seed(Rng(mixseed(base, args.num("--index", 0))))
            };
            if let Some(p) = args.get("--trace-out") {
                let f = std::fs::File::create(p).expect("trace");
                with(|w| w.trace_file = Some(f));
            }
            if args.has("--log") {
                with(|w| w.log = Some(Vec::new()));
            }
            one_run(types, flows, &suite, prof, src);
            println!("{}", report(&suite, prof, None));
            let _ = std::io::stdout().flush();
            unsafe { libc_exit(if violated() { 77 } else { 0 }) }
        }
        "list" => {
            for t in types {
                println!("{}", t.name);
            }
            for f in flows {
                println!("{}", f.name);
            }
            std::process::exit(0)
        }
        _ => {
            eprintln!("unknown command {cmd:?}");
            std::process::exit(3)
        }
    }
}

unsafe fn libc_exit(code: i32) -> ! {
    extern "C" {
        fn _exit(code: i32) -> !;
    }
    if cfg!(miri) {
        std::process::exit(code)
    }
    _exit(code)
}
