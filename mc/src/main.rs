mod alloc;
mod engine;
mod props;
mod refcodec;
mod util;
use engine::*;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};

#[global_allocator]
static GLOBAL: alloc::A = alloc::A;

/// Called at every allocation; a scheduling point when a controlled exploration is running.
#[inline(always)]
pub fn sched_point() {
    #[cfg(feature = "sched")]
    props::sched::alloc_point();
}
fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn load_known(prop: &str, path: Option<&String>) -> HashSet<String> {
    let mut set = HashSet::new();
    if let Some(p) = path {
        if let Ok(t) = std::fs::read_to_string(p) {
            for l in t.lines() {
                // known: property=<id> key=<key> | <description>
                if let Some(rest) = l.strip_prefix("known: ") {
                    let mut it = rest.splitn(3, ' ');
                    let pr = it.next().unwrap_or("");
                    let key = it.next().unwrap_or("");
                    if pr == format!("property={prop}") {
                        if let Some(k) = key.strip_prefix("key=") {
                            set.insert(k.to_string());
                        }
                    }
                }
            }
        }
    }
    set
}
fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    install_panic_hook();
    let cmd = args.get(1).map(String::as_str).unwrap_or("");
    match cmd {
        "list" => {
            for p in props::ALL {
                println!("{p}");
                for f in props::families(p).unwrap_or_default() {
                    println!("  {} - {}", f.name, f.about);
                }
            }
        }
        "families" => {
            for f in props::families(&args[2]).unwrap_or_default() {
                println!("{}", f.name);
            }
        }
        // worker <prop> <quick|thorough> --out F --journal F --known F [--family NAME] [--wall SECONDS]
        "worker" => worker(&args),
        // one <prop> <quick|thorough> <family> <c,c,c> --known F : exit 0 held, 1 violated, 3 engine error
        "one" => one(&args),
        // used by C24: run one operation of its alphabet in this fresh process
        "op" => props::history::op_main(&args),
        // used by C27: what this build makes of a list of cases
        "dump" => props::builds::dump_main(&args[2]),
        _ => {
            eprintln!("usage: mc list | worker | one");
            std::process::exit(3)
        }
    }
}
fn one(args: &[String]) {
    let prop = &args[2];
    let thorough = args[3] == "thorough";
    let known = load_known(prop, arg(args, "--known").as_ref());
    let fams = props::families(prop).expect("property");
    let fam = fams.iter().find(|f| f.name == args[4]).expect("family");
    let choices: Vec<u32> = args[5].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    let mut st = HashSet64::default();
    let (fam_ref, known_ref) = (&fam, &known);
    let run = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, || {
                let st = &mut st;
                run_one(fam_ref, &choices, st, thorough, true, known_ref)
            })
            .unwrap()
            .join()
            .unwrap()
    });
    println!("case: {}", run.note.unwrap_or_default());
    match run.result {
        Ok(_) => println!("held"),
        Err(f) if f.engine => {
            println!("engine error: {}", f.msg);
            std::process::exit(3)
        }
        Err(f) => {
            println!("violated: {}", f.msg);
            std::process::exit(1)
        }
    }
}
fn worker(args: &[String]) {
    let prop = args[2].clone();
    let thorough = args[3] == "thorough";
    let out = arg(args, "--out").expect("--out");
    let t0 = Instant::now();
    let wall: u64 = arg(args, "--wall").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 100 });
    let o = Opts {
        thorough,
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(32),
        journal: arg(args, "--journal").map(|p| std::fs::File::create(p).expect("journal")),
        wall_cap: Duration::from_secs(wall),
        exec_cap: Duration::from_secs(if thorough { 240 } else { 90 }),
        known: load_known(&prop, arg(args, "--known").as_ref()),
        only_family: arg(args, "--family"),
    };
    let fams = match props::families(&prop) {
        Some(f) => f,
        None => {
            eprintln!("unknown property {prop}");
            std::process::exit(3)
        }
    };
    // A call that never returns: end the worker, the driver finds the execution in the journal.
    // Its own clock: the machine may stand still for a while without any call being at fault.
    let ticks = (o.exec_cap.as_millis() / 500) as u32;
    std::thread::spawn(move || {
        let mut seen = vec![(0, 0u32); BEATS.len()];
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for (b, (start, n)) in BEATS.iter().zip(&mut seen) {
                let now = b.start_ms.load(SeqCst);
                (*start, *n) = if now == *start { (now, *n + 1) } else { (now, 0) };
                if now != 0 && *n > ticks {
                    std::process::exit(78);
                }
            }
        }
    });
    let mut results = vec![];
    for (i, f) in fams.iter().enumerate() {
        if f.thorough_only && !thorough {
            continue;
        }
        if let Some(n) = &o.only_family {
            if n != f.name {
                continue;
            }
        }
        let left = Duration::from_secs(wall).saturating_sub(t0.elapsed());
        let fo = Opts {
            wall_cap: left.max(Duration::from_secs(5)),
            journal: o.journal.as_ref().map(|j| j.try_clone().unwrap()),
            known: o.known.clone(),
            only_family: None,
            ..o
        };
        let r = run_family(i, f, &fo, t0);
        eprintln!(
            "{prop}/{}: executions={} states={} steps={} compared={} depth={} exhaustive={} {:.2}s{}",
            r.name, r.executions, r.states, r.steps, r.validated, r.max_depth, r.exhaustive, r.wall,
            if r.violation.is_some() { " VIOLATION" } else { "" }
        );
        if let Some(e) = &r.engine_error {
            eprintln!("  engine error: {e}");
        }
        if let Some((c, m)) = &r.violation {
            eprintln!("  {m}\n  choices {c:?}");
        }
        let stop = r.violation.is_some() || r.engine_error.is_some();
        results.push(r);
        if stop && arg(args, "--keep-going").is_none() {
            break;
        }
    }
    let mut j = String::from("{\"families\":[");
    for (i, r) in results.iter().enumerate() {
        if i > 0 {
            j.push(',');
        }
        let _ = write!(
            j,
            "{{\"name\":{},\"about\":{},\"executions\":{},\"states\":{},\"transitions\":{},\"compared\":{},\"max_choices\":{},\"exhaustive\":{},\"wall_s\":{:.3},\"samples\":[{}]",
            json_str(&r.name), json_str(&r.about), r.executions, r.states, r.steps, r.validated, r.max_depth, r.exhaustive, r.wall,
            r.samples.iter().map(|s| json_str(&s.chars().take(400).collect::<String>())).collect::<Vec<_>>().join(",")
        );
        if let Some((c, m)) = &r.violation {
            let _ = write!(
                j,
                ",\"violation\":{{\"choices\":[{}],\"msg\":{}}}",
                c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
                json_str(&m.chars().take(4000).collect::<String>())
            );
        }
        if let Some(e) = &r.engine_error {
            let _ = write!(j, ",\"engine_error\":{}", json_str(e));
        }
        let _ = write!(
            j,
            ",\"knowns\":[{}]}}",
            r.knowns
                .iter()
                .map(|(k, (n, m))| format!("{{\"key\":{},\"count\":{n},\"msg\":{}}}", json_str(k), json_str(m)))
                .collect::<Vec<_>>()
                .join(",")
        );
    }
    j.push_str("]}");
    std::fs::write(&out, j).expect("write out");
    if results.iter().any(|r| r.violation.is_some()) {
        std::process::exit(1)
    }
    if results.iter().any(|r| r.engine_error.is_some()) {
        std::process::exit(3)
    }
}
