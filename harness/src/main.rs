mod checks;
mod engine;
mod full;
mod gen;
mod model;
mod xmlp;

use std::os::unix::process::ExitStatusExt;
use std::process::Command;

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|v| v.trim().parse().ok()).unwrap_or(1)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => supervise(&args[2], &args[3]),
        Some("child") => {
            engine::install_hook();
            let chk = find(&args[2]);
            engine::run_check(&chk, &args[3], seed(), &args[4])
        }
        Some("one") => {
            engine::install_hook();
            let chk = find(&args[2]);
            engine::one_index(&chk, &args[3], args[4].parse().unwrap(), seed())
        }
        Some("replay") => {
            engine::install_hook();
            let body = std::fs::read_to_string(&args[2]).expect("replay file");
            let get = |k: &str| {
                body.lines()
                    .find_map(|l| l.strip_prefix(k).and_then(|l| l.strip_prefix('=')))
                    .unwrap_or("")
                    .to_string()
            };
            let chk = find(&get("property"));
            let choices = get("choices").split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            if body.lines().any(|l| l == "mode=index") {
                engine::one_index(&chk, &get("part"), get("index").parse().unwrap(), get("seed").parse().unwrap())
            } else {
                engine::replay_one(&chk, &get("part"), choices)
            }
        }
        Some("disk") => checks::c_fault::disk_child(&args[2..]),
        Some("list") => {
            for c in checks::all() {
                println!("{}", c.id);
            }
            0
        }
        _ => {
            eprintln!("odsv check <ID> quick|thorough | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}

fn find(id: &str) -> engine::Check {
    match checks::all().into_iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            println!("ERROR: no check {}", id);
            std::process::exit(2);
        }
    }
}

/// Runs the check in a child process, so that a crash of the process (stack
/// overflow, abort) can be attributed to a case.
fn supervise(id: &str, tier: &str) -> i32 {
    let me = std::env::current_exe().expect("exe");
    let cur = format!("{}/logs/{}.{}", engine::verif_dir(), id, std::process::id());
    let _ = std::fs::create_dir_all(&cur);
    // bounded memory: runaway allocations end in an abort of the child.
    let limited = |args: &[&str]| {
        let mut c = Command::new("sh");
        c.args(["-c", "ulimit -v 20000000 2>/dev/null; exec \"$0\" \"$@\""]).arg(&me).args(args);
        if id == "C28" {
            // the zip library reports every injected fault there
            c.stderr(std::process::Stdio::null());
        }
        c
    };
    let st = limited(&["child", id, tier, &cur]).status();
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            println!("ERROR: {}", e);
            return 2;
        }
    };
    let mut code = st.code().unwrap_or(4);
    if st.signal() == Some(6) || st.signal() == Some(11) {
        let mut cands = vec![];
        if let Ok(rd) = std::fs::read_dir(&cur) {
            for f in rd.flatten() {
                if let Ok(s) = std::fs::read_to_string(f.path()) {
                    let mut it = s.split_whitespace();
                    if let (Some(p), Some(i)) = (it.next(), it.next().and_then(|v| v.parse::<u64>().ok())) {
                        cands.push((p.to_string(), i));
                    }
                }
            }
        }
        cands.sort();
        for (p, i) in cands {
            if let Ok(s) = limited(&["one", id, &p, &i.to_string()]).status() {
                if s.signal() == Some(6) || s.signal() == Some(11) {
                    let m = format!("process died with signal {:?}", s.signal());
                    let path = engine::write_replay(id, &p, &[], &m, &format!("mode=index\nseed={}\nindex={}", seed(), i));
                    println!("{}", m);
                    println!("VIOLATION property={} replay={}", id, path);
                    code = 1;
                    break;
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&cur);
    code
}
