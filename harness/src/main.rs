mod engine;
mod model;
mod props;
mod walker;

use engine::*;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;

fn root() -> PathBuf {
    std::env::var("VERIF_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn opts(args: &[String]) -> Opts {
    let mut o = Opts {
        tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
        seed: std::env::var("VERIF_SEED")
            .ok()
            .and_then(|x| x.parse().ok())
            .unwrap_or(1),
        root: root(),
        cases: None,
        start: 0,
        progress: None,
    };
    let mut i = 0;
    while i + 1 < args.len() {
        match args[i].as_str() {
            "--tier" => o.tier = args[i + 1].clone(),
            "--seed" => o.seed = args[i + 1].parse().expect("seed"),
            "--cases" => o.cases = Some(args[i + 1].parse().expect("cases")),
            "--start" => o.start = args[i + 1].parse().expect("start"),
            "--progress" => o.progress = Some(PathBuf::from(&args[i + 1])),
            _ => {}
        }
        i += 1;
    }
    o
}

fn find(id: &str) -> &'static Prop {
    match props::ALL.iter().flat_map(|x| x.iter()).find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("ERROR: no such property {}", id);
            std::process::exit(2)
        }
    }
}

/// run the check in a child process, so that a crash of the process (stack overflow, abort) in a
/// case can be attributed to that case
fn supervise(p: &'static Prop, args: &[String]) -> i32 {
    let exe = std::env::current_exe().expect("exe");
    let o = opts(args);
    let dir = std::env::temp_dir().join(format!("vh-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("tmp dir");
    let progress = dir.join("progress");
    let status = std::process::Command::new(&exe)
        .arg("child")
        .arg(p.id)
        .args(args)
        .arg("--progress")
        .arg(&progress)
        .status()
        .expect("spawn");
    let hang = progress.with_extension("hang");
    let code = match (status.code(), status.signal()) {
        (Some(3), _) => confirm_hang(p, &o, &exe, &std::fs::read_to_string(&hang).unwrap_or_default()),
        (Some(c), _) => c,
        (None, Some(sig)) => {
            let mut code = 2;
            eprintln!("check process died with signal {}", sig);
            if [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL].contains(&sig) {
                let bytes = std::fs::read(&progress).unwrap_or_default();
                let mut idx: Vec<u64> = bytes
                    .chunks(8)
                    .filter(|c| c.len() == 8)
                    .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
                    .filter(|x| *x > 0)
                    .map(|x| x - 1)
                    .collect();
                idx.sort_unstable();
                for i in idx {
                    let st = std::process::Command::new(&exe)
                        .args(["single", p.id, &o.seed.to_string(), &i.to_string()])
                        .status()
                        .expect("spawn");
                    if let Some(s) = st.signal() {
                        if s == sig {
                            let fail = Fail::new(
                                "crash",
                                format!("case {} of seed {} kills the process with signal {}", i, o.seed, s),
                            );
                            let path = write_replay(&o.root, p, o.seed, Some(i), &format!("crash-{}", i), &[], &fail, &[]);
                            println!("failure kind=crash {}", fail.msg);
                            println!("VIOLATION property={} replay={}", p.id, path.display());
                            code = 1;
                            break;
                        }
                    }
                }
                if code == 2 {
                    for r in p.regress {
                        let st = std::process::Command::new(&exe).args(["regress", p.id, r.name]).status().expect("spawn");
                        if st.signal() == Some(sig) {
                            let fail = Fail::new("crash", format!("regression {} kills the process with signal {}", r.name, sig));
                            let path = write_replay(&o.root, p, o.seed, None, r.name, &[], &fail, &[]);
                            println!("failure kind=crash {}", fail.msg);
                            println!("VIOLATION property={} replay={}", p.id, path.display());
                            code = 1;
                            break;
                        }
                    }
                }
            }
            code
        }
        _ => 2,
    };
    let _ = std::fs::remove_file(&progress);
    let _ = std::fs::remove_file(&hang);
    let _ = std::fs::remove_dir(&dir);
    code
}

/// a case that does not end is a violation if it does not end when it is run alone, either
fn confirm_hang(p: &'static Prop, o: &Opts, exe: &PathBuf, what: &str) -> i32 {
    let (index, args) = match what.split_once(' ') {
        Some(("case", i)) => (i.parse::<u64>().ok(), vec!["single".to_string(), p.id.into(), o.seed.to_string(), i.into()]),
        Some((_, name)) => (None, vec!["regress".to_string(), p.id.into(), name.into()]),
        None => return 2,
    };
    // some at once, for schedules that do not always come up
    let mut ps: Vec<_> = (0..4)
        .map(|_| std::process::Command::new(exe).args(&args).stdout(std::process::Stdio::null()).spawn().expect("spawn"))
        .collect();
    let hangs = ps.iter_mut().filter_map(|c| c.wait().ok()).filter(|c| c.code() == Some(3)).count();
    if hangs == 0 {
        eprintln!("ERROR: {} {} did not finish, but does when it is run alone; inconclusive", p.id, what);
        return 2;
    }
    let fail = Fail::new("hang", format!("{} of seed {} does not end (within {} s)", what, o.seed, HANG.as_secs()));
    let name = what.split_once(' ').expect("name").1;
    let path = write_replay(&o.root, p, o.seed, index, name, &[], &fail, &[]);
    println!("failure kind=hang {}", fail.msg);
    println!("VIOLATION property={} replay={}", p.id, path.display());
    1
}

/// memory that grows without bounds ends in an abort of the check, not of something else
fn limit_memory() {
    let l = libc::rlimit { rlim_cur: 20 << 30, rlim_max: libc::RLIM_INFINITY };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
}

fn main() {
    limit_memory();
    install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let cmd = args.first().map(|x| x.as_str()).unwrap_or("");
    if args.iter().any(|a| a == "C29" || a == "C30") || cmd == "replay" {
        props::ipfs::prepare();
    }
    let code = match cmd {
        "list" => {
            for p in props::ALL.iter().flat_map(|x| x.iter()) {
                println!("{} quick={} thorough={}", p.id, p.quick, p.thorough);
            }
            0
        }
        "check" => supervise(find(&args[1]), &args[2..]),
        "child" => check(find(&args[1]), &opts(&args[2..])),
        "single" => single(
            find(&args[1]),
            args[2].parse().unwrap(),
            args[3].parse().unwrap(),
        ),
        "regress" => regress(find(&args[1]), &args[2]),
        "replay" => {
            let text = std::fs::read_to_string(&args[1]).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&text).expect("json");
            let p = find(v["property"].as_str().unwrap());
            let choices: Vec<u64> = v["choices"]
                .as_array()
                .unwrap()
                .iter()
                .map(|x| x.as_u64().unwrap())
                .collect();
            if let Some(name) = v["regression"].as_str() {
                regress(p, name)
            } else if v["kind"] == "crash" || v["kind"] == "hang" {
                single(p, v["seed"].as_u64().unwrap(), v["case"].as_u64().unwrap())
            } else {
                replay_choices(p, choices)
            }
        }
        _ => {
            eprintln!("usage: vh list | check ID [--tier T] [--seed N] [--cases N] | replay FILE");
            2
        }
    };
    std::process::exit(code);
}
