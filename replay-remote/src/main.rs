//! Scenarios with the remote feature, each in a process of its own (the swarm of a process is global).
//! `replay-remote PATTERN...` runs the scenarios whose name starts with a pattern.
mod generated;
mod net;
mod links;
mod msgs;
mod names;
mod node;

use std::{future::Future, panic, pin::Pin, time::Duration};

pub type Res = Result<(), String>;
pub type Fut = Pin<Box<dyn Future<Output = Res>>>;
pub type Scenario = (&'static str, fn() -> Fut);

#[macro_export]
macro_rules! scenarios {
    ($($id:literal $f:ident;)*) => {
        pub const ALL: &[$crate::Scenario] = &[$((concat!($id, ":", stringify!($f)), || Box::pin($f())),)*];
    };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

#[macro_export]
macro_rules! same {
    ($a:expr, $b:expr, $($t:tt)*) => {{ let (a, b) = (format!("{:?}", $a), format!("{:?}", $b)); if a != b { return Err(format!("{}: got {}, expected {}", format!($($t)*), a, b)); } }};
}

fn all() -> impl Iterator<Item = &'static Scenario> {
    names::ALL.iter().chain(msgs::ALL).chain(links::ALL).chain(node::ALL).chain(generated::ALL)
}

/// the same scenario over kameo's own network behaviour and loop
const REAL: &str = "@real";

fn one(name: &str) -> Res {
    net::REAL.store(name.ends_with(REAL), std::sync::atomic::Ordering::SeqCst);
    let name = name.trim_end_matches(REAL);
    let f = all().find(|s| s.0 == name).unwrap().1;
    panic::set_hook(Box::new(|i| {
        if std::thread::current().name() == Some("main") {
            println!("(panic: {i})");
        }
    }));
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| {
        let l = tokio::task::LocalSet::new();
        l.block_on(&rt, async {
            match tokio::time::timeout(Duration::from_secs(20), f()).await {
                Ok(r) => r,
                Err(_) => Err("did not finish: something waits forever".to_string()),
            }
        })
    }));
    rt.shutdown_background();
    r.unwrap_or_else(|p| Err(format!("panicked: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())))
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(|a| a == "--one").unwrap_or(false) {
        println!("START {}", args[1]);
        let r = one(&args[1]);
        match &r {
            Ok(()) => println!("OK {}", args[1]),
            Err(e) => println!("FAIL {}: {e}", args[1]),
        }
        std::process::exit(r.is_err() as i32);
    }
    let every: Vec<String> = all().flat_map(|s| [s.0.to_string(), format!("{}{REAL}", s.0)]).filter(|n| !["one_swarm_per_process", "several_starts_at_once", "a_round", "a_round@real"].iter().any(|x| n.ends_with(x))).collect();
    let names: Vec<String> = every.into_iter().filter(|n| args.is_empty() || args.iter().any(|p| n.starts_with(p.as_str()) || n.ends_with(p.as_str()))).collect();
    let exe = std::env::current_exe().unwrap();
    let hs: Vec<_> = names
        .into_iter()
        .map(|n| {
            let exe = exe.clone();
            std::thread::spawn(move || {
                let o = if n.ends_with(REAL) {
                    // a network namespace of its own with nothing but the loopback: mdns must find nobody
                    std::process::Command::new("unshare").args(["-Urn", "sh", "-c", "ip link set lo up && exec \"$0\" --one \"$1\""]).arg(exe).arg(&n).output()
                } else {
                    std::process::Command::new(exe).args(["--one", &n]).output()
                };
                (n, o)
            })
        })
        .collect();
    let mut bad = 0;
    for h in hs {
        let (n, o) = h.join().unwrap();
        let text = o.map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default();
        match text.lines().find(|l| l.starts_with("OK ") || l.starts_with("FAIL ")) {
            Some(l) => {
                bad += l.starts_with("FAIL ") as i32;
                println!("{l}");
            }
            None if !text.contains("START") && n.ends_with(REAL) => println!("SKIP {n}: no network namespace here"),
            None => {
                bad += 1;
                println!("FAIL {n}: the process died: {text}");
            }
        }
    }
    std::process::exit((bad > 0) as i32);
}
