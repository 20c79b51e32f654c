//! Scenarios run against the real crate: they replay a failed proof obligation as a failing input, and are a bounded stand-in
//! for functions the verifier could not decide.  `replay PATTERN...` runs the scenarios whose name starts with a pattern.
//! Single threaded tokio with paused time: deterministic, and a hang shows up as an (instant) timeout.
mod util;
mod core;
mod refs;
mod replies;
mod pool;
mod topics;
mod later;
mod more;
mod slow;
mod streams;

use std::{future::Future, panic, pin::Pin, time::Duration};

pub type Res = Result<(), String>;
pub type Fut = Pin<Box<dyn Future<Output = Res>>>;
pub type Scenario = (&'static str, fn() -> Fut);

#[macro_export]
macro_rules! scenarios {
    ($($id:literal $f:ident;)*) => {
        pub const ALL: &[$crate::Scenario] = &[$((concat!($id, ":", stringify!($f)), || Box::pin($f())),)*];
    };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

#[macro_export]
macro_rules! same {
    ($a:expr, $b:expr, $($t:tt)*) => {{ let (a, b) = (&$a, &$b); if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)); } }};
}

fn main() {
    let pats: Vec<String> = std::env::args().skip(1).collect();
    panic::set_hook(Box::new(|_| {}));
    let mut bad = 0;
    for (name, f) in core::ALL.iter().chain(refs::ALL).chain(replies::ALL).chain(pool::ALL).chain(topics::ALL).chain(streams::ALL).chain(slow::ALL).chain(more::ALL).chain(later::ALL) {
        if !pats.is_empty() && !pats.iter().any(|p| name.starts_with(p.as_str()) || name.ends_with(p.as_str())) {
            continue;
        }
        let f = *f;
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
            let r = panic::catch_unwind(panic::AssertUnwindSafe(|| {
                rt.block_on(async {
                    match tokio::time::timeout(Duration::from_secs(400 * 3600), f()).await {
                        Ok(r) => r,
                        Err(_) => Err("did not finish: something waits forever".to_string()),
                    }
                })
            }));
            rt.shutdown_background();
            let _ = tx.send(r);
        });
        let r = rx.recv_timeout(Duration::from_secs(40)).unwrap_or_else(|_| Ok(Err("did not finish: a thread waits forever".to_string())));
        match r {
            Ok(Ok(())) => println!("OK {name}"),
            Ok(Err(e)) => {
                bad += 1;
                println!("FAIL {name}: {e}");
            }
            Err(p) => {
                bad += 1;
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                println!("FAIL {name}: panicked: {m}");
            }
        }
    }
    std::process::exit(if bad > 0 { 1 } else { 0 });
}
