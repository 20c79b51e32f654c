//! C22: the swarm of a process and the node's own operations.
use crate::{ensure, net, same, Res};
use kameo::{
    error::BootstrapError,
    remote::ActorSwarm,
};
use libp2p::{swarm::dial_opts::DialOpts, PeerId};
use std::{cell::RefCell, rc::Rc, time::Duration};

async fn one_swarm_per_process() -> Res {
    ensure!(ActorSwarm::get().is_none(), "there is a swarm before any was started");
    let s = net::real_swarm();
    let id = *s.local_peer_id();
    let first = match ActorSwarm::bootstrap_with_swarm(s) {
        Ok(a) => a,
        Err(e) => return Err(format!("the first start failed: {e}")),
    };
    same!(first.local_peer_id(), &id, "peer id of the swarm");
    ensure!(ActorSwarm::get().map(|a| std::ptr::eq(a, first)) == Some(true), "get() is not the swarm that was started");
    let s = net::real_swarm();
    let id2 = *s.local_peer_id();
    match ActorSwarm::bootstrap_with_swarm(s) {
        Err(BootstrapError::AlreadyBootstrapped(a, Some(s))) => {
            ensure!(std::ptr::eq(a, first), "the second start names another swarm");
            same!(s.local_peer_id(), &id2, "the swarm given back");
        }
        Err(e) => return Err(format!("the second start: {e}")),
        Ok(_) => return Err("the second start succeeded".into()),
    }
    ensure!(matches!(ActorSwarm::bootstrap(), Err(BootstrapError::AlreadyBootstrapped(..))), "bootstrap() again");
    ensure!(ActorSwarm::bootstrap_manual(id2).is_none(), "bootstrap_manual() again");
    same!(ActorSwarm::get().unwrap().local_peer_id(), &id, "peer id after a second start");
    // the first still works
    ensure!(tokio::time::timeout(Duration::from_secs(5), first.listen_on("/ip4/127.0.0.1/udp/0/quic-v1".parse().unwrap())).await.map(|r| r.is_ok()) == Ok(true), "the swarm no longer answers");
    Ok(())
}

/// several threads start a swarm at the same moment: one process per round, as only one start can win
async fn several_starts_at_once() -> Res {
    let me = std::env::current_exe().unwrap();
    for i in 0..40 {
        let o = std::process::Command::new(&me).args(["--one", "C22:a_round@real"]).output().map_err(|e| e.to_string())?;
        let text = String::from_utf8_lossy(&o.stdout).to_string();
        ensure!(!text.contains("FAIL"), "round {i}: {text}");
    }
    Ok(())
}

async fn a_round() -> Res {
    let n = 6;
    let barrier = std::sync::Arc::new(std::sync::Barrier::new(n));
    let rt = tokio::runtime::Handle::current();
    let ts: Vec<_> = (0..n)
        .map(|_| {
            let (h, b) = (rt.clone(), barrier.clone());
            std::thread::spawn(move || {
                let _g = h.enter();
                let s = net::real_swarm();
                let id = *s.local_peer_id();
                b.wait();
                match ActorSwarm::bootstrap_with_swarm(s) {
                    Ok(a) => Some((id, *a.local_peer_id())),
                    Err(_) => None,
                }
            })
        })
        .collect();
    let won: Vec<_> = ts.into_iter().filter_map(|t| t.join().unwrap()).collect();
    ensure!(won.len() == 1, "{} of {n} starts at the same moment succeeded", won.len());
    same!(won[0].0, won[0].1, "peer id of the swarm that won");
    Ok(())
}

async fn driven_by_hand() -> Res {
    let id = PeerId::random();
    let (a, mut h) = ActorSwarm::bootstrap_manual(id).ok_or("the first start failed")?;
    same!(a.local_peer_id(), &id, "peer id of the swarm");
    ensure!(ActorSwarm::bootstrap_manual(PeerId::random()).is_none(), "bootstrap_manual() again");
    let peers: Vec<PeerId> = (0..100).map(|_| PeerId::random()).collect();
    for p in &peers {
        a.disconnect_peer_id(*p);
    }
    for (i, p) in peers.iter().enumerate() {
        let c = tokio::time::timeout(Duration::from_secs(2), h.next_command()).await.map_err(|_| format!("command {i} never arrives"))?;
        ensure!(format!("{c:?}").contains(&format!("{p:?}")), "command {i} is {c:?}");
    }
    Ok(())
}

async fn listen_dial_and_ask() -> Res {
    let a = net::run();
    ensure!(a.listen_on("/ip4/127.0.0.1/udp/0/quic-v1".parse().unwrap()).await.is_ok(), "listening on the loopback");
    ensure!(a.listen_on("/memory/17".parse().unwrap()).await.is_err(), "listening on an address no transport knows");
    ensure!(a.dial(DialOpts::peer_id(PeerId::random()).build()).await.is_err(), "dialing a peer without an address");
    let seen = Rc::new(RefCell::new(0));
    let n = seen.clone();
    let p = net::peer(*a.local_peer_id(), Box::new(move |_| {
        *n.borrow_mut() += 1;
        None
    }))
    .await;
    ensure!(a.dial(p.addr.clone()).await.is_ok(), "dialing a peer that listens");
    let mut up = false;
    for _ in 0..100 {
        // dialing a peer one is connected with is refused
        if a.dial(DialOpts::peer_id(p.id).addresses(vec![p.addr.clone()]).build()).await.is_err() {
            up = true;
            break;
        }
        tokio::time::sleep(Duration::from_millis(20)).await;
    }
    ensure!(up, "never connected");
    a.disconnect_peer_id(p.id);
    let mut down = false;
    for _ in 0..100 {
        if a.dial(DialOpts::peer_id(p.id).addresses(vec![p.addr.clone()]).build()).await.is_ok() {
            down = true;
            break;
        }
        tokio::time::sleep(Duration::from_millis(20)).await;
    }
    ensure!(down, "never disconnected");
    Ok(())
}

crate::scenarios! {
    "C22" one_swarm_per_process;
    "C22" several_starts_at_once;
    "C22" a_round;
    "C22" driven_by_hand;
    "C22" listen_dial_and_ask;
}
