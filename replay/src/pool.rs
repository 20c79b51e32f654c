//! C15: the actor pool.
use crate::{ensure, same, scenarios, Res};
use kameo::error::SendError;
use kameo::mailbox;
use kameo::prelude::*;
use kameo_actors::pool::{ActorPool, Broadcast, Dispatch};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

type Log = Arc<Mutex<Vec<(usize, u32)>>>;

#[derive(Actor)]
struct W {
    id: usize,
    log: Log,
}
#[derive(Clone, Debug, PartialEq)]
struct Job(u32);
#[derive(Clone, Debug, PartialEq)]
struct Slow(u32);
struct Boom;

impl Message<Job> for W {
    type Reply = Result<(usize, u32), String>;
    async fn handle(&mut self, Job(n): Job, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
        self.log.lock().unwrap().push((self.id, n));
        if n == 13 {
            return Err("unlucky".into());
        }
        Ok((self.id, n))
    }
}
impl Message<Slow> for W {
    type Reply = usize;
    async fn handle(&mut self, Slow(n): Slow, _: &mut Context<Self, Self::Reply>) -> usize {
        tokio::time::sleep(Duration::from_secs(5)).await;
        self.log.lock().unwrap().push((self.id, n));
        self.id
    }
}
impl Message<Boom> for W {
    type Reply = ();
    async fn handle(&mut self, _: Boom, _: &mut Context<Self, ()>) {
        panic!("boom")
    }
}

struct Made {
    log: Log,
    all: Arc<Mutex<Vec<ActorRef<W>>>>,
    n: Arc<AtomicUsize>,
}

fn made() -> Made {
    Made { log: Default::default(), all: Default::default(), n: Default::default() }
}

impl Made {
    /// A factory that remembers the actors it made.
    fn factory(&self, bounded: Option<usize>) -> impl FnMut() -> ActorRef<W> + Send + Sync + 'static {
        let (log, all, n) = (self.log.clone(), self.all.clone(), self.n.clone());
        move || {
            let w = W { id: n.fetch_add(1, Ordering::SeqCst), log: log.clone() };
            let r = match bounded {
                Some(c) => kameo::actor::spawn_with_mailbox(w, mailbox::bounded(c)),
                None => kameo::spawn(w),
            };
            all.lock().unwrap().push(r.clone());
            r
        }
    }
    fn count(&self) -> usize {
        self.n.load(Ordering::SeqCst)
    }
}

async fn settle() {
    tokio::time::sleep(Duration::from_millis(50)).await;
}

async fn broadcast_ids(pool: &ActorRef<ActorPool<W>>, m: &Made, n: u32) -> Vec<usize> {
    let _ = pool.ask(Broadcast(Job(n))).await;
    settle().await;
    let mut v: Vec<usize> = m.log.lock().unwrap().iter().filter(|(_, k)| *k == n).map(|(i, _)| *i).collect();
    v.sort();
    v
}

async fn dispatch_once_and_answer() -> Res {
    for size in 1..5usize {
        let m = made();
        let pool = kameo::spawn(ActorPool::new(size, m.factory(None)));
        same!(m.count(), size, "actors made for a pool of {size}");
        for n in 0..20u32 {
            let r = pool.ask(Dispatch(Job(n))).await;
            match (n, r) {
                (13, Err(SendError::HandlerError(e))) => same!(e, "unlucky", "the handler's error"),
                (_, Ok((_, k))) => same!(k, n, "the reply to message {n}"),
                (_, r) => return Err(format!("dispatch {n} to {size}: {:?}", r.map_err(|e| e.to_string()))),
            }
            let k = m.log.lock().unwrap().iter().filter(|(_, k)| *k == n).count();
            same!(k, 1, "times message {n} was handled");
        }
        for n in 100..120u32 {
            ensure!(pool.tell(Dispatch(Job(n))).await.is_ok(), "tell to a running pool");
        }
        settle().await;
        for n in 100..120u32 {
            let k = m.log.lock().unwrap().iter().filter(|(_, k)| *k == n).count();
            same!(k, 1, "times told message {n} was handled");
        }
    }
    Ok(())
}

async fn large_pool() -> Res {
    let m = made();
    let pool = kameo::spawn(ActorPool::new(40, m.factory(None)));
    same!(m.count(), 40, "actors made for a pool of 40");
    for round in 0..3u32 {
        same!(broadcast_ids(&pool, &m, 1000 + round).await, (0..40).collect::<Vec<_>>(), "who got a broadcast to 40");
        match pool.ask(Broadcast(Job(2000))).await {
            Ok(r) => same!(r.iter().filter(|r| r.is_ok()).count(), 40, "outcomes of a broadcast to 40"),
            Err(_) => return Err("broadcast to 40 failed".into()),
        }
        settle().await;
        for n in 0..80 {
            ensure!(pool.tell(Dispatch(Slow(3000 + round))).await.is_ok(), "message {n} to a pool of 40");
        }
        tokio::time::sleep(Duration::from_secs(60)).await;
        let mut per = vec![0; 40];
        for (i, _) in m.log.lock().unwrap().iter().filter(|(_, k)| *k == 3000 + round) {
            per[*i] += 1;
        }
        same!(per, vec![2; 40], "how many of 80 slow messages each of 40 workers got");
    }
    Ok(())
}

async fn least_loaded_gets_it() -> Res {
    for (size, rounds, asked) in [(4, 1, true), (4, 2, true), (3, 3, true), (4, 1, false), (3, 2, false)] {
        let m = made();
        let pool = kameo::spawn(ActorPool::new(size, m.factory(None)));
        let mut asks = Vec::new();
        for n in 0..(size * rounds) as u32 {
            let p = pool.clone();
            if asked {
                asks.push(tokio::spawn(async move { p.ask(Dispatch(Slow(n))).await.map_err(|e| e.to_string()) }));
            } else {
                ensure!(p.tell(Dispatch(Slow(n))).await.is_ok(), "tell to a running pool");
            }
            settle().await;
        }
        for a in asks {
            if let Err(e) = a.await.unwrap() {
                return Err(format!("a dispatched message failed: {e}"));
            }
        }
        tokio::time::sleep(Duration::from_secs(100)).await;
        let mut got = vec![0; size];
        for (i, _) in m.log.lock().unwrap().iter() {
            got[*i] += 1;
        }
        same!(got, vec![rounds; size], "{} slow messages over {size} workers", size * rounds);
    }
    Ok(())
}

async fn broadcast_reaches_every_worker_once() -> Res {
    for size in 1..5usize {
        let m = made();
        let pool = kameo::spawn(ActorPool::new(size, m.factory(if size % 2 == 0 { Some(2) } else { None })));
        let r = pool.ask(Broadcast(Job(7))).await.map_err(|e| e.to_string())?;
        same!(r.len(), size, "results of a broadcast");
        ensure!(r.iter().all(|r| r.is_ok()), "a broadcast to running workers failed");
        settle().await;
        let mut ids: Vec<usize> = m.log.lock().unwrap().iter().map(|(i, _)| *i).collect();
        ids.sort();
        same!(ids, (0..size).collect::<Vec<_>>(), "who handled the broadcast");
    }
    Ok(())
}

async fn dead_worker_is_replaced() -> Res {
    for how in 0..4 {
        for asynchronous in [false, true] {
            let m = made();
            let pool = if asynchronous {
                let f = Arc::new(Mutex::new(m.factory(None)));
                kameo::spawn(ActorPool::new_async(3, move || { let f = f.clone(); async move { (f.lock().unwrap())() } }).await)
            } else {
                kameo::spawn(ActorPool::new(3, m.factory(None)))
            };
            settle().await;
            let victim = m.all.lock().unwrap()[1].clone();
            match how {
                0 => drop(pool.tell(Dispatch(Boom)).await),
                1 => drop(pool.ask(Dispatch(Boom)).await),
                2 => victim.kill(),
                _ => drop(victim.stop_gracefully().await),
            }
            settle().await;
            // a worker notices that its actor is gone when it passes it a message; after that every message is handled
            for n in 0..6 {
                let _ = pool.ask(Dispatch(Job(n))).await;
                let _ = pool.ask(Broadcast(Job(1000 + n))).await;
                settle().await;
            }
            for n in 50..60 {
                let r = pool.ask(Dispatch(Job(n))).await;
                ensure!(r.is_ok(), "death {how}, async {asynchronous}: a message was lost after the replacement: {:?}", r.map_err(|e| e.to_string()));
            }
            let ids = broadcast_ids(&pool, &m, 77).await;
            same!(ids.len(), 3, "death {how}, async {asynchronous}: workers that handle a broadcast after the replacement");
            same!(m.count(), 4, "death {how}, async {asynchronous}: actors made in all");
        }
    }
    Ok(())
}

async fn full_mailbox_of_a_new_worker() -> Res {
    let m = made();
    let mut f = m.factory(Some(1));
    let pool = ActorPool::new(1, move || {
        let r = f();
        let _ = r.tell(Slow(1)).try_send(); // its mailbox is full when the pool looks at it
        r
    });
    let pool = kameo::spawn(pool);
    let r = pool.ask(Dispatch(Job(3))).await;
    ensure!(r.is_ok(), "dispatch to a worker that had a full mailbox: {:?}", r.map_err(|e| e.to_string()));
    Ok(())
}

/// Workers whose actors all died at once: the asker is told so, and the pool recovers.
async fn all_dead_then_recovers() -> Res {
    let m = made();
    let pool = kameo::spawn(ActorPool::new(2, m.factory(None)));
    settle().await;
    for r in m.all.lock().unwrap().iter() {
        r.kill();
    }
    settle().await;
    let r = pool.ask(Dispatch(Job(1))).await;
    ensure!(r.is_err(), "a dead worker answered");
    for n in 0..4 {
        let _ = pool.ask(Dispatch(Job(n))).await;
        settle().await;
    }
    let r = pool.ask(Dispatch(Job(9))).await;
    ensure!(r.is_ok(), "the pool did not recover: {:?}", r.map_err(|e| e.to_string()));
    Ok(())
}

/// fails after five seconds, which kills the worker that was told it
struct SlowBoom;
impl Message<SlowBoom> for W {
    type Reply = ();
    async fn handle(&mut self, _: SlowBoom, _: &mut Context<Self, ()>) {
        tokio::time::sleep(Duration::from_secs(5)).await;
        panic!("slow boom")
    }
}

/// A worker that died is still in the pool while dispatches queued before its death are handled: they go to the others.
async fn dead_worker_is_passed_over() -> Res {
    let m = made();
    let f = Arc::new(Mutex::new(m.factory(None)));
    let pool = ActorPool::new_async(3, move || {
        let f = f.clone();
        async move {
            let r = (f.lock().unwrap())();
            if SLOW.load(Ordering::SeqCst) {
                tokio::time::sleep(Duration::from_secs(10)).await;
            }
            r
        }
    })
    .await;
    let pool = kameo::spawn(pool);
    settle().await;
    SLOW.store(true, Ordering::SeqCst);
    let _ = pool.tell(Dispatch(SlowBoom)).await; // worker 0 dies at five seconds
    let _ = pool.tell(Dispatch(Boom)).await; // worker 1 dies now; the pool waits ten seconds for its replacement
    settle().await;
    let asks: Vec<_> = (0..4).map(|n| { let p = pool.clone(); tokio::spawn(async move { p.ask(Dispatch(Job(n))).await.map_err(|e| e.to_string()) }) }).collect();
    for a in asks {
        let r = a.await.unwrap();
        ensure!(r.is_ok(), "two of three workers run, but the message was not handled: {:?}", r);
    }
    SLOW.store(false, Ordering::SeqCst);
    Ok(())
}
static SLOW: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// No worker left at the moment of the dispatch: the asker gets its message back, and the pool goes on.
async fn no_worker_left() -> Res {
    let m = made();
    let f = Arc::new(Mutex::new(m.factory(None)));
    let slow = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let s = slow.clone();
    let pool = ActorPool::new_async(2, move || {
        let (f, s) = (f.clone(), s.clone());
        async move {
            let r = (f.lock().unwrap())();
            if s.load(Ordering::SeqCst) {
                let _ = r.kill();
                tokio::time::sleep(Duration::from_secs(10)).await;
            }
            r
        }
    })
    .await;
    let pool = kameo::spawn(pool);
    settle().await;
    slow.store(true, Ordering::SeqCst);
    let _ = pool.tell(Dispatch(SlowBoom)).await; // worker 0 dies at five seconds
    let _ = pool.tell(Dispatch(Boom)).await; // worker 1 dies now; its replacement wraps a dead actor
    settle().await;
    let ask = |n| { let p = pool.clone(); tokio::spawn(async move { p.ask(Dispatch(Job(n))).await }) };
    let (a, b, c) = (ask(1), ask(2), ask(3));
    settle().await;
    slow.store(false, Ordering::SeqCst);
    for (n, a) in [(1, a), (2, b), (3, c)] {
        match a.await.unwrap() {
            Err(SendError::ActorNotRunning(Dispatch(Job(k)))) => same!(k, n, "the message that came back"),
            Err(SendError::ActorStopped) if n == 1 => {}
            r => return Err(format!("ask {n} without any live worker: {:?}", r.map_err(|e| e.to_string()))),
        }
    }
    settle().await;
    ensure!(pool.is_alive(), "the pool stopped because its workers had died");
    Ok(())
}

/// The only worker dies while the pool waits for space in its mailbox: the asker gets its message back, and the pool goes on.
async fn only_worker_dies() -> Res {
    let m = made();
    let pool = kameo::spawn(ActorPool::new(1, m.factory(Some(1))));
    settle().await;
    let _ = pool.tell(Dispatch(SlowBoom)).await;
    settle().await;
    let _ = pool.tell(Dispatch(Job(4))).await;
    settle().await;
    let p = pool.clone();
    match p.ask(Dispatch(Job(5))).await {
        Err(SendError::ActorNotRunning(Dispatch(Job(k)))) => same!(k, 5, "the message that came back"),
        r => return Err(format!("ask without any live worker: {:?}", r.map_err(|e| e.to_string()))),
    }
    settle().await;
    ensure!(pool.is_alive(), "the pool stopped because its worker had died");
    let r = pool.ask(Dispatch(Job(6))).await;
    ensure!(r.is_ok(), "the pool did not recover: {:?}", r.map_err(|e| e.to_string()));
    Ok(())
}

async fn long_queues_are_told_apart() -> Res {
    let m = made();
    let pool = kameo::spawn(ActorPool::new(3, m.factory(None)));
    // one worker after the other gets a long queue, of a length of its own
    let answers: Vec<_> = (0..90u32)
        .map(|n| {
            let p = pool.clone();
            tokio::spawn(async move { p.ask(Dispatch(Slow(n))).await })
        })
        .collect();
    settle().await;
    for (n, a) in answers.into_iter().enumerate() {
        ensure!(a.await.unwrap().is_ok(), "dispatch {n}");
    }
    let mut by = [0; 3];
    for (i, _) in m.log.lock().unwrap().iter() {
        by[*i] += 1;
    }
    same!(by, [30, 30, 30], "messages each of three equally fast workers got");
    Ok(())
}

scenarios! {
    "C15" long_queues_are_told_apart;
    "C15" only_worker_dies;
    "C15" dead_worker_is_passed_over;
    "C15" no_worker_left;
    "C15" dispatch_once_and_answer;
    "C15" least_loaded_gets_it;
    "C15" large_pool;
    "C15" broadcast_reaches_every_worker_once;
    "C15" dead_worker_is_replaced;
    "C15" full_mailbox_of_a_new_worker;
    "C15" all_dead_then_recovers;
}
