use crate::{ensure, same, scenarios, util::*, Res};
use futures::FutureExt;
use kameo::{
    actor::{spawn_link, ActorRef, PreparedActor},
    error::SendError,
    mailbox,
};
use std::{sync::Arc, time::Duration};
use tokio::sync::Notify;

scenarios! {
    "C04" stop_queues_behind;
    "C04" kill_interrupts;
    "C04" kill_interrupts_start;
    "C04" alive_and_waits;
    "C04" wait_results;
    "C04" wait_before_and_after;
    "C04" stop_when_gone;
    "C04" stop_through_recipient;
    "C06" link_symmetric;
    "C06" link_idempotent;
    "C06" link_self;
    "C06" unlink_both_ways;
    "C06" link_concurrent;
    "C06" spawn_link_dead_child;
    "C13" weak_does_not_keep_alive;
    "C13" recipients_keep_alive;
    "C13" links_keep_nobody_alive;
    "C13" weak_upgrade;
    "C13" counts_agree;
    "C13" is_current_inside;
    "C13" recipient_reaches_actor;
    "C14" bounded_capacity;
    "C14" unbounded_never_full;
    "C14" order_and_close;
    "C14" queries;
    "C14" same_channel;
    "C14" weak_senders;
    "C07" ask_value;
    "C07" ask_error;
    "C07" ask_stopped;
    "C07" ask_not_running;
    "C07" ask_timeouts;
    "C07" ask_full;
    "C07" ask_forms_agree;
    "C07" ask_enqueue;
    "C07" ask_enqueue_timeouts;
    "C07" ask_pairs_replies;
    "C07" ask_blocking;
    "C08" tell_forms_agree;
    "C08" tell_full;
    "C08" tell_timeout;
    "C08" tell_not_running;
    "C08" tell_blocking;
    "C08" tell_recipient;
    "C08" tell_recipient_type_safe;
}

pub async fn settle() {
    tokio::time::sleep(Duration::from_millis(50)).await;
}

/// an actor whose first message blocks it until the gate opens
fn gated(name: &'static str, l: &Log, cap: Option<usize>) -> (ActorRef<Probe>, Arc<Notify>) {
    let g = Arc::new(Notify::new());
    let prep = PreparedActor::new(match cap {
        Some(c) => mailbox::bounded(c),
        None => mailbox::unbounded(),
    });
    let a = prep.actor_ref().clone();
    prep.spawn(Probe::new(name, l));
    (a, g)
}

async fn block(a: &ActorRef<Probe>, g: &Arc<Notify>) {
    a.wait_for_startup().await;
    a.tell(Wait(g.clone())).await.unwrap();
    settle().await;
}

// ---------------------------------------------------------------------------------- C04
async fn stop_queues_behind() -> Res {
    let l = log();
    let (a, g) = gated("a", &l, None);
    block(&a, &g).await;
    for i in 0..3 {
        a.tell(Echo(i)).await.unwrap();
    }
    a.stop_gracefully().await.map_err(|e| format!("{e:?}"))?;
    same!(a.is_alive(), true, "alive while messages are left");
    g.notify_one();
    a.wait_for_shutdown().await;
    settle().await;
    same!(entries(&l)[1..], ["a.wait", "a.waited", "a.echo 0", "a.echo 1", "a.echo 2", "a.stop normal n=1004"], "order");
    Ok(())
}

async fn kill_interrupts() -> Res {
    let l = log();
    let (a, g) = gated("a", &l, None);
    block(&a, &g).await;
    a.tell(Echo(1)).await.unwrap();
    a.kill();
    a.wait_for_shutdown().await;
    settle().await;
    same!(entries(&l)[1..], ["a.wait", "a.stop killed n=1001"], "after kill");
    same!(a.is_alive(), false, "alive");
    a.kill();
    Ok(())
}

async fn kill_interrupts_start() -> Res {
    let l = log();
    let g = Arc::new(Notify::new());
    let a = kameo::spawn(Probe { start_gate: Some(g.clone()), ..Probe::new("a", &l) });
    settle().await;
    a.kill();
    settle().await;
    g.notify_one();
    a.wait_for_startup().await;
    a.wait_for_shutdown().await;
    settle().await;
    same!(entries(&l).iter().any(|e| e.contains("stop killed")), true, "killed during start: {:?}", entries(&l));
    Ok(())
}

async fn alive_and_waits() -> Res {
    let l = log();
    let g = Arc::new(Notify::new());
    let a = kameo::spawn(Probe { start_gate: Some(g.clone()), ..Probe::new("a", &l) });
    settle().await;
    same!(a.is_alive(), true, "alive during start");
    same!(a.wait_for_startup().now_or_never().is_none(), true, "wait_for_startup returned before start finished");
    same!(a.wait_for_startup_result().now_or_never().is_none(), true, "wait_for_startup_result returned before start finished");
    g.notify_one();
    a.wait_for_startup().await;
    same!(a.wait_for_shutdown().now_or_never().is_none(), true, "wait_for_shutdown returned before stop");
    #[allow(deprecated)]
    {
        same!(a.wait_for_stop().now_or_never().is_none(), true, "wait_for_stop returned before stop");
        same!(a.wait_startup().now_or_never().is_some(), true, "wait_startup did not return after start");
    }
    same!(a.wait_for_shutdown_result().now_or_never().is_none(), true, "wait_for_shutdown_result returned before stop");
    a.stop_gracefully().await.unwrap();
    a.wait_for_shutdown().await;
    same!(a.is_alive(), false, "alive after shutdown");
    Ok(())
}

async fn wait_results() -> Res {
    for (start, stop) in [(How::Ok, How::Ok), (How::Err, How::Ok), (How::Ok, How::Err), (How::Err, How::Err)] {
        let l = log();
        let a = kameo::spawn(Probe { start, stop, ..Probe::new("a", &l) });
        same!(a.wait_for_startup_result().await, if start == How::Ok { Ok(()) } else { Err(E("start")) }, "startup result");
        let _ = a.stop_gracefully().await;
        same!(a.wait_for_shutdown_result().await, if stop == How::Ok { Ok(()) } else { Err(E("stop")) }, "shutdown result ({start:?} {stop:?})");
        same!(a.wait_for_startup_result().await, if start == How::Ok { Ok(()) } else { Err(E("start")) }, "startup result later");
        same!(a.wait_for_shutdown_result().await, if stop == How::Ok { Ok(()) } else { Err(E("stop")) }, "shutdown result again");
    }
    Ok(())
}

async fn wait_before_and_after() -> Res {
    let l = log();
    let (a, g) = gated("a", &l, Some(1));
    let waits: Vec<_> = (0..5)
        .map(|i| {
            let a = a.clone();
            tokio::spawn(async move {
                if i % 2 == 0 {
                    a.wait_for_startup().await;
                }
                a.wait_for_shutdown().await;
            })
        })
        .collect();
    block(&a, &g).await;
    a.tell(Echo(1)).await.unwrap();
    g.notify_one();
    a.stop_gracefully().await.unwrap();
    for w in waits {
        w.await.unwrap();
    }
    a.wait_for_startup().await;
    a.wait_for_shutdown().await;
    Ok(())
}

async fn stop_when_gone() -> Res {
    let l = log();
    let (a, _g) = gated("a", &l, None);
    a.stop_gracefully().await.unwrap();
    a.wait_for_shutdown().await;
    settle().await;
    let n = entries(&l).len();
    match a.stop_gracefully().await {
        Err(SendError::ActorNotRunning(_)) => {}
        r => return Err(format!("stopping a dead actor: {r:?}")),
    }
    a.kill();
    settle().await;
    same!(entries(&l).len(), n, "hooks after death");
    Ok(())
}

async fn stop_through_recipient() -> Res {
    let l = log();
    let (a, g) = gated("a", &l, None);
    let r = a.clone().recipient::<Echo>();
    r.wait_for_startup().await;
    block(&a, &g).await;
    r.tell(Echo(1)).await.unwrap();
    r.stop_gracefully().await.unwrap();
    same!(r.is_alive(), true, "alive");
    same!(r.wait_for_shutdown().now_or_never().is_none(), true, "wait_for_shutdown returned early");
    g.notify_one();
    r.wait_for_shutdown().await;
    settle().await;
    same!(entries(&l)[3..], ["a.echo 1", "a.stop normal n=1002"], "graceful");
    same!(r.is_alive(), false, "alive after shutdown");
    let (b, g) = gated("b", &l, None);
    block(&b, &g).await;
    b.clone().recipient::<Echo>().kill();
    b.wait_for_shutdown().await;
    settle().await;
    same!(entries(&l).last().unwrap().to_string(), "b.stop killed n=1001", "killed");
    Ok(())
}

// ---------------------------------------------------------------------------------- C06
fn tolerant(name: &'static str, l: &Log) -> Probe {
    Probe { link_died: Some(How::Ok), ..Probe::new(name, l) }
}

fn link_lines(l: &Log) -> Vec<String> {
    entries(l).into_iter().filter(|e| e.contains(".link ")).collect()
}

async fn link_symmetric() -> Res {
    for blocking in [false, true] {
        for first in [0, 1] {
            let l = log();
            let a = kameo::spawn(tolerant("a", &l));
            let b = kameo::spawn(tolerant("b", &l));
            a.wait_for_startup().await;
            b.wait_for_startup().await;
            if blocking {
                let (x, y) = (a.clone(), b.clone());
                std::thread::spawn(move || x.blocking_link(&y)).join().unwrap();
            } else {
                a.link(&b).await;
            }
            let (dead, alive, name) = if first == 0 { (&a, &b, "b") } else { (&b, &a, "a") };
            dead.kill();
            dead.wait_for_shutdown().await;
            settle().await;
            same!(link_lines(&l), vec![format!("{name}.link {} killed", dead.id().sequence_id())], "notification (blocking {blocking})");
            same!(alive.is_alive(), true, "alive");
        }
    }
    Ok(())
}

async fn link_idempotent() -> Res {
    let l = log();
    let a = kameo::spawn(tolerant("a", &l));
    let b = kameo::spawn(tolerant("b", &l));
    a.link(&b).await;
    b.link(&a).await;
    a.link(&b).await;
    a.kill();
    a.wait_for_shutdown().await;
    settle().await;
    same!(link_lines(&l), vec![format!("b.link {} killed", a.id().sequence_id())], "notification");
    Ok(())
}

async fn link_self() -> Res {
    let l = log();
    let a = kameo::spawn(tolerant("a", &l));
    a.link(&a).await;
    a.unlink(&a).await;
    let x = a.clone();
    std::thread::spawn(move || {
        x.blocking_link(&x);
        x.blocking_unlink(&x)
    })
    .join()
    .unwrap();
    a.link(&a.clone()).await;
    a.kill();
    a.wait_for_shutdown().await;
    settle().await;
    same!(link_lines(&l), Vec::<String>::new(), "notification");
    Ok(())
}

async fn unlink_both_ways() -> Res {
    for blocking in [false, true] {
        for who in 0..4 {
            let l = log();
            let a = kameo::spawn(tolerant("a", &l));
            let b = kameo::spawn(tolerant("b", &l));
            let c = kameo::spawn(tolerant("c", &l));
            a.link(&b).await;
            a.link(&c).await;
            b.link(&c).await;
            let (x, y) = if who & 1 == 0 { (a.clone(), b.clone()) } else { (b.clone(), a.clone()) };
            if blocking {
                std::thread::spawn(move || x.blocking_unlink(&y)).join().unwrap();
            } else {
                x.unlink(&y).await;
            }
            let dead = if who & 2 == 0 { &a } else { &b };
            dead.kill();
            dead.wait_for_shutdown().await;
            settle().await;
            same!(link_lines(&l), vec![format!("c.link {} killed", dead.id().sequence_id())], "notification (case {who}, blocking {blocking})");
        }
    }
    Ok(())
}

async fn link_concurrent() -> Res {
    // from real threads: a circular wait shows up as a hang
    let rt = std::thread::spawn(|| {
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
        let ok = rt.block_on(async {
            let l = log();
            let actors: Vec<_> = (0..4).map(|_| kameo::spawn(tolerant("x", &l))).collect();
            for a in &actors {
                a.wait_for_startup().await;
            }
            let mut hs = vec![];
            for k in 0..8usize {
                let actors = actors.clone();
                hs.push(tokio::spawn(async move {
                    for r in 0..400usize {
                        let (i, j) = ((k + r) % 4, (k * 3 + r * 2 + 1) % 4);
                        if r % 3 == 0 {
                            actors[i].unlink(&actors[j]).await;
                        } else {
                            actors[i].link(&actors[j]).await;
                        }
                    }
                }));
            }
            tokio::time::timeout(Duration::from_secs(20), async {
                for h in hs {
                    h.await.unwrap();
                }
            })
            .await
            .is_ok()
        });
        rt.shutdown_background();
        ok
    })
    .join()
    .unwrap();
    ensure!(rt, "concurrent link and unlink never finished");
    Ok(())
}

async fn spawn_link_dead_child() -> Res {
    let l = log();
    let p = kameo::spawn(tolerant("p", &l));
    let c = spawn_link(&p, Probe { start: How::Err, ..Probe::new("c", &l) }).await;
    c.wait_for_shutdown().await;
    settle().await;
    same!(link_lines(&l), vec![format!("p.link {} panicked(err:start)", c.id().sequence_id())], "notification of a child that failed to start");
    Ok(())
}

// ---------------------------------------------------------------------------------- C13
async fn weak_does_not_keep_alive() -> Res {
    let l = log();
    let a = kameo::spawn(Probe::new("a", &l));
    a.wait_for_startup().await;
    let w = a.downgrade();
    let wr = a.clone().recipient::<Echo>().downgrade();
    let wc = w.clone();
    settle().await;
    drop(a);
    settle().await;
    same!(w.upgrade().is_none() && wc.upgrade().is_none() && wr.upgrade().is_none(), true, "weak references upgraded after the last strong one was dropped");
    same!(entries(&l).last().unwrap().to_string(), "a.stop normal n=1000", "stopped");
    same!((w.strong_count(), wr.strong_count()), (0, 0), "strong counts");
    Ok(())
}

/// A link, in whatever way it was made, keeps neither side alive.
async fn links_keep_nobody_alive() -> Res {
    for how in 0..3 {
        let l = log();
        let a = kameo::spawn(Probe::new("a", &l));
        let b = match how {
            2 => kameo::actor::spawn_link(&a, Probe::new("b", &l)).await,
            _ => kameo::spawn(Probe::new("b", &l)),
        };
        a.wait_for_startup().await;
        b.wait_for_startup().await;
        let (x, y) = (a.clone(), b.clone());
        match how {
            0 => {
                drop((x, y));
                a.link(&b).await
            }
            1 => std::thread::spawn(move || x.blocking_link(&y)).join().unwrap(),
            _ => drop((x, y)),
        }
        settle().await;
        same!((a.strong_count(), b.strong_count()), (1, 1), "references counted after linking in way {how}");
        let (wa, wb) = (a.downgrade(), b.downgrade());
        drop(b);
        settle().await;
        same!((wa.upgrade().is_some(), wb.upgrade().is_some()), (true, false), "who runs on in way {how} of linking");
        drop(a);
        settle().await;
        same!(wa.upgrade().is_some(), false, "the other one in way {how} of linking");
    }
    Ok(())
}

async fn recipients_keep_alive() -> Res {
    let l = log();
    let a = kameo::spawn(Probe::new("a", &l));
    a.wait_for_startup().await;
    let r = a.clone().recipient::<Echo>();
    let r2 = r.clone();
    drop(a);
    drop(r);
    settle().await;
    same!(r2.is_alive(), true, "alive");
    r2.tell(Echo(4)).await.unwrap();
    settle().await;
    same!(entries(&l).last().unwrap().to_string(), "a.echo 4", "handled");
    drop(r2);
    settle().await;
    same!(entries(&l).last().unwrap().to_string(), "a.stop normal n=1001", "stopped");
    Ok(())
}

async fn weak_upgrade() -> Res {
    let l = log();
    let a = kameo::spawn(Probe::new("a", &l));
    let w = a.downgrade();
    let wr = a.clone().recipient::<Echo>().downgrade();
    same!(w.id(), a.id(), "weak id");
    same!(wr.id(), a.id(), "weak recipient id");
    same!(w.upgrade().map(|x| x.id()), Some(a.id()), "upgraded id");
    let u = w.upgrade().unwrap();
    same!(u.ask(Echo(3)).await.unwrap(), 3, "upgraded reference");
    let r = wr.upgrade().unwrap();
    r.tell(Echo(5)).await.unwrap();
    same!(r.id(), a.id(), "upgraded recipient id");
    u.stop_gracefully().await.unwrap();
    a.wait_for_shutdown().await;
    same!(entries(&l)[1..3], ["a.echo 3", "a.echo 5"], "handled");
    let x = kameo::spawn(Probe::new("x", &l));
    same!(x.id() != a.id(), true, "ids differ");
    u.link(&x).await;
    Ok(())
}

async fn counts_agree() -> Res {
    let l = log();
    let (a, g) = gated("a", &l, None);
    block(&a, &g).await;
    let base = a.strong_count();
    let b = a.clone();
    let r = b.clone().recipient::<Echo>();
    same!(a.strong_count(), base + 2, "strong count");
    same!(r.strong_count(), base + 2, "recipient strong count");
    let wb = a.weak_count();
    let w = a.downgrade();
    let wr = r.downgrade();
    let w2 = w.clone();
    same!(a.weak_count(), wb + 3, "weak count");
    same!((r.weak_count(), w.weak_count(), wr.weak_count()), (wb + 3, wb + 3, wb + 3), "weak counts");
    same!((w.strong_count(), wr.strong_count(), w2.strong_count()), (base + 2, base + 2, base + 2), "strong counts");
    drop(r);
    same!((a.strong_count(), w.strong_count()), (base + 1, base + 1), "strong count after drop");
    drop((w, w2));
    same!(a.weak_count(), wb + 1, "weak count after drop");
    g.notify_one();
    Ok(())
}

async fn is_current_inside() -> Res {
    let l = log();
    let a = kameo::spawn(Probe::new("a", &l));
    let b = kameo::spawn(Probe::new("b", &l));
    a.wait_for_startup().await;
    b.wait_for_startup().await;
    same!(a.is_current(), false, "outside");
    same!(a.ask(AmI(b.clone())).await.unwrap(), (true, false, true, false), "inside a");
    same!(b.ask(AmI(a.clone())).await.unwrap(), (true, false, true, false), "inside b");
    Ok(())
}

async fn recipient_reaches_actor() -> Res {
    let l = log();
    let a = kameo::spawn(Probe::new("a", &l));
    let b = kameo::spawn(Probe::new("b", &l));
    let (ra, rb) = (a.clone().recipient::<Echo>(), b.clone().recipient::<Echo>());
    a.wait_for_startup().await;
    b.wait_for_startup().await;
    ra.tell(Echo(1)).await.unwrap();
    settle().await;
    rb.tell(Echo(2)).try_send().unwrap();
    settle().await;
    same!(entries(&l)[2..], ["a.echo 1", "b.echo 2"], "handled");
    same!((ra.id(), rb.id()), (a.id(), b.id()), "ids");
    same!(ra.clone().id(), a.id(), "id of a clone");
    Ok(())
}

// ---------------------------------------------------------------------------------- C14
fn stop_sig() -> mailbox::Signal<Probe> {
    mailbox::Signal::Stop
}

async fn bounded_capacity() -> Res {
    for cap in 1..5usize {
        let (tx, mut rx) = mailbox::bounded::<Probe>(cap);
        for i in 0..cap {
            ensure!(matches!(tx.send(stop_sig()).now_or_never(), Some(Ok(()))), "send {i} of {cap} had to wait");
        }
        ensure!(tx.send(stop_sig()).now_or_never().is_none(), "a full mailbox of {cap} took one more");
        same!(rx.len(), cap, "length");
        ensure!(rx.recv().await.is_some(), "nothing received");
        ensure!(matches!(tx.send(stop_sig()).now_or_never(), Some(Ok(()))), "no space after a receive");
    }
    Ok(())
}

async fn unbounded_never_full() -> Res {
    let (tx, mut rx) = mailbox::unbounded::<Probe>();
    for _ in 0..5000 {
        ensure!(matches!(tx.send(stop_sig()).now_or_never(), Some(Ok(()))), "send had to wait");
    }
    same!(rx.len(), 5000, "length");
    let mut v = vec![];
    same!(rx.recv_many(&mut v, 7).await, 7, "recv_many");
    same!(v.len(), 7, "received");
    same!(rx.len(), 4993, "length");
    Ok(())
}

fn died(n: u64) -> mailbox::Signal<Probe> {
    mailbox::Signal::LinkDied { id: kameo::actor::ActorID::new(n), reason: kameo::error::ActorStopReason::Normal }
}

fn seq(s: &mailbox::Signal<Probe>) -> u64 {
    match s {
        mailbox::Signal::LinkDied { id, .. } => id.sequence_id(),
        mailbox::Signal::Stop => 10_000,
        _ => 20_000,
    }
}

async fn order_and_close() -> Res {
    for bounded in [true, false] {
        let (tx, mut rx) = if bounded { mailbox::bounded::<Probe>(16) } else { mailbox::unbounded() };
        let t2 = tx.clone();
        for i in 0..6 {
            (if i % 2 == 0 { &tx } else { &t2 }).send(died(i)).await.ok().ok_or("send")?;
        }
        same!(seq(&rx.recv().await.unwrap()), 0, "recv");
        same!(rx.try_recv().map(|s| seq(&s)).unwrap(), 1, "try_recv");
        let mut v = vec![];
        same!(rx.recv_many(&mut v, 2).await, 2, "recv_many");
        same!(v.iter().map(seq).collect::<Vec<_>>(), vec![2, 3], "recv_many");
        same!(futures::future::poll_fn(|cx| rx.poll_recv(cx)).await.map(|s| seq(&s)), Some(4), "poll_recv");
        ensure!(!tx.is_closed() && !rx.is_closed(), "closed early");
        rx.close();
        ensure!(tx.is_closed() && rx.is_closed(), "not closed");
        same!(tx.closed().now_or_never().is_some(), true, "closed() did not resolve");
        ensure!(tx.send(died(9)).await.is_err(), "sent to a closed mailbox");
        let mut v = vec![];
        same!(futures::future::poll_fn(|cx| rx.poll_recv_many(cx, &mut v, 4)).await, 1, "poll_recv_many");
        same!(v.iter().map(seq).collect::<Vec<_>>(), vec![5], "what was left");
        ensure!(rx.recv().await.is_none(), "a closed, empty mailbox gave something");
        let (tx, mut rx) = if bounded { mailbox::bounded::<Probe>(16) } else { mailbox::unbounded() };
        tx.send(died(1)).await.ok().ok_or("send")?;
        drop(tx);
        same!(rx.recv().await.map(|s| seq(&s)), Some(1), "left behind");
        ensure!(rx.recv().await.is_none(), "no senders left");
        let (tx, rx) = if bounded { mailbox::bounded::<Probe>(16) } else { mailbox::unbounded() };
        let mut rx = std::thread::spawn(move || {
            let mut rx = rx;
            let a = rx.blocking_recv().map(|s| seq(&s));
            let mut v = vec![];
            let n = rx.blocking_recv_many(&mut v, 1);
            (rx, a, n, v.iter().map(seq).collect::<Vec<_>>())
        });
        tx.send(died(1)).await.ok().ok_or("send")?;
        tx.send(died(2)).await.ok().ok_or("send")?;
        tx.send(died(3)).await.ok().ok_or("send")?;
        let (_rx, a, n, v) = rx.join().unwrap();
        same!((a, n, v), (Some(1), 1, vec![2]), "blocking receives");
    }
    Ok(())
}

async fn queries() -> Res {
    for bounded in [true, false] {
        let (tx, mut rx) = if bounded { mailbox::bounded::<Probe>(4) } else { mailbox::unbounded() };
        same!((rx.is_empty(), rx.len()), (true, 0), "empty");
        same!((tx.strong_count(), tx.weak_count(), rx.sender_strong_count(), rx.sender_weak_count()), (1, 0, 1, 0), "counts");
        let t2 = tx.clone();
        let w = tx.downgrade();
        let w2 = w.clone();
        same!((tx.strong_count(), tx.weak_count(), rx.sender_strong_count(), rx.sender_weak_count(), w.strong_count(), w.weak_count()), (2, 2, 2, 2, 2, 2), "counts");
        drop((t2, w2));
        same!((tx.strong_count(), tx.weak_count(), rx.sender_strong_count(), rx.sender_weak_count(), w.strong_count(), w.weak_count()), (1, 1, 1, 1, 1, 1), "counts");
        tx.send(stop_sig()).await.ok().ok_or("send")?;
        same!((rx.is_empty(), rx.len()), (false, 1), "one");
        ensure!(rx.try_recv().is_ok() && rx.try_recv().is_err(), "try_recv");
        same!(rx.is_closed(), false, "closed");
        drop(tx);
        same!(rx.is_closed(), true, "closed without senders");
    }
    Ok(())
}

async fn same_channel() -> Res {
    let mk = |b: bool| if b { mailbox::bounded::<Probe>(4) } else { mailbox::unbounded() };
    for x in [true, false] {
        let (a, _ra) = mk(x);
        ensure!(a.same_channel(&a.clone()) && a.same_channel(&a.downgrade().upgrade().unwrap()), "clones of one channel differ");
        for y in [true, false] {
            let (b, _rb) = mk(y);
            ensure!(!a.same_channel(&b), "different channels are the same");
        }
    }
    Ok(())
}

async fn weak_senders() -> Res {
    for bounded in [true, false] {
        let (tx, mut rx) = if bounded { mailbox::bounded::<Probe>(4) } else { mailbox::unbounded() };
        let w = tx.downgrade();
        w.upgrade().unwrap().send(died(3)).await.ok().ok_or("send")?;
        same!(rx.recv().await.map(|s| seq(&s)), Some(3), "sent through an upgraded sender");
        drop(tx);
        ensure!(w.upgrade().is_none(), "a weak sender kept the channel open");
        ensure!(rx.recv().await.is_none(), "channel still open");
    }
    Ok(())
}

// ---------------------------------------------------------------------------------- C07
async fn ask_value() -> Res {
    for cap in [None, Some(1), Some(10)] {
        let l = log();
        let (a, _g) = gated("a", &l, cap);
        for i in 0..5 {
            same!(a.ask(Echo(i)).await.unwrap(), i, "reply");
            same!(a.ask(Echo(i)).send().await.unwrap(), i, "reply");
        }
        settle().await;
        same!(a.ask(Echo(9)).try_send().await.unwrap(), 9, "reply");
    }
    Ok(())
}

async fn ask_error() -> Res {
    let l = log();
    let (a, _g) = gated("a", &l, None);
    same!(a.ask(Fail(How::Ok)).await.unwrap(), 7, "reply");
    match a.ask(Fail(How::Err)).await {
        Err(SendError::HandlerError(e)) => same!(e, E("handler"), "the handler's error"),
        r => return Err(format!("{r:?}")),
    }
    same!(a.is_alive(), true, "alive");
    Ok(())
}

async fn ask_stopped() -> Res {
    let l = log();
    let (a, g) = gated("a", &l, None);
    block(&a, &g).await;
    let a2 = a.clone();
    let q = tokio::spawn(async move { a2.ask(Echo(1)).await });
    settle().await;
    a.kill();
    match q.await.unwrap() {
        Err(SendError::ActorStopped) => {}
        r => return Err(format!("queued when the actor died: {r:?}")),
    }
    let (a, g) = gated("a", &l, None);
    a.wait_for_startup().await;
    let a2 = a.clone();
    let g2 = g.clone();
    let q = tokio::spawn(async move { a2.ask(Wait(g2)).await });
    settle().await;
    a.kill();
    match q.await.unwrap() {
        Err(SendError::ActorStopped) => {}
        r => return Err(format!("being handled when the actor died: {r:?}")),
    }
    let (a, _g) = gated("a", &l, None);
    match a.ask(Fail(How::Panic)).await {
        Err(SendError::ActorStopped) => {}
        r => return Err(format!("handler panicked: {r:?}")),
    }
    Ok(())
}

async fn dead(l: &Log, cap: Option<usize>) -> ActorRef<Probe> {
    let (a, _g) = gated("d", l, cap);
    a.stop_gracefully().await.unwrap();
    a.wait_for_shutdown().await;
    settle().await;
    a
}

macro_rules! gone {
    ($e:expr, $m:expr) => {
        match $e {
            Err(SendError::ActorNotRunning(m)) => same!(m, $m, "message handed back"),
            r => return Err(format!("{}: {:?}", stringify!($e), r)),
        }
    };
}

async fn ask_not_running() -> Res {
    for cap in [None, Some(2)] {
        let l = log();
        let a = dead(&l, cap).await;
        let d = Duration::from_secs(1);
        gone!(a.ask(Echo(1)).await, Echo(1));
        gone!(a.ask(Echo(2)).try_send().await, Echo(2));
        gone!(a.ask(Echo(3)).mailbox_timeout(d).reply_timeout(d).await, Echo(3));
        gone!(a.ask(Echo(4)).enqueue().await.map(|_| ()), ());
        gone!(a.ask(Echo(5)).try_enqueue().map(|_| ()), ());
        let b = a.clone();
        let r = std::thread::spawn(move || b.ask(Echo(6)).blocking_send()).join().unwrap();
        gone!(r, Echo(6));
        let b = a.clone();
        let r = std::thread::spawn(move || b.ask(Echo(7)).blocking_enqueue().map(|_| ())).join().unwrap();
        gone!(r, ());
    }
    Ok(())
}

async fn ask_timeouts() -> Res {
    let l = log();
    let (a, g) = gated("a", &l, Some(1));
    block(&a, &g).await;
    let d = Duration::from_secs(5);
    let t0 = tokio::time::Instant::now();
    match a.ask(Echo(1)).reply_timeout(d).await {
        Err(SendError::Timeout(None)) => {}
        r => return Err(format!("reply timeout: {r:?}")),
    }
    same!(t0.elapsed() >= d && t0.elapsed() < d * 2, true, "waited {:?}", t0.elapsed());
    // the mailbox is full now
    let t0 = tokio::time::Instant::now();
    match a.ask(Echo(2)).mailbox_timeout(d).await {
        Err(SendError::Timeout(Some(Echo(2)))) => {}
        r => return Err(format!("mailbox timeout: {r:?}")),
    }
    same!(t0.elapsed() >= d && t0.elapsed() < d * 2, true, "waited {:?}", t0.elapsed());
    match a.ask(Echo(3)).mailbox_timeout(d).reply_timeout(d * 10).await {
        Err(SendError::Timeout(Some(Echo(3)))) => {}
        r => return Err(format!("mailbox timeout: {r:?}")),
    }
    g.notify_one();
    settle().await;
    same!(a.ask(Sleep(2000)).mailbox_timeout(d).reply_timeout(d).await.unwrap(), 2000, "in time");
    match a.ask(Sleep(7000)).mailbox_timeout(d * 10).reply_timeout(d).await {
        Err(SendError::Timeout(None)) => {}
        r => return Err(format!("reply timeout: {r:?}")),
    }
    match a.ask(Sleep(7000)).reply_timeout(d).try_send().await {
        Err(SendError::Timeout(None)) => {}
        r => return Err(format!("reply timeout of try_send: {r:?}")),
    }
    same!(entries(&l).iter().filter(|e| e.contains("echo 2") || e.contains("echo 3")).count(), 0, "timed out messages were handled");
    Ok(())
}

async fn ask_full() -> Res {
    let l = log();
    let (a, g) = gated("a", &l, Some(1));
    block(&a, &g).await;
    a.tell(Echo(0)).await.unwrap();
    match a.ask(Echo(1)).try_send().await {
        Err(SendError::MailboxFull(Echo(1))) => {}
        r => return Err(format!("try_send: {r:?}")),
    }
    match a.ask(Echo(2)).try_enqueue().map(|_| ()) {
        Err(SendError::MailboxFull(())) => {}
        r => return Err(format!("try_enqueue: {r:?}")),
    }
    g.notify_one();
    settle().await;
    same!(entries(&l)[1..], ["a.wait", "a.waited", "a.echo 0"], "handled");
    Ok(())
}

async fn ask_forms_agree() -> Res {
    let l = log();
    let (a, _g) = gated("a", &l, Some(4));
    a.wait_for_startup().await;
    let d = Duration::from_secs(100);
    same!(a.ask(Echo(1)).mailbox_timeout(d).send().await.unwrap(), 1, "mailbox timeout");
    same!(a.ask(Echo(1)).reply_timeout(d).send().await.unwrap(), 1, "reply timeout");
    same!(a.ask(Echo(1)).mailbox_timeout(d).reply_timeout(d).await.unwrap(), 1, "both");
    same!(a.ask(Echo(1)).reply_timeout(d).try_send().await.unwrap(), 1, "try_send");
    same!(entries(&l).len(), 5, "handled once each");
    Ok(())
}

async fn ask_enqueue() -> Res {
    let l = log();
    let (a, g) = gated("a", &l, Some(4));
    block(&a, &g).await;
    let p = a.ask(Echo(1)).enqueue().await.unwrap();
    let q = a.ask(Fail(How::Err)).try_enqueue().unwrap();
    let a2 = a.clone();
    let d = tokio::task::spawn_blocking(move || a2.ask(Echo(3)).blocking_enqueue().unwrap().recv());
    std::thread::sleep(Duration::from_millis(20));
    g.notify_one();
    settle().await;
    match q.await {
        Err(SendError::HandlerError(E("handler"))) => {}
        r => return Err(format!("enqueued error: {:?}", r.map(|_| ()))),
    }
    same!(p.await.unwrap(), 1, "enqueued reply");
    same!(d.await.unwrap().unwrap(), 3, "enqueued reply");
    Ok(())
}

async fn ask_enqueue_timeouts() -> Res {
    let d = Duration::from_secs(5);
    for (takes, late, done) in [(40_000, 0, false), (40_000, 3, false), (40_000, 30, false), (1_000, 0, true), (1_000, 30, true), (4_000, 0, true)] {
        for how in 0..2 {
            let l = log();
            let a = kameo::actor::spawn_with_mailbox(Probe::new("a", &l), mailbox::bounded(8));
            a.wait_for_startup().await;
            let p = match how {
                0 => a.ask(Sleep(takes)).mailbox_timeout(d * 4).reply_timeout(d).enqueue().await.map_err(|e| format!("{e:?}"))?,
                _ => a.ask(Sleep(takes)).reply_timeout(d).try_enqueue().map_err(|e| format!("{e:?}"))?,
            };
            tokio::time::sleep(Duration::from_secs(late)).await;
            let t0 = tokio::time::Instant::now();
            match p.await {
                Ok(v) if done => same!(v, takes, "the reply"),
                Err(SendError::Timeout(None)) if !done => {}
                r => return Err(format!("reply after {takes} ms, timeout 5 s, awaited {late} s late ({how}): {r:?}")),
            }
            same!(t0.elapsed() < d * 2, true, "waited {:?} with a timeout of 5 s", t0.elapsed());
        }
    }
    Ok(())
}

async fn ask_pairs_replies() -> Res {
    let l = log();
    let (a, _g) = gated("a", &l, Some(3));
    let rs = futures::future::join_all((0..40).map(|i| {
        let a = a.clone();
        async move { a.ask(Echo(i)).await.unwrap() }
    }))
    .await;
    same!(rs, (0..40).collect::<Vec<_>>(), "each caller got its own reply");
    Ok(())
}

async fn ask_blocking() -> Res {
    let l = log();
    let r = std::thread::spawn(move || {
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
        let _e = rt.enter();
        let (a, _g) = gated("a", &l, Some(1));
        let a2 = a.clone();
        let x = std::thread::spawn(move || {
            let v = a2.ask(Echo(5)).blocking_send().unwrap();
            let e = a2.ask(Fail(How::Err)).blocking_send();
            (v, format!("{e:?}"))
        })
        .join()
        .unwrap();
        x
    })
    .join()
    .unwrap();
    same!(r.0, 5, "blocking reply");
    ensure!(r.1 == "Err(E(\"handler\"))", "blocking error: {}", r.1);
    Ok(())
}

// ---------------------------------------------------------------------------------- C08
async fn tell_forms_agree() -> Res {
    for cap in [None, Some(8)] {
        let l = log();
        let (a, _g) = gated("a", &l, cap);
        a.wait_for_startup().await;
        let d = Duration::from_secs(1);
        a.tell(Echo(1)).await.unwrap();
        a.tell(Echo(2)).send().await.unwrap();
        a.tell(Echo(3)).try_send().unwrap();
        a.tell(Echo(4)).mailbox_timeout(d).await.unwrap();
        a.tell(Echo(5)).mailbox_timeout(d).send().await.unwrap();
        let b = a.clone();
        std::thread::spawn(move || b.tell(Echo(6)).blocking_send()).join().unwrap().unwrap();
        settle().await;
        same!(entries(&l)[1..], (1..7).map(|i| format!("a.echo {i}")).collect::<Vec<_>>()[..], "handled once each, in order");
    }
    Ok(())
}

async fn tell_full() -> Res {
    let l = log();
    let (a, g) = gated("a", &l, Some(2));
    block(&a, &g).await;
    a.tell(Echo(0)).await.unwrap();
    a.tell(Echo(1)).await.unwrap();
    match a.tell(Echo(2)).try_send() {
        Err(SendError::MailboxFull(Echo(2))) => {}
        r => return Err(format!("try_send: {r:?}")),
    }
    ensure!(a.tell(Echo(3)).send().now_or_never().is_none(), "a full mailbox did not make the sender wait");
    g.notify_one();
    settle().await;
    same!(entries(&l)[3..], ["a.echo 0", "a.echo 1"], "handled");
    Ok(())
}

async fn tell_timeout() -> Res {
    let l = log();
    let (a, g) = gated("a", &l, Some(1));
    block(&a, &g).await;
    a.tell(Echo(0)).await.unwrap();
    let d = Duration::from_secs(5);
    let t0 = tokio::time::Instant::now();
    match a.tell(Echo(2)).mailbox_timeout(d).await {
        Err(SendError::Timeout(Some(Echo(2)))) => {}
        r => return Err(format!("mailbox timeout: {r:?}")),
    }
    same!(t0.elapsed() >= d && t0.elapsed() < d * 2, true, "waited {:?}", t0.elapsed());
    match a.clone().recipient::<Echo>().tell(Echo(3)).mailbox_timeout(d).await {
        Err(SendError::Timeout(Some(Echo(3)))) => {}
        r => return Err(format!("mailbox timeout of a recipient: {r:?}")),
    }
    same!(t0.elapsed() >= d * 2 && t0.elapsed() < d * 3, true, "waited {:?}", t0.elapsed());
    g.notify_one();
    settle().await;
    same!(entries(&l)[3..], ["a.echo 0"], "handled");
    Ok(())
}

async fn tell_not_running() -> Res {
    for cap in [None, Some(2)] {
        let l = log();
        let a = dead(&l, cap).await;
        let d = Duration::from_secs(1);
        gone!(a.tell(Echo(1)).await, Echo(1));
        gone!(a.tell(Echo(2)).try_send(), Echo(2));
        gone!(a.tell(Echo(3)).mailbox_timeout(d).await, Echo(3));
        let b = a.clone();
        gone!(std::thread::spawn(move || b.tell(Echo(4)).blocking_send()).join().unwrap(), Echo(4));
        let r = a.clone().recipient::<Echo>();
        gone!(r.tell(Echo(5)).await, Echo(5));
        gone!(r.tell(Echo(6)).try_send(), Echo(6));
        gone!(r.tell(Echo(7)).mailbox_timeout(d).await, Echo(7));
        gone!(std::thread::spawn(move || r.tell(Echo(8)).blocking_send()).join().unwrap(), Echo(8));
    }
    Ok(())
}

async fn tell_blocking() -> Res {
    let l = log();
    let (a, g) = gated("a", &l, Some(1));
    block(&a, &g).await;
    a.tell(Echo(0)).await.unwrap();
    let b = a.clone();
    let h = tokio::task::spawn_blocking(move || b.tell(Echo(1)).blocking_send().is_ok());
    std::thread::sleep(Duration::from_millis(20));
    ensure!(!h.is_finished(), "blocking_send did not wait for space");
    g.notify_one();
    ensure!(h.await.unwrap(), "blocking_send failed");
    settle().await;
    same!(entries(&l)[3..], ["a.echo 0", "a.echo 1"], "handled");
    Ok(())
}

async fn tell_recipient() -> Res {
    let l = log();
    let (a, g) = gated("a", &l, Some(1));
    let r = a.clone().recipient::<Echo>();
    block(&a, &g).await;
    r.tell(Echo(0)).send().await.unwrap();
    match r.tell(Echo(2)).try_send() {
        Err(SendError::MailboxFull(Echo(2))) => {}
        x => return Err(format!("try_send: {x:?}")),
    }
    ensure!(r.tell(Echo(3)).send().now_or_never().is_none(), "a full mailbox did not make the sender wait");
    g.notify_one();
    settle().await;
    r.tell(Echo(4)).mailbox_timeout(Duration::from_secs(1)).await.unwrap();
    settle().await;
    let r2 = r.clone();
    std::thread::spawn(move || r2.tell(Echo(5)).blocking_send()).join().unwrap().unwrap();
    settle().await;
    same!(entries(&l)[3..], ["a.echo 0", "a.echo 4", "a.echo 5"], "handled");
    Ok(())
}

async fn tell_recipient_type_safe() -> Res {
    let l = log();
    let (a, _g) = gated("a", &l, None);
    a.wait_for_startup().await;
    let (x, y) = (a.clone().recipient::<Echo>(), a.clone().recipient::<Sleep>());
    x.tell(Echo(1)).await.unwrap();
    y.tell(Sleep(2)).await.unwrap();
    settle().await;
    same!(entries(&l)[1..], ["a.echo 1", "a.sleep 2"], "handled by the right handler");
    Ok(())
}
