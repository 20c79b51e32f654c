//! Long histories and odd moments: many recovered panics, actors that were killed but still stop, half links, items taken by a stream.
use crate::{ensure, same, scenarios, util::*, Res};
use futures::{stream, FutureExt};
use kameo::{
    actor::{spawn_with_mailbox, ActorRef, WeakActorRef},
    error::{ActorStopReason, Infallible, PanicError, SendError},
    mailbox,
    message::{Context, Message, StreamMessage},
    registry::ActorRegistry,
    Actor,
};
use std::{
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc,
    },
    time::Duration,
};
use tokio::sync::Notify;

async fn settle() {
    tokio::time::sleep(Duration::from_millis(50)).await;
}

async fn recovers_again_and_again() -> Res {
    let l = log();
    let a = kameo::spawn(Probe { on_panic: Some(true), ..Probe::new("a", &l) });
    for i in 0..300u64 {
        a.tell(Fail(if i % 2 == 0 { How::Panic } else { How::Err })).await.map_err(|e| format!("after {i} recovered panics: {e}"))?;
        same!(a.ask(Echo(i)).await.map_err(|e| format!("after {} recovered panics: {e}", i + 1))?, i, "reply");
    }
    same!(entries(&l).iter().filter(|e| e.contains(".panic ")).count(), 300, "panics told to on_panic");
    ensure!(a.is_alive(), "an actor which goes on after each panic is dead");
    Ok(())
}

/// takes its time to stop
struct Slow(Arc<Notify>);
impl Actor for Slow {
    type Error = Infallible;
    async fn on_stop(&mut self, _: WeakActorRef<Self>, _: ActorStopReason) -> Result<(), Infallible> {
        self.0.notified().await;
        Ok(())
    }
}
impl Message<()> for Slow {
    type Reply = ();
    async fn handle(&mut self, _: (), _: &mut Context<Self, ()>) {}
}

async fn killed_but_stopping() -> Res {
    let g = Arc::new(Notify::new());
    let a = kameo::spawn(Slow(g.clone()));
    a.wait_for_startup().await;
    let (w, r) = (a.downgrade(), a.clone().recipient::<()>());
    let wr = r.downgrade();
    a.kill();
    for when in ["just killed", "in its on_stop"] {
        ensure!(a.is_alive(), "{when}: the mailbox is open, yet is_alive says no");
        ensure!(r.is_alive(), "{when}: the mailbox is open, yet the recipient's is_alive says no");
        ensure!(w.upgrade().is_some(), "{when}: there are strong references, yet upgrade gives nothing");
        ensure!(wr.upgrade().is_some(), "{when}: there are strong references, yet the recipient's upgrade gives nothing");
        ensure!(a.wait_for_shutdown().now_or_never().is_none(), "{when}: it is told to be shut down");
        settle().await;
    }
    g.notify_one();
    a.wait_for_shutdown().await;
    ensure!(!a.is_alive() && !r.is_alive(), "alive after it stopped");
    ensure!(w.upgrade().is_some() && wr.upgrade().is_some(), "upgrade gives nothing while there are strong references to the dead actor");
    drop((a, r));
    ensure!(w.upgrade().is_none() && wr.upgrade().is_none(), "upgrade gives something without strong references");
    Ok(())
}

async fn dead_under_its_name() -> Res {
    let l = log();
    let a = kameo::spawn(Probe::new("a", &l));
    let mut r = ActorRegistry::new();
    r.insert("dead", a.clone());
    a.kill();
    a.wait_for_shutdown().await;
    for _ in 0..2 {
        same!(r.get::<Probe, _>("dead").map(|o| o.map(|x| x.id())).map_err(|e| e.to_string())?, Some(a.id()), "the actor registered, which died");
        same!(r.len(), 1, "names");
    }
    let b = kameo::spawn(Probe::new("b", &l));
    same!(r.insert("dead", b.clone()), true, "replaces the dead one");
    same!(r.get::<Probe, _>("dead").map(|o| o.map(|x| x.id())).map_err(|e| e.to_string())?, Some(b.id()), "the one registered last");
    Ok(())
}

/// stops itself gracefully while its mailbox is full
struct Own(Log);
impl Actor for Own {
    type Error = Infallible;
    async fn on_stop(&mut self, _: WeakActorRef<Self>, r: ActorStopReason) -> Result<(), Infallible> {
        self.0.lock().unwrap().push(format!("stop {}", reason(&r)));
        Ok(())
    }
}
impl Message<u8> for Own {
    type Reply = ();
    async fn handle(&mut self, m: u8, ctx: &mut Context<Self, ()>) {
        self.0.lock().unwrap().push(format!("msg {m}"));
        if m == 0 {
            tokio::time::sleep(Duration::from_secs(1)).await;
            let me = ctx.actor_ref();
            let l = self.0.clone();
            tokio::spawn(async move {
                let r = me.stop_gracefully().await;
                l.lock().unwrap().push(format!("asked {}", r.is_ok()));
            });
            let _ = tokio::time::timeout(Duration::from_secs(1), ctx.actor_ref().stop_gracefully()).await;
        }
    }
}

async fn stops_itself_with_a_full_mailbox() -> Res {
    let l = log();
    let a = spawn_with_mailbox(Own(l.clone()), mailbox::bounded(2));
    a.wait_for_startup().await;
    for m in 0..3 {
        a.tell(m).await.map_err(|e| e.to_string())?;
    }
    a.wait_for_shutdown().await;
    let e: Vec<_> = entries(&l).into_iter().filter(|e| !e.starts_with("asked")).collect();
    same!(e, ["msg 0", "msg 1", "msg 2", "stop normal"], "what was sent before the stop comes first");
    Ok(())
}

async fn whole_link_again() -> Res {
    // the other side of a link is gone (told of a death that was none: through the mailbox), linking again makes it whole
    for blocking in [false, true] {
        let l = log();
        let mk = |n| kameo::spawn(Probe { link_died: Some(How::Ok), ..Probe::new(n, &l) });
        let (a, b) = (mk("a"), mk("b"));
        a.link(&b).await;
        let kameo::mailbox::MailboxSender::Bounded(tx) = b.mailbox_sender() else { return Err("not bounded".into()) };
        tx.send(mailbox::Signal::LinkDied { id: a.id(), reason: ActorStopReason::Normal }).await.map_err(|_| "send")?;
        b.ask(Echo(1)).await.map_err(|e| e.to_string())?;
        let (x, y) = (a.clone(), b.clone());
        match blocking {
            false => x.link(&y).await,
            true => tokio::task::spawn_blocking(move || x.blocking_link(&y)).await.unwrap(),
        }
        b.stop_gracefully().await.unwrap();
        b.wait_for_shutdown().await;
        a.ask(Echo(2)).await.map_err(|e| e.to_string())?;
        same!(entries(&l).iter().filter(|e| **e == format!("a.link {} normal", b.id().sequence_id())).count(), 1, "a is told of b's death (linked again, blocking: {blocking})");
    }
    Ok(())
}

async fn looked_at_from_within() -> Res {
    // another thread looks at the error at the same time: both see it
    let p = PanicError::new(Box::new(E("x")));
    let (q, g) = (p.clone(), Arc::new(std::sync::Barrier::new(2)));
    let g2 = g.clone();
    let t = std::thread::spawn(move || {
        q.with(|_| {
            g2.wait();
            std::thread::sleep(Duration::from_millis(200));
        })
    });
    g.wait();
    same!(p.downcast::<E>(), Some(E("x")), "downcast while somebody else looks at the error");
    t.join().unwrap();
    let p = PanicError::new(Box::new("text"));
    let (q, g) = (p.clone(), Arc::new(std::sync::Barrier::new(2)));
    let g2 = g.clone();
    let t = std::thread::spawn(move || {
        q.with(|_| {
            g2.wait();
            std::thread::sleep(Duration::from_millis(200));
        })
    });
    g.wait();
    same!(p.with_str(str::len), Some(4), "with_str while somebody else looks at the error");
    t.join().unwrap();
    Ok(())
}

/// takes the items of a stream, each when it is told to
struct Taker(Arc<Notify>);
impl Actor for Taker {
    type Error = Infallible;
}
impl Message<StreamMessage<usize, (), ()>> for Taker {
    type Reply = ();
    async fn handle(&mut self, m: StreamMessage<usize, (), ()>, _: &mut Context<Self, ()>) {
        if let StreamMessage::Next(_) = m {
            self.0.notified().await;
        }
    }
}

async fn items_are_taken_one_at_a_time() -> Res {
    let (g, n) = (Arc::new(Notify::new()), Arc::new(AtomicUsize::new(0)));
    let a: ActorRef<Taker> = spawn_with_mailbox(Taker(g.clone()), mailbox::bounded(2));
    a.wait_for_startup().await;
    let c = n.clone();
    let s = stream::iter((0..50).map(move |i| {
        c.fetch_add(1, Ordering::SeqCst);
        i
    }));
    let h = a.attach_stream(s, (), ());
    for i in 0..20 {
        settle().await;
        // one in the handler, two in the mailbox, one waits for its place
        same!(n.load(Ordering::SeqCst), i + 4, "items taken from the stream when {i} are handled");
        g.notify_one();
    }
    settle().await;
    let taken = n.load(Ordering::SeqCst);
    a.kill();
    a.wait_for_shutdown().await;
    match h.await.unwrap() {
        Err(SendError::ActorNotRunning(StreamMessage::Next(i))) => same!(i, taken - 1, "the item handed back is the last one taken"),
        Err(_) => return Err("another error".into()),
        Ok(_) => return Err("no error for the item that waited".into()),
    }
    Ok(())
}

scenarios! {
    "C02" recovers_again_and_again;
    "C03" recovers_again_and_again;
    "C04" killed_but_stopping;
    "C13" killed_but_stopping;
    "C12" dead_under_its_name;
    "C02" stops_itself_with_a_full_mailbox;
    "C04" stops_itself_with_a_full_mailbox;
    "C06" whole_link_again;
    "C05" whole_link_again;
    "C10" looked_at_from_within;
    "C19" items_are_taken_one_at_a_time;
}
