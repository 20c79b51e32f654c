//! Everything that takes its time gets it: nothing but a timeout that was asked for ends a wait. (Time is virtual.)
use crate::{ensure, same, scenarios, util::*, Res};
use futures::{stream, FutureExt};
use glob::Pattern;
use kameo::{
    actor::{spawn_with_mailbox, ActorRef, PreparedActor, WeakActorRef},
    error::{ActorStopReason, Infallible, PanicError, SendError},
    mailbox,
    message::{Context, Message, StreamMessage},
    reply::{DelegatedReply, ForwardedReply},
    Actor,
};
use kameo_actors::{broker, message_bus, pool, pubsub, DeliveryStrategy};
use std::{ops::ControlFlow, time::Duration};
use tokio::time::{sleep, Instant};

const HOUR: Duration = Duration::from_secs(3600);
const HOUR_MS: u64 = 3_600_000;

/// Every hook of this actor takes an hour.
struct Slow {
    log: Log,
}
impl Slow {
    async fn hour(&self, what: &str) {
        self.log.lock().unwrap().push(format!("{what}.."));
        sleep(HOUR).await;
        self.log.lock().unwrap().push(what.to_string());
    }
}
impl Actor for Slow {
    type Error = E;
    async fn on_start(&mut self, _: ActorRef<Self>) -> Result<(), E> {
        self.hour("start").await;
        Ok(())
    }
    async fn on_panic(&mut self, _: WeakActorRef<Self>, _: PanicError) -> Result<ControlFlow<ActorStopReason>, E> {
        self.hour("panic").await;
        Ok(ControlFlow::Continue(()))
    }
    async fn on_link_died(&mut self, _: WeakActorRef<Self>, _: kameo::actor::ActorID, _: ActorStopReason) -> Result<ControlFlow<ActorStopReason>, E> {
        self.hour("link").await;
        Ok(ControlFlow::Continue(()))
    }
    async fn on_stop(&mut self, _: WeakActorRef<Self>, _: ActorStopReason) -> Result<(), E> {
        self.hour("stop").await;
        Err(E("late"))
    }
}
impl Message<u32> for Slow {
    type Reply = Result<u32, E>;
    async fn handle(&mut self, m: u32, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
        self.hour(&m.to_string()).await;
        match m {
            13 => Err(E("unlucky")),
            14 => panic!("late"),
            m => Ok(m),
        }
    }
}

async fn slow_hooks() -> Res {
    let l = log();
    let a = spawn_with_mailbox(Slow { log: l.clone() }, mailbox::unbounded());
    let other = kameo::spawn(Probe::new("o", &log()));
    a.link(&other).await;
    let (a2, a3) = (a.clone(), a.clone());
    let started = tokio::spawn(async move { (a2.wait_for_startup_result().await.is_ok(), Instant::now()) });
    let ended = tokio::spawn(async move { (a3.wait_for_shutdown_result().await.is_err(), Instant::now()) });
    let t0 = Instant::now();
    for m in [1, 13, 14, 2] {
        a.tell(m).await.unwrap();
    }
    sleep(Duration::from_secs(60)).await;
    other.kill();
    sleep(Duration::from_secs(60)).await;
    a.stop_gracefully().await.unwrap();
    let s = started.await.unwrap();
    same!(s.0, true, "the startup result of a slow actor");
    same!(s.1 - t0 >= HOUR, true, "wait_for_startup_result returned {:?} after the start", s.1 - t0);
    let e = ended.await.unwrap();
    same!(e.0, true, "the shutdown result of a slow actor is an error");
    same!(e.1 - t0 >= HOUR * 9, true, "wait_for_shutdown_result returned {:?} after the start", e.1 - t0);
    let want: Vec<String> = ["start", "1", "13", "panic", "14", "panic", "2"].iter().flat_map(|s| [format!("{s}.."), s.to_string()]).collect();
    let got = entries(&l);
    // the link-died signal was sent while the actor was starting, so it comes before the buffered messages
    let rest: Vec<String> = got.iter().filter(|s| !s.starts_with("link") && !s.starts_with("stop")).cloned().collect();
    same!(rest, want, "hooks and messages, in order ({got:?})");
    same!(got.iter().filter(|s| *s == "link").count(), 1, "on_link_died ran through ({got:?})");
    same!(got[got.len() - 2..], ["stop..", "stop"], "on_stop at the end");
    Ok(())
}

async fn slow_handler_is_waited_for() -> Res {
    for cap in [Some(1), None] {
        let l = log();
        let a = spawn_with_mailbox(Probe::new("a", &l), match cap { Some(c) => mailbox::bounded(c), None => mailbox::unbounded() });
        a.wait_for_startup().await;
        same!(a.ask(Sleep(HOUR_MS)).send().await.map_err(|e| e.to_string()), Ok(HOUR_MS), "ask send (mailbox {cap:?})");
        same!(a.ask(Sleep(HOUR_MS)).try_send().await.map_err(|e| e.to_string()), Ok(HOUR_MS), "ask try_send (mailbox {cap:?})");
        same!(a.ask(Sleep(HOUR_MS)).enqueue().await.unwrap().await.map_err(|e| e.to_string()), Ok(HOUR_MS), "ask enqueue (mailbox {cap:?})");
        same!(a.ask(Sleep(HOUR_MS)).try_enqueue().unwrap().await.map_err(|e| e.to_string()), Ok(HOUR_MS), "ask try_enqueue (mailbox {cap:?})");
        // asked while the actor stops: the message is in front of the stop, so it is answered
        let p = a.ask(Sleep(HOUR_MS)).enqueue().await.unwrap();
        sleep(Duration::from_secs(1)).await;
        a.stop_gracefully().await.unwrap();
        same!(p.await.map_err(|e| e.to_string()), Ok(HOUR_MS), "asked before the stop (mailbox {cap:?})");
        a.wait_for_shutdown().await;
    }
    Ok(())
}

async fn full(l: &Log) -> ActorRef<Probe> {
    let a = spawn_with_mailbox(Probe::new("a", l), mailbox::bounded(1));
    a.wait_for_startup().await;
    a.tell(Sleep(HOUR_MS)).await.unwrap();
    sleep(Duration::from_secs(1)).await;
    a.tell(Sleep(HOUR_MS)).await.unwrap();
    a
}

async fn space_is_waited_for() -> Res {
    let l = log();
    let a = full(&l).await;
    same!(a.ask(Echo(1)).send().await.map_err(|e| e.to_string()), Ok(1), "ask");
    let a = full(&l).await;
    same!(a.ask(Echo(2)).enqueue().await.unwrap().await.map_err(|e| e.to_string()), Ok(2), "enqueue");
    let a = full(&l).await;
    same!(a.ask(Echo(3)).mailbox_timeout(HOUR * 2).await.map_err(|e| e.to_string()), Ok(3), "ask with a long timeout");
    Ok(())
}

async fn space_is_waited_for_by_tells() -> Res {
    let l = log();
    for how in 0..5 {
        let a = full(&l).await;
        match how {
            0 => a.tell(Echo(how)).send().await.unwrap(),
            1 => a.tell(Echo(how)).mailbox_timeout(HOUR * 2).send().await.unwrap(),
            2 => a.clone().recipient::<Echo>().tell(Echo(how)).await.unwrap(),
            3 => a.clone().recipient::<Echo>().tell(Echo(how)).mailbox_timeout(HOUR * 2).await.unwrap(),
            _ => a.stop_gracefully().await.unwrap(),
        }
        a.stop_gracefully().await.unwrap_or(());
        a.wait_for_shutdown().await;
        if how < 4 {
            same!(entries(&l).iter().filter(|s| **s == format!("a.echo {how}")).count(), 1, "told in form {how}");
        }
    }
    Ok(())
}

async fn timeouts_are_not_shortened() -> Res {
    let l = log();
    for how in 0..4 {
        let a = full(&l).await;
        let t0 = Instant::now();
        let d = Duration::from_secs(1800);
        match how {
            0 => ensure!(matches!(a.tell(Echo(9)).mailbox_timeout(d).await, Err(SendError::Timeout(Some(Echo(9))))), "tell"),
            1 => ensure!(matches!(a.ask(Echo(9)).mailbox_timeout(d).await, Err(SendError::Timeout(Some(Echo(9))))), "ask"),
            2 => ensure!(matches!(a.clone().recipient::<Echo>().tell(Echo(9)).mailbox_timeout(d).await, Err(SendError::Timeout(Some(Echo(9))))), "recipient"),
            _ => {
                let b = spawn_with_mailbox(Probe::new("b", &l), mailbox::bounded(1));
                ensure!(matches!(b.ask(Sleep(HOUR_MS)).reply_timeout(d).await, Err(SendError::Timeout(None))), "reply");
            }
        }
        same!(t0.elapsed() >= d && t0.elapsed() < d + Duration::from_secs(10), true, "form {how} waited {:?} instead of {d:?}", t0.elapsed());
    }
    Ok(())
}

/// forwards or delegates
struct Mid {
    to: ActorRef<Probe>,
}
impl Actor for Mid {
    type Error = Infallible;
}
struct Fwd(u64);
impl Message<Fwd> for Mid {
    type Reply = ForwardedReply<Sleep, u64>;
    async fn handle(&mut self, m: Fwd, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        ctx.forward(&self.to, Sleep(m.0)).await
    }
}
struct Del(u64);
impl Message<Del> for Mid {
    type Reply = DelegatedReply<u64>;
    async fn handle(&mut self, m: Del, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        let (d, tx) = ctx.reply_sender();
        if let Some(tx) = tx {
            tokio::spawn(async move {
                sleep(Duration::from_millis(m.0)).await;
                tx.send(m.0);
            });
        }
        d
    }
}

async fn late_replies_arrive() -> Res {
    let l = log();
    let m = kameo::spawn(Mid { to: kameo::spawn(Probe::new("a", &l)) });
    same!(m.ask(Fwd(HOUR_MS)).await.map_err(|e| format!("{e}")), Ok(HOUR_MS), "forwarded");
    same!(m.ask(Del(HOUR_MS)).await.map_err(|e| format!("{e}")), Ok(HOUR_MS), "delegated");
    let m = kameo::spawn(Mid { to: full(&l).await });
    same!(m.ask(Fwd(5)).await.map_err(|e| format!("{e}")), Ok(5), "forwarded to a full mailbox");
    // the one asked is gone before the delegated reply comes
    let (m, r) = { let m2 = m.clone(); (m, tokio::spawn(async move { m2.ask(Del(HOUR_MS)).await.map_err(|e| format!("{e}")) })) };
    sleep(Duration::from_secs(60)).await;
    m.stop_gracefully().await.unwrap();
    m.wait_for_shutdown().await;
    same!(r.await.unwrap(), Ok(HOUR_MS), "delegated, from an actor gone since");
    Ok(())
}

async fn a_busy_link_is_told_late() -> Res {
    let l = log();
    let a = full(&l).await;
    let mut p = Probe::new("b", &l);
    p.link_died = Some(How::Ok);
    let b = spawn_with_mailbox(p, mailbox::bounded(1));
    b.wait_for_startup().await;
    b.tell(Sleep(HOUR_MS)).await.unwrap();
    sleep(Duration::from_secs(1)).await;
    b.tell(Sleep(HOUR_MS)).await.unwrap();
    a.link(&b).await;
    a.kill();
    sleep(HOUR * 3).await;
    same!(entries(&l).iter().filter(|s| **s == format!("b.link {} killed", a.id().sequence_id())).count(), 1, "told of the death after an hour ({:?})", entries(&l));
    // an actor which waits for its links is not done before they know
    same!(a.is_alive(), false, "dead");
    Ok(())
}

#[derive(Actor)]
struct T {
    log: Log,
    busy: Duration,
}
#[derive(Clone, Debug, PartialEq)]
struct Note(u64);
impl Message<Note> for T {
    type Reply = u64;
    async fn handle(&mut self, m: Note, _: &mut Context<Self, u64>) -> u64 {
        sleep(self.busy).await;
        self.log.lock().unwrap().push(m.0.to_string());
        m.0
    }
}
fn t(l: &Log, busy: Duration) -> ActorRef<T> {
    spawn_with_mailbox(T { log: l.clone(), busy }, mailbox::bounded(1))
}
const FIVE: [&str; 5] = ["0", "1", "2", "3", "4"];

async fn slow_subscriber_of_pubsub() -> Res {
    let l = log();
    let p = spawn_with_mailbox(pubsub::PubSub::<Note>::new(), mailbox::unbounded());
    p.tell(pubsub::Subscribe(t(&l, HOUR))).await.unwrap();
    for i in 0..5 {
        p.tell(pubsub::Publish(Note(i))).await.unwrap();
    }
    sleep(HOUR * 8).await;
    same!(entries(&l), FIVE, "what a slow subscriber got");
    Ok(())
}

async fn slow_subscriber_of_broker() -> Res {
    for s in [DeliveryStrategy::Guaranteed, DeliveryStrategy::Spawned, DeliveryStrategy::TimedDelivery(HOUR * 6), DeliveryStrategy::SpawnedWithTimeout(HOUR * 6)] {
        let l = log();
        let b = spawn_with_mailbox(broker::Broker::<Note>::new(s), mailbox::unbounded());
        b.tell(broker::Subscribe { topic: Pattern::new("*").unwrap(), recipient: t(&l, HOUR).recipient() }).await.unwrap();
        for i in 0..5 {
            b.tell(broker::Publish { topic: "x".into(), message: Note(i) }).await.unwrap();
        }
        sleep(HOUR * 8).await;
        let mut got = entries(&l);
        got.sort();
        same!(got, FIVE, "what a slow subscriber got ({s:?})");
    }
    Ok(())
}

async fn slow_actor_of_bus() -> Res {
    for s in [DeliveryStrategy::Guaranteed, DeliveryStrategy::Spawned, DeliveryStrategy::TimedDelivery(HOUR * 6), DeliveryStrategy::SpawnedWithTimeout(HOUR * 6)] {
        let l = log();
        let b = spawn_with_mailbox(message_bus::MessageBus::new(s), mailbox::unbounded());
        b.tell(message_bus::Register(t(&l, HOUR).recipient::<Note>())).await.unwrap();
        for i in 0..5 {
            b.tell(message_bus::Publish(Note(i))).await.unwrap();
        }
        sleep(HOUR * 8).await;
        let mut got = entries(&l);
        got.sort();
        same!(got, FIVE, "what a slow actor got ({s:?})");
    }
    Ok(())
}

async fn slow_workers() -> Res {
    let l = log();
    let l2 = l.clone();
    let p = spawn_with_mailbox(pool::ActorPool::new(2, move || t(&l2, HOUR)), mailbox::unbounded());
    let mut asks = Vec::new();
    for i in 0..6 {
        let p = p.clone();
        asks.push(tokio::spawn(async move { p.ask(pool::Dispatch(Note(i))).await.map_err(|e| e.to_string()) }));
    }
    for (i, a) in asks.into_iter().enumerate() {
        same!(a.await.unwrap(), Ok(i as u64), "the answer of a slow worker");
    }
    let r = p.ask(pool::Broadcast(Note(50))).await.map_err(|e| e.to_string())?;
    same!(r.len(), 2, "outcomes of a broadcast");
    let r2 = p.ask(pool::Broadcast(Note(50))).await.map_err(|e| e.to_string())?;
    let r3 = p.ask(pool::Broadcast(Note(50))).await.map_err(|e| e.to_string())?;
    ensure!(r.iter().chain(&r2).chain(&r3).all(|r| r.is_ok()), "broadcasts to slow workers");
    sleep(HOUR * 10).await;
    same!(entries(&l).iter().filter(|s| *s == "50").count(), 6, "broadcasts which arrived");
    Ok(())
}

impl Message<StreamMessage<u64, u64, u64>> for T {
    type Reply = ();
    async fn handle(&mut self, m: StreamMessage<u64, u64, u64>, _: &mut Context<Self, ()>) {
        sleep(self.busy).await;
        let (StreamMessage::Started(n) | StreamMessage::Next(n) | StreamMessage::Finished(n)) = m;
        self.log.lock().unwrap().push(n.to_string());
    }
}

async fn slow_streams() -> Res {
    for busy in [Duration::ZERO, HOUR] {
        let l = log();
        let a = t(&l, busy);
        let items = stream::iter(1..4u64).then(|i| sleep(HOUR).map(move |_| i));
        use futures::StreamExt;
        let h = a.attach_stream(Box::pin(items), 0, 4);
        ensure!(h.await.unwrap().is_ok(), "the stream ended with an error");
        a.stop_gracefully().await.unwrap();
        a.wait_for_shutdown().await;
        same!(entries(&l), FIVE, "a stream with an item an hour");
    }
    Ok(())
}

async fn prepared_for_long() -> Res {
    let prep = PreparedActor::new(mailbox::bounded(64));
    let l = log();
    for i in 0..20 {
        prep.actor_ref().tell(Echo(i)).await.unwrap();
    }
    sleep(HOUR).await;
    let a = prep.actor_ref().clone();
    let w = a.wait_for_startup();
    let mut w = Box::pin(w);
    ensure!(w.as_mut().now_or_never().is_none(), "startup reported before the actor was spawned");
    prep.spawn(Probe::new("a", &l));
    w.await;
    a.stop_gracefully().await.unwrap();
    a.wait_for_shutdown().await;
    same!(entries(&l).iter().filter(|s| s.starts_with("a.echo")).count(), 20, "messages sent an hour before the start");
    Ok(())
}

scenarios! {
    "C01" slow_hooks;
    "C03" slow_hooks;
    "C04" slow_hooks;
    "C02" slow_hooks;
    "C02" prepared_for_long;
    "C05" a_busy_link_is_told_late;
    "C07" slow_handler_is_waited_for;
    "C07" space_is_waited_for;
    "C07" timeouts_are_not_shortened;
    "C08" timeouts_are_not_shortened;
    "C08" space_is_waited_for_by_tells;
    "C04" space_is_waited_for_by_tells;
    "C14" space_is_waited_for_by_tells;
    "C09" late_replies_arrive;
    "C07" late_replies_arrive;
    "C08" late_replies_arrive;
    "C16" slow_subscriber_of_pubsub;
    "C17" slow_subscriber_of_broker;
    "C18" slow_actor_of_bus;
    "C15" slow_workers;
    "C19" slow_streams;
}
