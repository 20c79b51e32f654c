//! C16: PubSub, C17: Broker, C18: MessageBus.
use crate::{ensure, same, scenarios, Res};
use glob::Pattern;
use kameo::mailbox;
use kameo::prelude::*;
use kameo_actors::{broker, message_bus, pubsub, DeliveryStrategy};
use std::sync::{Arc, Mutex};
use std::future::IntoFuture;
use std::time::Duration;

type Log = Arc<Mutex<Vec<(usize, u32)>>>;

#[derive(Actor)]
struct S {
    id: usize,
    log: Log,
}
#[derive(Clone, Debug, PartialEq)]
struct Note(u32);
#[derive(Clone, Debug, PartialEq)]
struct Other(u32);

impl Message<Note> for S {
    type Reply = ();
    async fn handle(&mut self, Note(n): Note, _: &mut Context<Self, ()>) {
        self.log.lock().unwrap().push((self.id, n));
    }
}
impl Message<Other> for S {
    type Reply = ();
    async fn handle(&mut self, Other(n): Other, _: &mut Context<Self, ()>) {
        self.log.lock().unwrap().push((self.id, 10_000 + n));
    }
}
struct Stall;
impl Message<Stall> for S {
    type Reply = ();
    async fn handle(&mut self, _: Stall, _: &mut Context<Self, ()>) {
        tokio::time::sleep(Duration::from_secs(20)).await;
    }
}

fn actor(id: usize, log: &Log) -> ActorRef<S> {
    kameo::spawn(S { id, log: log.clone() })
}
async fn settle() {
    tokio::time::sleep(Duration::from_millis(50)).await;
}
fn who(log: &Log, n: u32) -> Vec<usize> {
    let mut v: Vec<usize> = log.lock().unwrap().iter().filter(|(_, k)| *k == n).map(|(i, _)| *i).collect();
    v.sort();
    v
}
fn msgs(log: &Log, id: usize) -> Vec<u32> {
    log.lock().unwrap().iter().filter(|(i, _)| *i == id).map(|(_, n)| *n).collect()
}

const STRATEGIES: [DeliveryStrategy; 5] = [
    DeliveryStrategy::Guaranteed,
    DeliveryStrategy::BestEffort,
    DeliveryStrategy::TimedDelivery(Duration::from_secs(1)),
    DeliveryStrategy::Spawned,
    DeliveryStrategy::SpawnedWithTimeout(Duration::from_secs(1)),
];

async fn pubsub_delivers_by_filter() -> Res {
    let log = Log::default();
    let mut ps = pubsub::PubSub::<Note>::new();
    let (a, b, c) = (actor(0, &log), actor(1, &log), actor(2, &log));
    ps.subscribe(a.clone());
    ps.subscribe_filter(b.clone(), |m: &Note| m.0 % 2 == 0);
    ps.subscribe_filter(c.clone(), |_| false);
    for n in 0..6 {
        ps.publish(Note(n)).await;
    }
    settle().await;
    same!(msgs(&log, 0), vec![0, 1, 2, 3, 4, 5], "an unfiltered subscriber");
    same!(msgs(&log, 1), vec![0, 2, 4], "a filtered subscriber");
    same!(msgs(&log, 2), Vec::<u32>::new(), "a subscriber whose filter refuses everything");
    ps.subscribe(c.clone());
    ps.subscribe_filter(a.clone(), |_| false);
    ps.publish(Note(9)).await;
    settle().await;
    same!(who(&log, 9), vec![2], "after two subscriptions were replaced");
    let psr = kameo::spawn(ps);
    let d = actor(3, &log);
    same!(psr.ask(pubsub::Subscribe(d.clone())).await.is_ok(), true, "Subscribe");
    same!(psr.ask(pubsub::SubscribeFilter(b.clone(), |m: &Note| m.0 > 100)).await.is_ok(), true, "SubscribeFilter");
    same!(psr.ask(pubsub::Publish(Note(10))).await.is_ok(), true, "Publish");
    settle().await;
    same!(who(&log, 10), vec![2, 3], "published through the actor");
    same!(psr.ask(pubsub::Publish(Note(101))).await.is_ok(), true, "Publish");
    settle().await;
    same!(who(&log, 101), vec![1, 2, 3], "published through the actor");
    Ok(())
}

async fn pubsub_survives_dead_and_slow_subscribers() -> Res {
    let log = Log::default();
    let psr = kameo::spawn(pubsub::PubSub::<Note>::new());
    let actors: Vec<_> = (0..5).map(|i| actor(i, &log)).collect();
    for a in &actors {
        let _ = psr.ask(pubsub::Subscribe(a.clone())).await;
    }
    let _ = psr.ask(pubsub::Publish(Note(1))).await;
    settle().await;
    same!(who(&log, 1), vec![0, 1, 2, 3, 4], "all alive");
    actors[1].kill();
    let _ = actors[3].stop_gracefully().await;
    settle().await;
    for n in 2..4 {
        ensure!(psr.ask(pubsub::Publish(Note(n))).await.is_ok(), "publish with dead subscribers");
        settle().await;
        same!(who(&log, n), vec![0, 2, 4], "two subscribers are dead");
    }
    same!(actors[1].strong_count(), 1, "references to a dead subscriber");
    // a full mailbox makes publish wait, and loses nothing
    let full = kameo::actor::spawn_with_mailbox(S { id: 7, log: log.clone() }, mailbox::bounded(1));
    let _ = psr.ask(pubsub::Subscribe(full.clone())).await;
    let _ = full.tell(Stall).await;
    settle().await;
    for n in 20..24 {
        ensure!(psr.tell(pubsub::Publish(Note(n))).await.is_ok(), "publish");
    }
    tokio::time::sleep(Duration::from_secs(60)).await;
    same!(msgs(&log, 7), vec![20, 21, 22, 23], "a subscriber with a full mailbox");
    same!(msgs(&log, 0)[msgs(&log, 0).len() - 4..].to_vec(), vec![20, 21, 22, 23], "another subscriber meanwhile");
    Ok(())
}

async fn broker_matches_topics() -> Res {
    for s in STRATEGIES {
        let log = Log::default();
        let b = kameo::spawn(broker::Broker::<Note>::new(s));
        let pats = ["a/*", "a/b", "*/b", "c?", "**"];
        let actors: Vec<_> = (0..pats.len()).map(|i| actor(i, &log)).collect();
        for (i, p) in pats.iter().enumerate() {
            let _ = b.ask(broker::Subscribe { topic: Pattern::new(p).unwrap(), recipient: actors[i].clone().recipient() }).await;
        }
        let cases: [(&str, &[usize]); 6] = [("a/b", &[0, 1, 2, 4]), ("a/x", &[0, 4]), ("x/b", &[2, 4]), ("cc", &[3, 4]), ("a/b/c", &[4]), ("A/b", &[2, 4])];
        for (n, (t, w)) in cases.iter().enumerate() {
            let _ = b.ask(broker::Publish { topic: t.to_string(), message: Note(n as u32) }).await;
            settle().await;
            same!(who(&log, n as u32), w.to_vec(), "who got {t} ({s:?})");
        }
        // unsubscribing from one topic, from all topics; resubscribing
        let _ = b.ask(broker::Subscribe { topic: Pattern::new("a/b").unwrap(), recipient: actors[0].clone().recipient() }).await;
        let _ = b.ask(broker::Unsubscribe { topic: Some(Pattern::new("a/*").unwrap()), actor_id: actors[0].id() }).await;
        let _ = b.ask(broker::Unsubscribe { topic: None, actor_id: actors[4].id() }).await;
        let _ = b.ask(broker::Publish { topic: "a/b".into(), message: Note(100) }).await;
        settle().await;
        same!(who(&log, 100), vec![0, 1, 2], "after unsubscribing ({s:?})");
        let _ = b.ask(broker::Publish { topic: "a/x".into(), message: Note(101) }).await;
        settle().await;
        same!(who(&log, 101), Vec::<usize>::new(), "after unsubscribing ({s:?})");
        let _ = b.ask(broker::Unsubscribe { topic: None, actor_id: actors[0].id() }).await;
        let _ = b.ask(broker::Publish { topic: "a/b".into(), message: Note(102) }).await;
        settle().await;
        same!(who(&log, 102), vec![1, 2], "after unsubscribing from everything ({s:?})");
    }
    Ok(())
}

async fn broker_drops_only_dead_subscribers() -> Res {
    for s in STRATEGIES {
        let log = Log::default();
        let b = kameo::spawn(broker::Broker::<Note>::new(s));
        let actors: Vec<_> = (0..4).map(|i| actor(i, &log)).collect();
        let full = kameo::actor::spawn_with_mailbox(S { id: 7, log: log.clone() }, mailbox::bounded(1));
        for a in actors.iter().chain([&full]) {
            for p in ["t", "*"] {
                let _ = b.ask(broker::Subscribe { topic: Pattern::new(p).unwrap(), recipient: a.clone().recipient() }).await;
            }
        }
        actors[2].kill();
        settle().await;
        for n in 0..3 {
            let _ = b.ask(broker::Publish { topic: "t".into(), message: Note(n) }).await;
            settle().await;
            let mut w = vec![0, 0, 1, 1, 3, 3, 7, 7];
            if s == DeliveryStrategy::BestEffort {
                w = who(&log, n); // the small mailbox may be full by then
                ensure!(w.starts_with(&[0, 0, 1, 1, 3, 3]), "who got message {n} ({s:?}): {w:?}");
            }
            same!(who(&log, n), w, "who got message {n} ({s:?})");
        }
        same!(actors[2].strong_count(), 1, "references to a dead subscriber ({s:?})");
        // a full mailbox is no reason to unsubscribe
        let _ = full.tell(Stall).await;
        settle().await;
        for n in 20..25 {
            let _ = b.ask(broker::Publish { topic: "u".into(), message: Note(n) }).await;
        }
        tokio::time::sleep(Duration::from_secs(60)).await;
        let _ = b.ask(broker::Publish { topic: "u".into(), message: Note(30) }).await;
        settle().await;
        same!(who(&log, 30), vec![0, 1, 3, 7], "after a mailbox was full for a while ({s:?})");
        let got: Vec<u32> = msgs(&log, 7).into_iter().filter(|n| (20..25).contains(n)).collect();
        match s {
            DeliveryStrategy::Guaranteed | DeliveryStrategy::Spawned => same!(got.len(), 5, "messages for a full mailbox ({s:?})"),
            _ => same!(got.len(), 1, "messages for a full mailbox ({s:?})"),
        }
        same!(msgs(&log, 0).iter().filter(|n| (20..25).contains(*n)).count(), 5, "messages for the others meanwhile ({s:?})");
    }
    Ok(())
}

async fn bus_routes_by_type() -> Res {
    for s in STRATEGIES {
        let log = Log::default();
        let b = kameo::spawn(message_bus::MessageBus::new(s));
        let actors: Vec<_> = (0..4).map(|i| actor(i, &log)).collect();
        for a in &actors[..3] {
            let _ = b.ask(message_bus::Register(a.clone().recipient::<Note>())).await;
        }
        for a in &actors[1..] {
            let _ = b.ask(message_bus::Register(a.clone().recipient::<Other>())).await;
        }
        ensure!(b.ask(message_bus::Publish(7u8)).await.is_ok(), "a type nobody registered for");
        let _ = b.ask(message_bus::Publish(Note(1))).await;
        let _ = b.ask(message_bus::Publish(Other(1))).await;
        settle().await;
        same!(who(&log, 1), vec![0, 1, 2], "who got Note ({s:?})");
        same!(who(&log, 10_001), vec![1, 2, 3], "who got Other ({s:?})");
        let _ = b.ask(message_bus::Unregister::<Note>::new(actors[1].id())).await;
        actors[2].kill();
        settle().await;
        for n in 2..4 {
            ensure!(b.ask(message_bus::Publish(Note(n))).await.is_ok(), "publish");
            ensure!(b.ask(message_bus::Publish(Other(n))).await.is_ok(), "publish");
            settle().await;
            same!(who(&log, n), vec![0], "who got Note after one unregistered and one died ({s:?})");
            same!(who(&log, 10_000 + n), vec![1, 3], "who got Other after one died ({s:?})");
        }
        same!(actors[2].strong_count(), 1, "references to a dead actor ({s:?})");
        let full = kameo::actor::spawn_with_mailbox(S { id: 7, log: log.clone() }, mailbox::bounded(1));
        let _ = b.ask(message_bus::Register(full.clone().recipient::<Note>())).await;
        let _ = full.tell(Stall).await;
        settle().await;
        for n in 20..25 {
            let _ = b.ask(message_bus::Publish(Note(n))).await;
        }
        tokio::time::sleep(Duration::from_secs(60)).await;
        let _ = b.ask(message_bus::Publish(Note(30))).await;
        settle().await;
        same!(who(&log, 30), vec![0, 7], "after a mailbox was full for a while ({s:?})");
        let got = msgs(&log, 7).into_iter().filter(|n| (20..25).contains(n)).count();
        same!(got, if matches!(s, DeliveryStrategy::Guaranteed | DeliveryStrategy::Spawned) { 5 } else { 1 }, "messages for a full mailbox ({s:?})");
        same!(msgs(&log, 0).iter().filter(|n| (20..25).contains(*n)).count(), 5, "messages for the other meanwhile ({s:?})");
    }
    Ok(())
}

async fn broker_subscribed_twice() -> Res {
    for s in STRATEGIES {
        for one_topic in [true, false] {
            let log = Log::default();
            let b = kameo::spawn(broker::Broker::<Note>::new(s));
            let actors: Vec<_> = (0..3).map(|i| actor(i, &log)).collect();
            let on = |t: &str, a: &ActorRef<S>| broker::Subscribe { topic: Pattern::new(t).unwrap(), recipient: a.clone().recipient() };
            for i in [0, 1, 0, 2, 0] {
                let _ = b.ask(on("a/*", &actors[i])).await;
            }
            let _ = b.ask(broker::Unsubscribe { topic: one_topic.then(|| Pattern::new("a/*").unwrap()), actor_id: actors[0].id() }).await;
            let _ = b.ask(broker::Publish { topic: "a/b".into(), message: Note(1) }).await;
            settle().await;
            same!(who(&log, 1), vec![1, 2], "who is left after one subscribed three times and unsubscribed ({s:?})");
            let _ = b.ask(on("a/*", &actors[0])).await;
            let _ = b.ask(broker::Publish { topic: "a/b".into(), message: Note(2) }).await;
            settle().await;
            same!(who(&log, 2), vec![0, 1, 2], "after subscribing again ({s:?})");
        }
    }
    Ok(())
}

async fn bus_registered_twice() -> Res {
    for s in STRATEGIES {
        let log = Log::default();
        let b = kameo::spawn(message_bus::MessageBus::new(s));
        let actors: Vec<_> = (0..3).map(|i| actor(i, &log)).collect();
        for i in [0, 1, 0, 2, 0] {
            let _ = b.ask(message_bus::Register(actors[i].clone().recipient::<Note>())).await;
        }
        let _ = b.ask(message_bus::Unregister::<Note>::new(actors[0].id())).await;
        let _ = b.ask(message_bus::Publish(Note(1))).await;
        settle().await;
        same!(who(&log, 1), vec![1, 2], "who is left after one registered three times and unregistered ({s:?})");
        let _ = b.ask(message_bus::Register(actors[0].clone().recipient::<Note>())).await;
        let _ = b.ask(message_bus::Publish(Note(2))).await;
        settle().await;
        same!(who(&log, 2), vec![0, 1, 2], "after registering again ({s:?})");
    }
    Ok(())
}

/// Many recipients, some of which die: each that lives gets each message once.
async fn many_recipients() -> Res {
    for s in STRATEGIES {
        let log = Log::default();
        let (b, k) = (kameo::spawn(message_bus::MessageBus::new(s)), kameo::spawn(broker::Broker::<Other>::new(s)));
        let actors: Vec<_> = (0..150).map(|i| actor(i, &log)).collect();
        for a in &actors {
            let _ = b.ask(message_bus::Register(a.clone().recipient::<Note>())).await;
            let _ = k.ask(broker::Subscribe { topic: Pattern::new("t*").unwrap(), recipient: a.clone().recipient() }).await;
        }
        for round in 0..4u32 {
            let _ = b.ask(message_bus::Publish(Note(round))).await;
            let _ = k.ask(broker::Publish { topic: "tt".into(), message: Other(round) }).await;
            settle().await;
            let alive: Vec<usize> = (0..150).filter(|i| i % 5 >= round as usize).collect();
            same!(who(&log, round), alive, "who of 150 got a message of the bus in round {round} ({s:?})");
            same!(who(&log, 10_000 + round), alive, "who of 150 got a message of the broker in round {round} ({s:?})");
            for i in (0..150).filter(|i| i % 5 == round as usize) {
                actors[i].kill();
            }
            settle().await;
        }
    }
    Ok(())
}

async fn subscribed_between_messages() -> Res {
    // who subscribes, unsubscribes or dies between two messages of a topic is there, or not, for the next one
    let log = Log::default();
    let br = kameo::spawn(broker::Broker::<Note>::new(DeliveryStrategy::Guaranteed));
    let publish = |n: u32, t: &str| br.ask(broker::Publish { topic: t.to_string(), message: Note(n) }).into_future();
    let sub = |p: &str, a: &ActorRef<S>| br.ask(broker::Subscribe { topic: Pattern::new(p).unwrap(), recipient: a.clone().recipient() }).into_future();
    let patterns = ["a/b", "a/*", "*/b", "**", "a/?", "[a-c]/b", "?/b", "*/?"];
    let actors: Vec<_> = (0..patterns.len()).map(|i| actor(i, &log)).collect();
    let mut n = 0;
    for round in 0..2 {
        for (i, p) in patterns.iter().enumerate() {
            for t in ["a/b", "x/y", "a/c", "q", "a/b"] {
                n += 1;
                publish(n, t).await.map_err(|e| e.to_string())?;
            }
            settle().await;
            same!(who(&log, n), (0..i).collect::<Vec<_>>(), "who got the message when the first {i} patterns are subscribed (round {round})");
            sub(p, &actors[i]).await.map_err(|e| e.to_string())?;
        }
        for (i, p) in patterns.iter().enumerate() {
            n += 1;
            publish(n, "a/b").await.map_err(|e| e.to_string())?;
            settle().await;
            same!(who(&log, n), (i..patterns.len()).collect::<Vec<_>>(), "who got the message when the first {i} patterns are unsubscribed (round {round})");
            let topic = (i % 2 == 0).then(|| Pattern::new(p).unwrap());
            br.ask(broker::Unsubscribe { topic, actor_id: actors[i].id() }).await.map_err(|e| e.to_string())?;
        }
    }
    Ok(())
}

async fn pubsub_slow_ones_stay() -> Res {
    // a subscriber that stops while others are slow is dropped; nobody else ever is, however many messages there are
    let log = Log::default();
    let mut ps = pubsub::PubSub::<Note>::new();
    let slow = kameo::actor::spawn_with_mailbox(S { id: 0, log: log.clone() }, mailbox::bounded(1));
    let quick = actor(1, &log);
    ps.subscribe(slow.clone());
    ps.subscribe(quick.clone());
    for n in 0..40 {
        if n % 2 == 0 {
            slow.tell(Stall).await.map_err(|e| e.to_string())?;
        }
        ps.publish(Note(n)).await;
    }
    tokio::time::sleep(Duration::from_secs(1000)).await;
    same!(msgs(&log, 0), (0..40).collect::<Vec<_>>(), "the slow subscriber");
    same!(msgs(&log, 1), (0..40).collect::<Vec<_>>(), "the quick subscriber");
    Ok(())
}

async fn types_of_the_same_name() -> Res {
    let log = Log::default();
    let bus = kameo::spawn(message_bus::MessageBus::new(DeliveryStrategy::Guaranteed));
    let a = actor(0, &log);
    bus.ask(message_bus::Register(a.clone().recipient::<Note>())).await.map_err(|e| e.to_string())?;
    {
        #[derive(Clone)]
        struct Same(u32);
        impl Message<Same> for S {
            type Reply = ();
            async fn handle(&mut self, Same(n): Same, _: &mut Context<Self, ()>) {
                self.log.lock().unwrap().push((self.id, 100 + n));
            }
        }
        bus.ask(message_bus::Register(a.clone().recipient::<Same>())).await.map_err(|e| e.to_string())?;
        bus.ask(message_bus::Publish(Same(1))).await.map_err(|e| e.to_string())?;
    }
    {
        #[derive(Clone)]
        struct Same(String);
        impl Message<Same> for S {
            type Reply = ();
            async fn handle(&mut self, Same(s): Same, _: &mut Context<Self, ()>) {
                self.log.lock().unwrap().push((self.id, 200 + s.len() as u32));
            }
        }
        bus.ask(message_bus::Publish(Same("nobody".into()))).await.map_err(|e| format!("a type nobody registered for: {e}"))?;
        bus.ask(message_bus::Register(a.clone().recipient::<Same>())).await.map_err(|e| e.to_string())?;
        bus.ask(message_bus::Publish(Same("one".into()))).await.map_err(|e| e.to_string())?;
    }
    settle().await;
    same!(msgs(&log, 0), vec![101, 203], "messages of two types which have the same name");
    Ok(())
}

scenarios! {
    "C16" pubsub_slow_ones_stay;
    "C17" subscribed_between_messages;
    "C18" types_of_the_same_name;
    "C17" broker_subscribed_twice;
    "C17" many_recipients;
    "C18" bus_registered_twice;
    "C18" many_recipients;
    "C16" pubsub_delivers_by_filter;
    "C16" pubsub_survives_dead_and_slow_subscribers;
    "C17" broker_matches_topics;
    "C17" broker_drops_only_dead_subscribers;
    "C18" bus_routes_by_type;
}
