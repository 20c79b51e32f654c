//! C19: streams attached to an actor.
use crate::{ensure, same, scenarios, Res};
use futures::{stream, StreamExt};
use kameo::{error::SendError, mailbox, message::StreamMessage, prelude::*};
use std::sync::{Arc, Mutex};
use std::time::Duration;

type Log = Arc<Mutex<Vec<String>>>;

#[derive(Actor)]
struct S {
    log: Log,
    slow: u64,
}
impl Message<StreamMessage<u32, &'static str, &'static str>> for S {
    type Reply = ();
    async fn handle(&mut self, m: StreamMessage<u32, &'static str, &'static str>, _: &mut Context<Self, ()>) {
        if self.slow > 0 {
            tokio::time::sleep(Duration::from_millis(self.slow)).await;
        }
        self.log.lock().unwrap().push(match m {
            StreamMessage::Started(s) => format!("start {s}"),
            StreamMessage::Next(n) => format!("{n}"),
            StreamMessage::Finished(s) => format!("end {s}"),
        });
    }
}

fn got(l: &Log) -> Vec<String> {
    l.lock().unwrap().clone()
}
fn all(n: u32) -> Vec<String> {
    std::iter::once("start s".to_string()).chain((0..n).map(|i| i.to_string())).chain(std::iter::once("end f".to_string())).collect()
}

async fn items_in_order() -> Res {
    for n in [0, 1, 5, 200] {
        for cap in [0, 1, 3, 1000] {
            let l = Log::default();
            let s = S { log: l.clone(), slow: (n % 7) as u64 };
            let a = if cap == 0 { kameo::actor::spawn_with_mailbox(s, mailbox::unbounded()) } else { kameo::actor::spawn_with_mailbox(s, mailbox::bounded(cap)) };
            let r = a.attach_stream(stream::iter(0..n), "s", "f").await.unwrap();
            ensure!(r.is_ok(), "attached stream of {n} items ended with an error (mailbox {cap})");
            a.stop_gracefully().await.unwrap();
            a.wait_for_shutdown().await;
            same!(got(&l), all(n), "stream of {n} items into a mailbox of {cap}");
        }
    }
    Ok(())
}

async fn a_full_mailbox_is_waited_for() -> Res {
    for cap in [1, 2] {
        let l = Log::default();
        let a = kameo::actor::spawn_with_mailbox(S { log: l.clone(), slow: 5_000 }, mailbox::bounded(cap));
        let r = a.attach_stream(stream::iter(0..6), "s", "f").await.unwrap();
        ensure!(r.is_ok(), "attached stream ended with an error (mailbox {cap}, five seconds per item)");
        a.stop_gracefully().await.unwrap();
        a.wait_for_shutdown().await;
        same!(got(&l), all(6), "stream into a mailbox of {cap} which stays full for seconds");
    }
    Ok(())
}

async fn items_come_slowly() -> Res {
    let l = Log::default();
    let a = kameo::spawn(S { log: l.clone(), slow: 0 });
    let (tx, rx) = tokio::sync::mpsc::unbounded_channel::<u32>();
    let s = Box::pin(stream::unfold(rx, |mut rx| async move { rx.recv().await.map(|x| (x, rx)) }));
    let h = a.attach_stream(s, "s", "f");
    for i in 0..3 {
        tokio::time::sleep(Duration::from_secs(1)).await;
        same!(got(&l).len(), 1 + i as usize, "delivered so far");
        tx.send(i).unwrap();
    }
    drop(tx);
    ensure!(h.await.unwrap().is_ok(), "ended with an error");
    a.stop_gracefully().await.unwrap();
    a.wait_for_shutdown().await;
    same!(got(&l), all(3), "items");
    Ok(())
}

async fn the_actor_stops() -> Res {
    let l = Log::default();
    let a = kameo::spawn(S { log: l.clone(), slow: 0 });
    let (tx, rx) = tokio::sync::mpsc::unbounded_channel::<u32>();
    let s = Box::pin(stream::unfold(rx, |mut rx| async move { rx.recv().await.map(|x| (x, rx)) }));
    let h = a.attach_stream(s, "s", "f");
    tx.send(0).unwrap();
    tokio::time::sleep(Duration::from_secs(1)).await;
    a.kill();
    a.wait_for_shutdown().await;
    let r = tokio::time::timeout(Duration::from_secs(5), h).await;
    ensure!(r.is_ok(), "the stream stays attached to a dead actor");
    let Ok(mut s) = r.unwrap().unwrap() else { return Err("an error without a failed send".into()) };
    same!(got(&l), vec!["start s".to_string(), "0".to_string()], "what the actor got");
    tx.send(7).unwrap();
    same!(s.next().await, Some(7), "the stream given back goes on where it was");
    Ok(())
}

async fn the_actor_is_gone_or_dies() -> Res {
    let l = Log::default();
    let a = kameo::spawn(S { log: l.clone(), slow: 0 });
    a.kill();
    a.wait_for_shutdown().await;
    match a.attach_stream(stream::iter(0..3), "s", "f").await.unwrap() {
        Err(SendError::ActorNotRunning(StreamMessage::Started("s"))) => {}
        Err(e) => return Err(format!("attaching to a dead actor: {e:?}")),
        Ok(_) => return Err("attaching to a dead actor succeeded".into()),
    }
    let a = kameo::actor::spawn_with_mailbox(S { log: l.clone(), slow: 1000 }, mailbox::bounded(1));
    let h = a.attach_stream(stream::iter(0..100), "s", "f");
    tokio::time::sleep(Duration::from_millis(2500)).await;
    a.kill();
    match tokio::time::timeout(Duration::from_secs(50), h).await.map_err(|_| "the stream stays attached to a dead actor".to_string())?.unwrap() {
        Err(SendError::ActorNotRunning(StreamMessage::Next(_))) => {}
        Err(e) => return Err(format!("the actor died while an item waited: {e:?}")),
        Ok(_) => return Err("the item that waited is lost".into()),
    }
    Ok(())
}

scenarios! {
    "C19" items_in_order;
    "C19" a_full_mailbox_is_waited_for;
    "C19" items_come_slowly;
    "C19" the_actor_stops;
    "C19" the_actor_is_gone_or_dies;
}
