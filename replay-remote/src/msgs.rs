//! C20: messages to remote actors.
use crate::{ensure, net, same, Res};
use kameo::{
    actor::RemoteActorRef,
    error::{Infallible, RemoteSendError},
    message::{Context, Message},
    remote::{SwarmRequest, SwarmResponse},
    remote_message, Actor, RemoteActor,
};
use serde::{Deserialize, Serialize};
use std::{cell::RefCell, rc::Rc, time::Duration};

#[derive(RemoteActor)]
#[remote_actor(id = "replay::Counter")]
pub struct Counter(pub i64);
impl Actor for Counter {
    type Error = Infallible;
}

#[derive(Serialize, Deserialize)]
pub struct Add(pub i64);

#[derive(Debug, Serialize, Deserialize, PartialEq)]
pub struct TooBig {
    pub got: i64,
}

#[remote_message("add")]
impl Message<Add> for Counter {
    type Reply = Result<i64, TooBig>;
    async fn handle(&mut self, m: Add, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
        if m.0 > 100 {
            return Err(TooBig { got: m.0 });
        }
        if m.0 == -7 {
            tokio::time::sleep(Duration::from_millis(1500)).await;
        }
        self.0 += m.0;
        Ok(self.0)
    }
}

/// a text of any length; what comes back is the text as it was handled
#[derive(Serialize, Deserialize)]
pub struct Echo(pub String);

#[remote_message("echo")]
impl Message<Echo> for Counter {
    type Reply = Result<String, Nope>;
    async fn handle(&mut self, m: Echo, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
        self.0 += 1;
        if m.0.starts_with('!') {
            return Err(Nope::No { why: m.0, more: vec![Some(1), None] });
        }
        Ok(m.0)
    }
}

#[derive(Debug, Serialize, Deserialize, PartialEq)]
pub enum Nope {
    No { why: String, more: Vec<Option<u8>> },
}

/// a message without content, and a reply without content
#[derive(Serialize, Deserialize)]
pub struct Poke;

#[remote_message("poke")]
impl Message<Poke> for Counter {
    type Reply = ();
    async fn handle(&mut self, _: Poke, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
        self.0 += 1;
    }
}

fn texts() -> Vec<String> {
    let mut v: Vec<String> = [0usize, 1, 31, 32, 255, 256, 4095, 4096, 16_384, 65_535, 65_536, 120_000, 300_000].iter().map(|n| "x".repeat(*n)).collect();
    v.extend(["  ".to_string(), "ä€𝄞\0\u{feff}".to_string(), "!no".to_string(), "!".repeat(70_000)]);
    v
}

async fn any_text(r: &RemoteActorRef<Counter>, what: &str) -> Res {
    for t in texts() {
        let want = if t.starts_with('!') { Err(RemoteSendError::HandlerError(Nope::No { why: t.clone(), more: vec![Some(1), None] })) } else { Ok(t.clone()) };
        let n = t.len();
        for how in 0..2 {
            let got = if how == 0 { r.ask(&Echo(t.clone())).await } else { r.ask(&Echo(t.clone())).try_send().await };
            let (got, want) = (format!("{got:?}"), format!("{want:?}"));
            ensure!(got == want, "{what}: ask ({how}) with a text of {n} bytes: got {}", got.chars().take(120).collect::<String>());
        }
    }
    same!(r.ask(&Poke).await, Ok::<(), RemoteSendError<Infallible>>(()), "{what}: a message without content");
    same!(r.tell(&Poke).await, Ok::<(), RemoteSendError<Infallible>>(()), "{what}: tell a message without content");
    same!(r.ask(&Add(0)).await, Ok::<i64, RemoteSendError<TooBig>>(2 * texts().len() as i64 + 2), "{what}: each was handled once");
    Ok(())
}

/// a message of any size gets there, and its reply back
async fn messages_of_any_size() -> Res {
    net::run();
    let a = kameo::spawn(Counter(0));
    a.register("c").await.map_err(|e| e.to_string())?;
    let r = RemoteActorRef::<Counter>::lookup("c").await.map_err(|e| e.to_string())?.ok_or("not found")?;
    any_text(&r, "no peer connected").await
}

/// the same for a peer's messages, and for messages to a peer
async fn messages_of_any_size_between_nodes() -> Res {
    let (_, p) = net::with_peer(Box::new(|r| match r {
        SwarmRequest::Ask { payload, .. } => Some(SwarmResponse::Ask(Ok(payload))),
        SwarmRequest::Tell { .. } => Some(SwarmResponse::Tell(Ok(()))),
        _ => None,
    })).await;
    let a = kameo::spawn(Counter(0));
    a.register("c").await.map_err(|e| format!("register: {e}"))?;
    for t in texts().into_iter().filter(|t| !t.starts_with('!')) {
        let mut payload = vec![0xd9, t.len() as u8];
        match t.len() {
            0..=31 => payload = vec![0xa0 | t.len() as u8],
            32..=255 => (),
            256..=65535 => payload = [vec![0xda], (t.len() as u16).to_be_bytes().to_vec()].concat(),
            _ => payload = [vec![0xdb], (t.len() as u32).to_be_bytes().to_vec()].concat(),
        }
        payload.extend(t.bytes());
        let r = p.request(SwarmRequest::Ask { actor_id: a.id(), actor_remote_id: "replay::Counter".into(), message_remote_id: "echo".into(), payload: payload.clone(), mailbox_timeout: None, reply_timeout: None, immediate: false }).await?;
        ensure!(matches!(&r, SwarmResponse::Ask(Ok(x)) if *x == payload), "a text of {} bytes from a peer: got {}", t.len(), format!("{r:?}").chars().take(120).collect::<String>());
    }
    for (m, want) in [(vec![0xc0u8], true), (vec![0x90], true), (vec![], false)] {
        let r = p.request(SwarmRequest::Ask { actor_id: a.id(), actor_remote_id: "replay::Counter".into(), message_remote_id: "poke".into(), payload: m.clone(), mailbox_timeout: None, reply_timeout: None, immediate: true }).await?;
        ensure!(matches!(&r, SwarmResponse::Ask(Ok(_))) == want, "a peer's message {m:?}: got {r:?}");
    }
    Ok(())
}

async fn exercise(r: &RemoteActorRef<Counter>, what: &str) -> Res {
    same!(r.ask(&Add(2)).await, Ok::<i64, RemoteSendError<TooBig>>(2), "{what}: ask");
    same!(r.ask(&Add(3)).try_send().await, Ok::<i64, RemoteSendError<TooBig>>(5), "{what}: try_send ask");
    same!(r.tell(&Add(1)).await, Ok::<(), RemoteSendError>(()), "{what}: tell");
    same!(r.tell(&Add(1)).try_send().await, Ok::<(), RemoteSendError>(()), "{what}: try_send tell");
    same!(r.ask(&Add(1)).mailbox_timeout(Duration::from_secs(5)).reply_timeout(Duration::from_secs(5)).await, Ok::<i64, RemoteSendError<TooBig>>(8), "{what}: ask with timeouts");
    same!(r.ask(&Add(101)).await, Err::<i64, _>(RemoteSendError::HandlerError(TooBig { got: 101 })), "{what}: a handler error");
    same!(r.ask(&Add(-7)).reply_timeout(Duration::from_millis(50)).await, Err::<i64, _>(RemoteSendError::<TooBig>::ReplyTimeout), "{what}: a slow reply");
    tokio::time::sleep(Duration::from_millis(1600)).await;
    same!(r.ask(&Add(-7)).reply_timeout(Duration::from_millis(50)).try_send().await, Err::<i64, _>(RemoteSendError::<TooBig>::ReplyTimeout), "{what}: a slow reply to a try_send");
    Ok(())
}

async fn an_actor_of_this_node() -> Res {
    net::run();
    let a = kameo::spawn(Counter(0));
    a.register("c").await.map_err(|e| e.to_string())?;
    let r = RemoteActorRef::<Counter>::lookup("c").await.map_err(|e| e.to_string())?.ok_or("not found")?;
    exercise(&r, "no peer connected").await?;
    a.stop_gracefully().await.map_err(|e| e.to_string())?;
    a.wait_for_shutdown().await;
    same!(r.ask(&Add(2)).await, Err::<i64, _>(RemoteSendError::<TooBig>::ActorNotRunning), "ask of a dead actor");
    same!(r.tell(&Add(2)).await, Err::<(), _>(RemoteSendError::<Infallible>::ActorNotRunning), "tell of a dead actor");
    Ok(())
}

async fn an_actor_of_this_node_while_a_peer_is_connected() -> Res {
    let (_, _p) = net::with_peer(Box::new(|_| None)).await;
    let a = kameo::spawn(Counter(0));
    a.register("c").await.map_err(|e| format!("register: {e}"))?;
    let r = RemoteActorRef::<Counter>::lookup("c").await.map_err(|e| e.to_string())?.ok_or("not found")?;
    exercise(&r, "peer connected").await
}

fn counter_answers(log: Rc<RefCell<Vec<String>>>) -> net::Answer {
    Box::new(move |r| match r {
        SwarmRequest::Ask { actor_id, actor_remote_id, message_remote_id, payload, mailbox_timeout, reply_timeout, immediate } => {
            log.borrow_mut().push(format!("ask {} {actor_remote_id} {message_remote_id} {payload:?} {mailbox_timeout:?} {reply_timeout:?} {immediate}", actor_id.sequence_id()));
            Some(SwarmResponse::Ask(Ok(vec![42])))
        }
        SwarmRequest::Tell { actor_id, actor_remote_id, message_remote_id, payload, mailbox_timeout, immediate } => {
            log.borrow_mut().push(format!("tell {} {actor_remote_id} {message_remote_id} {payload:?} {mailbox_timeout:?} {immediate}", actor_id.sequence_id()));
            Some(SwarmResponse::Tell(Err(RemoteSendError::MailboxFull)))
        }
        _ => None,
    })
}

async fn an_actor_of_a_node_not_connected_yet() -> Res {
    let log = Rc::new(RefCell::new(vec![]));
    let (_, _p) = net::with_known_peer(counter_answers(log.clone()), |p| vec![("c".into(), net::registration(77, p, "replay::Counter"))]).await;
    let r = RemoteActorRef::<Counter>::lookup("c").await.map_err(|e| e.to_string())?.ok_or("not found")?;
    same!(r.ask(&Add(2)).reply_timeout(Duration::from_secs(3)).await, Ok::<i64, RemoteSendError<TooBig>>(42), "ask");
    same!(r.tell(&Add(2)).mailbox_timeout(Duration::from_secs(4)).await, Err::<(), _>(RemoteSendError::<Infallible>::MailboxFull), "tell");
    same!(r.ask(&Add(3)).mailbox_timeout(Duration::from_millis(1500)).reply_timeout(Duration::from_secs(3600)).await, Ok::<i64, RemoteSendError<TooBig>>(42), "ask with both timeouts");
    same!(r.ask(&Add(2)).try_send().await, Ok::<i64, RemoteSendError<TooBig>>(42), "try_send ask");
    same!(r.tell(&Add(2)).try_send().await, Err::<(), _>(RemoteSendError::<Infallible>::MailboxFull), "try_send tell");
    let l = log.borrow().clone();
    same!(l, vec!["ask 77 replay::Counter add [2] None Some(3s) false".to_string(), "tell 77 replay::Counter add [2] Some(4s) false".into(), "ask 77 replay::Counter add [3] Some(1.5s) Some(3600s) false".into(), "ask 77 replay::Counter add [2] None None true".into(), "tell 77 replay::Counter add [2] None true".into()], "requests");
    Ok(())
}

async fn requests_of_another_node() -> Res {
    let (s, p) = net::with_peer(Box::new(|_| None)).await;
    let _ = s;
    let a = kameo::spawn(Counter(0));
    a.register("c").await.map_err(|e| format!("register: {e}"))?;
    let ask = |seq: kameo::actor::ActorID, msg: &'static str, payload: Vec<u8>| SwarmRequest::Ask { actor_id: seq, actor_remote_id: "replay::Counter".into(), message_remote_id: msg.into(), payload, mailbox_timeout: None, reply_timeout: None, immediate: false };
    same!(p.request(ask(a.id(), "add", vec![2])).await, Ok::<_, String>(SwarmResponse::Ask(Ok(vec![2]))), "ask");
    let r = p.request(ask(a.id(), "add", vec![204, 200])).await?;
    ensure!(matches!(r, SwarmResponse::Ask(Err(RemoteSendError::HandlerError(_)))), "handler error: got {r:?}");
    let r = p.request(ask(a.id(), "sub", vec![2])).await?;
    ensure!(matches!(r, SwarmResponse::Ask(Err(RemoteSendError::UnknownMessage { .. }))), "unknown message: got {r:?}");
    let r = p.request(ask(a.id(), "add", vec![0xc1, 1, 2])).await?;
    ensure!(matches!(r, SwarmResponse::Ask(Err(RemoteSendError::DeserializeMessage(_)))), "garbage: got {r:?}");
    let r = p.request(ask(kameo::actor::ActorID::new_with_peer_id(99999, p.id), "add", vec![2])).await?;
    ensure!(matches!(r, SwarmResponse::Ask(Err(RemoteSendError::ActorNotRunning))), "no such actor: got {r:?}");
    let r = p.request(SwarmRequest::Tell { actor_id: a.id(), actor_remote_id: "replay::Counter".into(), message_remote_id: "add".into(), payload: vec![3], mailbox_timeout: None, immediate: true }).await?;
    ensure!(matches!(r, SwarmResponse::Tell(Ok(()))), "tell: got {r:?}");
    same!(a.ask(Add(0)).await.map_err(|_| ()), Ok::<_, ()>(5), "both messages arrived");
    Ok(())
}

/// every kind of failure a peer can report reaches the one who asked as that failure
async fn failures_of_another_node() -> Res {
    type E = RemoteSendError<Vec<u8>>;
    let all: Vec<fn() -> E> = vec![
        || E::ActorNotRunning, || E::ActorStopped, || E::UnknownActor { actor_remote_id: "x".into() },
        || E::UnknownMessage { actor_remote_id: "x".into(), message_remote_id: "y".into() }, || E::BadActorType, || E::MailboxFull, || E::ReplyTimeout,
        || E::SerializeMessage("a".into()), || E::DeserializeMessage("b".into()), || E::SerializeReply("c".into()), || E::SerializeHandlerError("d".into()),
        || E::DeserializeHandlerError("e".into()), || E::SwarmNotBootstrapped, || E::DialFailure, || E::NetworkTimeout, || E::ConnectionClosed, || E::UnsupportedProtocols,
    ];
    let n = Rc::new(RefCell::new(0));
    let (all2, n2) = (all.clone(), n.clone());
    let (_, _p) = net::with_known_peer(
        Box::new(move |r| {
            let e = all2[*n2.borrow()]();
            match r {
                SwarmRequest::Ask { .. } => Some(SwarmResponse::Ask(Err(e))),
                SwarmRequest::Tell { .. } => Some(SwarmResponse::Tell(Err(e.map_err(|_| unreachable!())))),
                _ => None,
            }
        }),
        |p| vec![("c".into(), net::registration(77, p, "replay::Counter"))],
    )
    .await;
    let r = RemoteActorRef::<Counter>::lookup("c").await.map_err(|e| e.to_string())?.ok_or("not found")?;
    for (i, e) in all.iter().enumerate() {
        *n.borrow_mut() = i;
        same!(r.ask(&Add(2)).await.map_err(|e| format!("{e:?}")), Err::<i64, _>(format!("{:?}", e())), "ask, failure {i}");
        same!(r.tell(&Add(2)).await.map_err(|e| format!("{e:?}")), Err::<(), _>(format!("{:?}", e())), "tell, failure {i}");
    }
    Ok(())
}

/// many requests at once: each gets the answer to what it asked
async fn many_at_once() -> Res {
    let (_, _p) = net::with_known_peer(
        Box::new(|r| match r {
            SwarmRequest::Ask { payload, .. } => Some(SwarmResponse::Ask(Ok(payload))),
            _ => None,
        }),
        |p| vec![("c".into(), net::registration(77, p, "replay::Counter"))],
    )
    .await;
    let r = RemoteActorRef::<Counter>::lookup("c").await.map_err(|e| e.to_string())?.ok_or("not found")?;
    same!(r.ask(&Add(7)).await, Ok::<i64, RemoteSendError<TooBig>>(7), "the first ask connects");
    let asks: Vec<_> = (0..60).map(|i| { let r = r.clone(); async move { r.ask(&Add(i * 1000)).await } }).collect();
    for (i, x) in futures::future::join_all(asks).await.into_iter().enumerate() {
        same!(x, Ok::<i64, RemoteSendError<TooBig>>(i as i64 * 1000), "ask {i}");
    }
    Ok(())
}

crate::scenarios! {
    "C20" messages_of_any_size;
    "C20" messages_of_any_size_between_nodes;
    "C20" failures_of_another_node;
    "C20" many_at_once;
    "C20" an_actor_of_this_node;
    "C20" an_actor_of_this_node_while_a_peer_is_connected;
    "C20" an_actor_of_a_node_not_connected_yet;
    "C20" requests_of_another_node;
}
