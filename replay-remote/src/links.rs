//! C21: links across nodes.
use crate::{ensure, net, same, Res};
use kameo::{
    actor::{ActorID, ActorRef, RemoteActorRef, WeakActorRef},
    error::{ActorStopReason, Infallible, RemoteSendError},
    message::{Context, Message},
    remote::{ActorSwarmEvent, SwarmRequest, SwarmResponse},
    Actor, RemoteActor,
};
use std::{cell::RefCell, ops::ControlFlow, rc::Rc, time::Duration};

#[derive(RemoteActor)]
#[remote_actor(id = "replay::Node")]
pub struct Node(Vec<(ActorID, String)>);
impl Actor for Node {
    type Error = Infallible;
    async fn on_link_died(&mut self, _: WeakActorRef<Self>, id: ActorID, reason: ActorStopReason) -> Result<ControlFlow<ActorStopReason>, Infallible> {
        self.0.push((id, format!("{reason:?}")));
        Ok(ControlFlow::Continue(()))
    }
}
pub struct Died;
impl Message<Died> for Node {
    type Reply = Vec<(ActorID, String)>;
    async fn handle(&mut self, _: Died, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
        self.0.clone()
    }
}

#[derive(RemoteActor)]
#[remote_actor(id = "replay::Other")]
pub struct Other(Vec<(ActorID, String)>);
impl Actor for Other {
    type Error = Infallible;
    async fn on_link_died(&mut self, _: WeakActorRef<Self>, id: ActorID, reason: ActorStopReason) -> Result<ControlFlow<ActorStopReason>, Infallible> {
        self.0.push((id, format!("{reason:?}")));
        Ok(ControlFlow::Continue(()))
    }
}
impl Message<Died> for Other {
    type Reply = Vec<(ActorID, String)>;
    async fn handle(&mut self, _: Died, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
        self.0.clone()
    }
}

fn mk() -> ActorRef<Node> {
    kameo::spawn(Node(vec![]))
}

async fn died(a: &ActorRef<Node>) -> Vec<(ActorID, String)> {
    a.ask(Died).await.unwrap()
}

/// what the actor has been told once there are `n` notifications, or after a second
async fn died_n(a: &ActorRef<Node>, n: usize) -> Vec<(ActorID, String)> {
    for _ in 0..100 {
        if died(a).await.len() >= n {
            break;
        }
        tokio::time::sleep(Duration::from_millis(10)).await;
    }
    tokio::time::sleep(Duration::from_millis(30)).await;
    died(a).await
}

async fn remote(n: &str) -> Result<RemoteActorRef<Node>, String> {
    RemoteActorRef::<Node>::lookup(n).await.map_err(|e| e.to_string())?.ok_or("not found".to_string())
}

async fn two_actors_of_this_node() -> Res {
    net::run();
    let (a, b, c) = (mk(), mk(), mk());
    for (r, n) in [(&a, "a"), (&b, "b"), (&c, "c")] {
        r.register(n).await.map_err(|e| e.to_string())?;
    }
    let (ra, rb, rc) = (remote("a").await?, remote("b").await?, remote("c").await?);
    same!(a.link_remote(&rb).await, Ok::<(), RemoteSendError>(()), "link a b");
    same!(ra.link_remote(&rc).await, Ok::<(), RemoteSendError>(()), "link a c");
    same!(b.link_remote(&rc).await, Ok::<(), RemoteSendError>(()), "link b c");
    same!(rb.unlink_remote(&rc).await, Ok::<(), RemoteSendError>(()), "unlink b c");
    a.kill();
    same!(died_n(&b, 1).await, vec![(a.id(), "Killed".to_string())], "b was told of a");
    same!(died_n(&c, 1).await, vec![(a.id(), "Killed".to_string())], "c was told of a");
    b.kill();
    b.wait_for_shutdown().await;
    same!(died_n(&c, 2).await, vec![(a.id(), "Killed".to_string())], "c was unlinked from b");
    Ok(())
}

async fn two_types_of_actor() -> Res {
    net::run();
    let (a, b) = (mk(), mk());
    let (o, q) = (kameo::spawn(Other(vec![])), kameo::spawn(Other(vec![])));
    for (r, n) in [(&a, "a"), (&b, "b")] {
        r.register(n).await.map_err(|e| e.to_string())?;
    }
    for (r, n) in [(&o, "o"), (&q, "q")] {
        r.register(n).await.map_err(|e| e.to_string())?;
    }
    let (ra, rb) = (remote("a").await?, remote("b").await?);
    let ro = RemoteActorRef::<Other>::lookup("o").await.map_err(|e| e.to_string())?.ok_or("not found")?;
    let rq = RemoteActorRef::<Other>::lookup("q").await.map_err(|e| e.to_string())?.ok_or("not found")?;
    same!(ra.link_remote(&ro).await, Ok::<(), RemoteSendError>(()), "link a o");
    same!(rb.link_remote(&ro).await, Ok::<(), RemoteSendError>(()), "link b o");
    same!(rq.link_remote(&ra).await, Ok::<(), RemoteSendError>(()), "link q a");
    same!(rq.link_remote(&rb).await, Ok::<(), RemoteSendError>(()), "link q b");
    same!(rb.unlink_remote(&ro).await, Ok::<(), RemoteSendError>(()), "unlink b o");
    same!(rq.unlink_remote(&ra).await, Ok::<(), RemoteSendError>(()), "unlink q a");
    o.kill();
    same!(died_n(&a, 1).await, vec![(o.id(), "Killed".to_string())], "a was told of o");
    same!(died(&b).await.len(), 0, "b was unlinked from o");
    b.kill();
    for _ in 0..100 {
        if q.ask(Died).await.unwrap().len() == 1 {
            break;
        }
        tokio::time::sleep(Duration::from_millis(10)).await;
    }
    same!(q.ask(Died).await.unwrap(), vec![(b.id(), "Killed".to_string())], "q was told of b");
    a.kill();
    a.wait_for_shutdown().await;
    tokio::time::sleep(Duration::from_millis(30)).await;
    same!(q.ask(Died).await.unwrap().len(), 1, "q was unlinked from a");
    Ok(())
}

async fn while_a_peer_is_connected() -> Res {
    let (_, _p) = net::with_peer(Box::new(|_| None)).await;
    let (a, b) = (mk(), mk());
    for (r, n) in [(&a, "a"), (&b, "b")] {
        r.register(n).await.map_err(|e| e.to_string())?;
    }
    let rb = remote("b").await?;
    same!(a.link_remote(&rb).await, Ok::<(), RemoteSendError>(()), "link a b");
    a.kill();
    same!(died_n(&b, 1).await, vec![(a.id(), "Killed".to_string())], "b was told of a");
    let c = mk();
    same!(c.link_remote(&rb).await, Ok::<(), RemoteSendError>(()), "link c b");
    same!(c.unlink_remote(&rb).await, Ok::<(), RemoteSendError>(()), "unlink c b");
    c.kill();
    c.wait_for_shutdown().await;
    same!(died_n(&b, 2).await.len(), 1, "b was unlinked from c");
    Ok(())
}

async fn an_actor_of_another_node() -> Res {
    let log = Rc::new(RefCell::new(vec![]));
    let l = log.clone();
    let answer: net::Answer = Box::new(move |r| {
        let (t, r) = match r {
            SwarmRequest::Link { actor_id, actor_remote_id, sibbling_id, sibbling_remote_id } => (format!("link {} {actor_remote_id} {} {sibbling_remote_id}", actor_id.sequence_id(), sibbling_id.sequence_id()), SwarmResponse::Link(Ok(()))),
            SwarmRequest::Unlink { actor_id, actor_remote_id, sibbling_id } => (format!("unlink {} {actor_remote_id} {}", actor_id.sequence_id(), sibbling_id.sequence_id()), SwarmResponse::Unlink(Err(RemoteSendError::ActorNotRunning))),
            SwarmRequest::SignalLinkDied { dead_actor_id, notified_actor_id, notified_actor_remote_id, stop_reason } => (format!("died {} {} {notified_actor_remote_id} {stop_reason:?}", dead_actor_id.sequence_id(), notified_actor_id.sequence_id()), SwarmResponse::SignalLinkDied(Ok(()))),
            _ => return None,
        };
        l.borrow_mut().push(t);
        Some(r)
    });
    let (_, _p) = net::with_known_peer(answer, |p| vec![("x".into(), net::registration(77, p, "replay::Node")), ("y".into(), net::registration(78, p, "replay::Node"))]).await;
    let (a, x, y) = (mk(), remote("x").await?, remote("y").await?);
    same!(a.link_remote(&x).await, Ok::<(), RemoteSendError>(()), "link a x");
    same!(a.link_remote(&y).await, Ok::<(), RemoteSendError>(()), "link a y");
    same!(a.unlink_remote(&y).await, Err::<(), RemoteSendError>(RemoteSendError::ActorNotRunning), "the answer to the unlink");
    a.kill();
    a.wait_for_shutdown().await;
    for _ in 0..100 {
        if log.borrow().len() >= 4 {
            break;
        }
        tokio::time::sleep(Duration::from_millis(10)).await;
    }
    let i = a.id().sequence_id();
    same!(log.borrow(), vec![format!("link 77 replay::Node {i} replay::Node"), format!("link 78 replay::Node {i} replay::Node"), format!("unlink 78 replay::Node {i}"), format!("died {i} 77 replay::Node Killed")], "what the peer was asked");
    Ok(())
}

async fn requests_of_another_node() -> Res {
    let (_, p) = net::with_peer(Box::new(|_| None)).await;
    let (a, b) = (mk(), mk());
    for (r, n) in [(&a, "a"), (&b, "b")] {
        r.register(n).await.map_err(|e| e.to_string())?;
    }
    let x = ActorID::new_with_peer_id(77, p.id);
    let link = |a: ActorID, rid: &'static str| SwarmRequest::Link { actor_id: a, actor_remote_id: rid.into(), sibbling_id: x, sibbling_remote_id: "replay::Node".into() };
    same!(p.request(link(a.id(), "replay::Node")).await, Ok::<_, String>(SwarmResponse::Link(Ok(()))), "link");
    same!(p.request(link(b.id(), "replay::Node")).await, Ok::<_, String>(SwarmResponse::Link(Ok(()))), "link");
    let r = p.request(link(a.id(), "replay::Nobody")).await?;
    ensure!(matches!(r, SwarmResponse::Link(Err(RemoteSendError::UnknownActor { .. }))), "link with an unknown type: {r:?}");
    let r = p.request(link(a.id(), "replay::Other")).await?;
    ensure!(matches!(r, SwarmResponse::Link(Err(RemoteSendError::BadActorType))), "link with another type: {r:?}");
    let r = p.request(link(ActorID::new(999999), "replay::Node")).await?;
    ensure!(matches!(r, SwarmResponse::Link(Err(RemoteSendError::ActorNotRunning))), "link with nobody: {r:?}");
    same!(p.request(SwarmRequest::Unlink { actor_id: b.id(), actor_remote_id: "replay::Node".into(), sibbling_id: x }).await, Ok::<_, String>(SwarmResponse::Unlink(Ok(()))), "unlink");
    let reason = ActorStopReason::LinkDied { id: a.id(), reason: Box::new(ActorStopReason::Killed) };
    same!(p.request(SwarmRequest::SignalLinkDied { dead_actor_id: x, notified_actor_id: a.id(), notified_actor_remote_id: "replay::Node".into(), stop_reason: reason.clone() }).await, Ok::<_, String>(SwarmResponse::SignalLinkDied(Ok(()))), "link died");
    same!(died_n(&a, 1).await, vec![(x, format!("{reason:?}"))], "a was told");
    same!(died(&b).await.len(), 0, "b was not");
    Ok(())
}

async fn the_connection_is_lost() -> Res {
    let (_, mut h, mut s) = net::manual();
    net::listen(&mut s).await;
    let p = net::peer(*s.local_peer_id(), Box::new(|_| None)).await;
    let q = net::peer(*s.local_peer_id(), Box::new(|_| None)).await;
    let lost = |p: &net::Peer, n| ActorSwarmEvent::ConnectionClosed {
        peer_id: p.id,
        connection_id: libp2p::swarm::ConnectionId::new_unchecked(1),
        endpoint: libp2p::core::ConnectedPoint::Listener { local_addr: p.addr.clone(), send_back_addr: p.addr.clone() },
        num_established: n,
        cause: None,
    };
    for x in [&p, &q] {
        s.add_peer_address(x.id, x.addr.clone());
        s.behaviour_mut().kademlia.add_address(&x.id, x.addr.clone());
        s.dial(x.addr.clone()).unwrap();
    }
    let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel::<ActorSwarmEvent>();
    tokio::task::spawn_local(async move {
        loop {
            tokio::select! {
                Some(e) = rx.recv() => h.handle_event(&mut s, e),
                _ = net::step(&mut h, &mut s) => {}
            }
        }
    });
    tokio::time::sleep(Duration::from_millis(300)).await;
    let (a, b, c) = (mk(), mk(), mk());
    for (r, n) in [(&a, "a"), (&b, "b"), (&c, "c")] {
        r.register(n).await.map_err(|e| e.to_string())?;
    }
    let (x, y) = (ActorID::new_with_peer_id(77, p.id), ActorID::new_with_peer_id(77, q.id));
    let link = |a: ActorID, x: ActorID| SwarmRequest::Link { actor_id: a, actor_remote_id: "replay::Node".into(), sibbling_id: x, sibbling_remote_id: "replay::Node".into() };
    same!(p.request(link(a.id(), x)).await, Ok::<_, String>(SwarmResponse::Link(Ok(()))), "link a x");
    same!(q.request(link(a.id(), y)).await, Ok::<_, String>(SwarmResponse::Link(Ok(()))), "link a y");
    same!(q.request(link(b.id(), y)).await, Ok::<_, String>(SwarmResponse::Link(Ok(()))), "link b y");
    tx.send(lost(&p, 1)).map_err(|_| "gone")?;
    tokio::time::sleep(Duration::from_millis(200)).await;
    same!(died(&a).await.len(), 0, "nothing while another connection remains");
    tx.send(lost(&p, 0)).map_err(|_| "gone")?;
    same!(died_n(&a, 1).await, vec![(x, "PeerDisconnected".to_string())], "a was told");
    same!(died(&b).await.len(), 0, "b is linked with another peer");
    tx.send(lost(&q, 0)).map_err(|_| "gone")?;
    same!(died_n(&b, 1).await, vec![(y, "PeerDisconnected".to_string())], "b was told");
    same!(died_n(&a, 2).await.len(), 2, "a was told of both");
    same!(died(&c).await.len(), 0, "c has no links");
    Ok(())
}

crate::scenarios! {
    "C21" two_actors_of_this_node;
    "C21" two_types_of_actor;
    "C21" while_a_peer_is_connected;
    "C21" an_actor_of_another_node;
    "C21" requests_of_another_node;
    "C21" the_connection_is_lost;
}
