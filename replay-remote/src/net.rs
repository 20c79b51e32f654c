//! A swarm behaviour without mdns, so that a scenario neither needs nor touches a real network: QUIC over the loopback only.
//! Scenarios named ...@real use kameo's own behaviour and loop instead (mdns ignores the loopback).
use std::{borrow::Cow, time::Duration};

use futures::StreamExt;
use kameo::{
    actor::ActorID,
    error::{ActorStopReason, Infallible, RemoteSendError},
    remote::{ActorSwarm, ActorSwarmBehaviour, ActorSwarmBehaviourEvent, ActorSwarmEvent, ActorSwarmHandler, SwarmBehaviour, SwarmRequest, SwarmResponse},
};
use libp2p::{
    identity::Keypair,
    kad::{self, store::{MemoryStore, RecordStore}},
    request_response::{self, OutboundRequestId, ProtocolSupport, ResponseChannel},
    swarm::{NetworkBehaviour, SwarmEvent},
    Multiaddr, PeerId, StreamProtocol, Swarm, SwarmBuilder,
};

#[derive(NetworkBehaviour)]
pub struct Net {
    pub kademlia: kad::Behaviour<MemoryStore>,
    pub request_response: request_response::cbor::Behaviour<SwarmRequest, SwarmResponse>,
}

impl Net {
    fn send(&mut self, peer: &PeerId, r: SwarmRequest) -> OutboundRequestId {
        self.request_response.send_request(peer, r)
    }
    fn answer(&mut self, c: ResponseChannel<SwarmResponse>, r: SwarmResponse) -> Result<(), SwarmResponse> {
        self.request_response.send_response(c, r)
    }
}

type Str = Cow<'static, str>;

impl SwarmBehaviour for Net {
    fn ask(&mut self, peer: &PeerId, actor_id: ActorID, actor_remote_id: Str, message_remote_id: Str, payload: Vec<u8>, mailbox_timeout: Option<Duration>, reply_timeout: Option<Duration>, immediate: bool) -> OutboundRequestId {
        self.send(peer, SwarmRequest::Ask { actor_id, actor_remote_id, message_remote_id, payload, mailbox_timeout, reply_timeout, immediate })
    }
    fn tell(&mut self, peer: &PeerId, actor_id: ActorID, actor_remote_id: Str, message_remote_id: Str, payload: Vec<u8>, mailbox_timeout: Option<Duration>, immediate: bool) -> OutboundRequestId {
        self.send(peer, SwarmRequest::Tell { actor_id, actor_remote_id, message_remote_id, payload, mailbox_timeout, immediate })
    }
    fn link(&mut self, actor_id: ActorID, actor_remote_id: Str, sibbling_id: ActorID, sibbling_remote_id: Str) -> OutboundRequestId {
        self.send(actor_id.peer_id().unwrap(), SwarmRequest::Link { actor_id, actor_remote_id, sibbling_id, sibbling_remote_id })
    }
    fn unlink(&mut self, actor_id: ActorID, actor_remote_id: Str, sibbling_id: ActorID) -> OutboundRequestId {
        self.send(actor_id.peer_id().unwrap(), SwarmRequest::Unlink { actor_id, actor_remote_id, sibbling_id })
    }
    fn signal_link_died(&mut self, dead_actor_id: ActorID, notified_actor_id: ActorID, notified_actor_remote_id: Str, stop_reason: ActorStopReason) -> OutboundRequestId {
        self.send(notified_actor_id.peer_id().unwrap(), SwarmRequest::SignalLinkDied { dead_actor_id, notified_actor_id, notified_actor_remote_id, stop_reason })
    }
    fn send_ask_response(&mut self, c: ResponseChannel<SwarmResponse>, r: Result<Vec<u8>, RemoteSendError<Vec<u8>>>) -> Result<(), SwarmResponse> {
        self.answer(c, SwarmResponse::Ask(r))
    }
    fn send_tell_response(&mut self, c: ResponseChannel<SwarmResponse>, r: Result<(), RemoteSendError>) -> Result<(), SwarmResponse> {
        self.answer(c, SwarmResponse::Tell(r))
    }
    fn send_link_response(&mut self, c: ResponseChannel<SwarmResponse>, r: Result<(), RemoteSendError<Infallible>>) -> Result<(), SwarmResponse> {
        self.answer(c, SwarmResponse::Link(r))
    }
    fn send_unlink_response(&mut self, c: ResponseChannel<SwarmResponse>, r: Result<(), RemoteSendError<Infallible>>) -> Result<(), SwarmResponse> {
        self.answer(c, SwarmResponse::Unlink(r))
    }
    fn send_signal_link_died_response(&mut self, c: ResponseChannel<SwarmResponse>, r: Result<(), RemoteSendError<Infallible>>) -> Result<(), SwarmResponse> {
        self.answer(c, SwarmResponse::SignalLinkDied(r))
    }
    fn kademlia_add_address(&mut self, peer: &PeerId, a: Multiaddr) -> kad::RoutingUpdate {
        self.kademlia.add_address(peer, a)
    }
    fn kademlia_set_mode(&mut self, m: Option<kad::Mode>) {
        self.kademlia.set_mode(m)
    }
    fn kademlia_get_record(&mut self, k: kad::RecordKey) -> kad::QueryId {
        self.kademlia.get_record(k)
    }
    fn kademlia_get_record_local(&mut self, k: &kad::RecordKey) -> Option<Cow<'_, kad::Record>> {
        self.kademlia.store_mut().get(k)
    }
    fn kademlia_put_record(&mut self, r: kad::Record, q: kad::Quorum) -> Result<kad::QueryId, kad::store::Error> {
        self.kademlia.put_record(r, q)
    }
    fn kademlia_put_record_local(&mut self, r: kad::Record) -> Result<(), kad::store::Error> {
        self.kademlia.store_mut().put(r)
    }
    fn kademlia_remove_record(&mut self, k: &kad::RecordKey) {
        self.kademlia.remove_record(k)
    }
    fn kademlia_remove_record_local(&mut self, k: &kad::RecordKey) {
        self.kademlia.store_mut().remove(k)
    }
}

pub fn swarm() -> Swarm<Net> {
    let key = Keypair::generate_ed25519();
    let id = key.public().to_peer_id();
    let b = Net {
        kademlia: kad::Behaviour::new(id, MemoryStore::new(id)),
        request_response: request_response::cbor::Behaviour::new([(StreamProtocol::new("/kameo/1"), ProtocolSupport::Full)], request_response::Config::default()),
    };
    let mut b = b;
    b.kademlia.set_mode(Some(kad::Mode::Server));
    SwarmBuilder::with_existing_identity(key).with_tokio().with_quic().with_behaviour(|_| Ok(b)).unwrap().with_swarm_config(|c| c.with_idle_connection_timeout(Duration::from_secs(60))).build()
}

/// this process's actor swarm, its handler and the libp2p swarm to drive it with
pub fn manual() -> (&'static ActorSwarm, ActorSwarmHandler, Swarm<Net>) {
    let s = swarm();
    let (a, h) = ActorSwarm::bootstrap_manual(*s.local_peer_id()).expect("bootstrapped twice");
    (a, h, s)
}

/// one round: a command or an event, whichever is first
pub async fn step(h: &mut ActorSwarmHandler, s: &mut Swarm<Net>) {
    tokio::select! {
        c = h.next_command() => h.handle_command(s, c.unwrap()),
        e = s.select_next_some() => event(h, s, e),
    }
}

pub fn event(h: &mut ActorSwarmHandler, s: &mut Swarm<Net>, e: SwarmEvent<NetEvent>) {
    match e {
        SwarmEvent::ConnectionClosed { peer_id, connection_id, endpoint, num_established, cause } => h.handle_event(s, ActorSwarmEvent::ConnectionClosed { peer_id, connection_id, endpoint, num_established, cause }),
        SwarmEvent::Behaviour(NetEvent::Kademlia(e)) => h.handle_event(s, ActorSwarmEvent::Behaviour(ActorSwarmBehaviourEvent::Kademlia(e))),
        SwarmEvent::Behaviour(NetEvent::RequestResponse(e)) => h.handle_event(s, ActorSwarmEvent::Behaviour(ActorSwarmBehaviourEvent::RequestResponse(e))),
        _ => {}
    }
}

pub static REAL: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn is_real() -> bool {
    REAL.load(std::sync::atomic::Ordering::SeqCst)
}

/// kameo's own network behaviour
pub fn real_swarm() -> Swarm<ActorSwarmBehaviour> {
    let key = Keypair::generate_ed25519();
    let mut b = ActorSwarmBehaviour::new(&key).unwrap();
    b.kademlia.set_mode(Some(kad::Mode::Server));
    SwarmBuilder::with_existing_identity(key).with_tokio().with_quic().with_behaviour(|_| Ok(b)).unwrap().with_swarm_config(|c| c.with_idle_connection_timeout(Duration::from_secs(60))).build()
}

async fn listen_real(s: &mut Swarm<ActorSwarmBehaviour>) {
    s.listen_on("/ip4/127.0.0.1/udp/0/quic-v1".parse().unwrap()).unwrap();
    while !matches!(s.select_next_some().await, SwarmEvent::NewListenAddr { .. }) {}
}

/// runs the swarm in the background
pub fn run() -> &'static ActorSwarm {
    if is_real() {
        return ActorSwarm::bootstrap_with_swarm(real_swarm()).ok().expect("bootstrapped twice");
    }
    let (a, mut h, mut s) = manual();
    tokio::task::spawn_local(async move {
        loop {
            step(&mut h, &mut s).await
        }
    });
    a
}

/// listens on the loopback, returns the address
pub async fn listen(s: &mut Swarm<Net>) -> Multiaddr {
    s.listen_on("/ip4/127.0.0.1/udp/0/quic-v1".parse().unwrap()).unwrap();
    loop {
        if let SwarmEvent::NewListenAddr { address, .. } = s.select_next_some().await {
            return address;
        }
    }
}

pub type Answer = Box<dyn FnMut(SwarmRequest) -> Option<SwarmResponse>>;
pub type Ask = (SwarmRequest, tokio::sync::oneshot::Sender<Result<SwarmResponse, String>>);

/// another node: a bare libp2p swarm that answers as it is told
pub struct Peer {
    pub id: PeerId,
    pub addr: Multiaddr,
    pub tx: tokio::sync::mpsc::UnboundedSender<Ask>,
}

impl Peer {
    /// sends a request to this process's swarm
    pub async fn request(&self, r: SwarmRequest) -> Result<SwarmResponse, String> {
        let (tx, rx) = tokio::sync::oneshot::channel();
        self.tx.send((r, tx)).map_err(|_| "peer gone".to_string())?;
        rx.await.map_err(|_| "no answer".to_string())?
    }
}

pub async fn peer(target: PeerId, mut answer: Answer) -> Peer {
    let mut s = swarm();
    let addr = listen(&mut s).await;
    let id = *s.local_peer_id();
    let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel::<Ask>();
    tokio::task::spawn_local(async move {
        let mut waiting = std::collections::HashMap::new();
        loop {
            tokio::select! {
                Some((r, tx)) = rx.recv() => {
                    let id = s.behaviour_mut().request_response.send_request(&target, r);
                    waiting.insert(id, tx);
                }
                e = s.select_next_some() => if let SwarmEvent::Behaviour(NetEvent::RequestResponse(e)) = e {
                    match e {
                        request_response::Event::Message { message: request_response::Message::Request { request, channel, .. }, .. } => {
                            if let Some(r) = answer(request) {
                                let _ = s.behaviour_mut().request_response.send_response(channel, r);
                            }
                        }
                        request_response::Event::Message { message: request_response::Message::Response { request_id, response }, .. } => {
                            if let Some(tx) = waiting.remove(&request_id) {
                                let _ = tx.send(Ok(response));
                            }
                        }
                        request_response::Event::OutboundFailure { request_id, error, .. } => {
                            if let Some(tx) = waiting.remove(&request_id) {
                                let _ = tx.send(Err(error.to_string()));
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
    });
    Peer { id, addr, tx }
}

/// this process's swarm in the background, connected to another node
pub async fn with_peer(answer: Answer) -> (&'static ActorSwarm, Peer) {
    if is_real() {
        let mut s = real_swarm();
        listen_real(&mut s).await;
        let p = peer(*s.local_peer_id(), answer).await;
        s.add_peer_address(p.id, p.addr.clone());
        s.behaviour_mut().kademlia.add_address(&p.id, p.addr.clone());
        s.dial(p.addr.clone()).unwrap();
        while s.network_info().num_peers() == 0 {
            s.select_next_some().await;
        }
        return (ActorSwarm::bootstrap_with_swarm(s).ok().expect("bootstrapped twice"), p);
    }
    let (a, mut h, mut s) = manual();
    listen(&mut s).await;
    let p = peer(*s.local_peer_id(), answer).await;
    s.add_peer_address(p.id, p.addr.clone());
    s.behaviour_mut().kademlia.add_address(&p.id, p.addr.clone());
    s.dial(p.addr.clone()).unwrap();
    while s.network_info().num_peers() == 0 {
        let e = s.select_next_some().await;
        event(&mut h, &mut s, e);
    }
    tokio::task::spawn_local(async move {
        loop {
            step(&mut h, &mut s).await
        }
    });
    (a, p)
}

/// this process's swarm in the background, which knows the address of another node without being connected to it
pub async fn with_known_peer(answer: Answer, mk: impl Fn(PeerId) -> Vec<(String, Vec<u8>)>) -> (&'static ActorSwarm, Peer) {
    if is_real() {
        let mut s = real_swarm();
        listen_real(&mut s).await;
        let p = peer(*s.local_peer_id(), answer).await;
        s.add_peer_address(p.id, p.addr.clone());
        for (n, b) in mk(p.id) {
            s.behaviour_mut().kademlia.store_mut().put(kad::Record::new(n.into_bytes(), b)).unwrap();
        }
        return (ActorSwarm::bootstrap_with_swarm(s).ok().expect("bootstrapped twice"), p);
    }
    let (a, mut h, mut s) = manual();
    listen(&mut s).await;
    let p = peer(*s.local_peer_id(), answer).await;
    s.add_peer_address(p.id, p.addr.clone());
    for (n, b) in mk(p.id) {
        s.behaviour_mut().kademlia.store_mut().put(kad::Record::new(n.into_bytes(), b)).unwrap();
    }
    tokio::task::spawn_local(async move {
        loop {
            step(&mut h, &mut s).await
        }
    });
    (a, p)
}

/// the bytes of the registration of an actor
pub fn registration(seq: u64, peer: PeerId, rid: &str) -> Vec<u8> {
    let p = peer.to_bytes();
    [vec![p.len() as u8], seq.to_le_bytes().to_vec(), p, rid.as_bytes().to_vec()].concat()
}
