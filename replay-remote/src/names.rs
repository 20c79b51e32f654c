//! C12: names registered in the swarm.
use crate::{ensure, net, same, Res};
use kameo::{
    actor::{ActorRef, RemoteActorRef},
    error::{Infallible, RegistryError},
    remote::RemoteActor,
    Actor,
};
use libp2p::kad::{store::RecordStore, Record};

pub struct A;
impl Actor for A {
    type Error = Infallible;
}
impl RemoteActor for A {
    const REMOTE_ID: &'static str = "replay::A";
}
pub struct B;
impl Actor for B {
    type Error = Infallible;
}
impl RemoteActor for B {
    const REMOTE_ID: &'static str = "replay::B";
}

async fn names_lead_to_their_actors() -> Res {
    net::run();
    let (a, b) = (kameo::spawn(A), kameo::spawn(A));
    same!(ActorRef::<A>::lookup("a").await.map(|r| r.is_some()), Ok::<_, RegistryError>(false), "a name nobody registered");
    same!(a.register("a").await, Ok::<_, RegistryError>(()), "register");
    same!(b.register("b").await, Ok::<_, RegistryError>(()), "register");
    same!(ActorRef::<A>::lookup("a").await.map(|r| r.map(|r| r.id())), Ok::<_, RegistryError>(Some(a.id())), "lookup of a");
    same!(ActorRef::<A>::lookup("b").await.map(|r| r.map(|r| r.id())), Ok::<_, RegistryError>(Some(b.id())), "lookup of b");
    same!(ActorRef::<B>::lookup("a").await.map(|r| r.is_some()), Err::<(), _>(RegistryError::BadActorType), "lookup with another type");
    same!(b.register("a").await, Ok::<_, RegistryError>(()), "register again");
    same!(ActorRef::<A>::lookup("a").await.map(|r| r.map(|r| r.id())), Ok::<_, RegistryError>(Some(b.id())), "lookup of a re-registered name");
    same!(kameo::remote::ActorSwarm::get().unwrap().unregister("a".into()).await, Ok::<_, RegistryError>(()), "unregister");
    same!(ActorRef::<A>::lookup("a").await.map(|r| r.is_some()), Ok::<_, RegistryError>(false), "lookup of a removed name");
    same!(ActorRef::<A>::lookup("b").await.map(|r| r.map(|r| r.id())), Ok::<_, RegistryError>(Some(b.id())), "another name");
    Ok(())
}

/// a name is any text, taken as it is
async fn any_name() -> Res {
    net::run();
    let names = ["".to_string(), " ".into(), "a".into(), "A".into(), " a".into(), "a ".into(), "a b".into(), "a/b".into(), "a\0".into(), "ä".into(), "a\u{308}".into(), "名前".into(), "/providers/x".into(), "x".repeat(300)];
    let mut ids = vec![];
    for n in &names {
        let a = kameo::spawn(A);
        same!(a.register(n).await, Ok::<_, RegistryError>(()), "register {n:?}");
        ids.push(a);
    }
    for (n, a) in names.iter().zip(&ids) {
        same!(ActorRef::<A>::lookup(n).await.map(|r| r.map(|r| r.id())), Ok::<_, RegistryError>(Some(a.id())), "lookup of {n:?}");
        same!(RemoteActorRef::<A>::lookup(n).await.map(|r| r.map(|r| r.id())), Ok::<_, RegistryError>(Some(a.id())), "remote lookup of {n:?}");
    }
    same!(ActorRef::<A>::lookup("b").await.map(|r| r.is_some()), Ok::<_, RegistryError>(false), "a name nobody registered");
    Ok(())
}

async fn a_full_store_is_an_error() -> Res {
    net::run();
    let a = kameo::spawn(A);
    for i in 0..1100 {
        let r = a.register(&format!("n{i}")).await;
        ensure!(r.is_ok() || i >= 1000, "registration {i} failed: {r:?}");
    }
    same!(ActorRef::<A>::lookup("n1").await.map(|r| r.map(|r| r.id())), Ok::<_, RegistryError>(Some(a.id())), "lookup after the store was full");
    Ok(())
}

async fn a_bad_record_is_no_actor() -> Res {
    let (_, mut h, mut s) = net::manual();
    let bad: Vec<Vec<u8>> = vec![vec![], vec![0], vec![255], vec![0; 8], vec![1; 12], vec![38; 60], [vec![0u8; 9], vec![0xff, 0xfe]].concat()];
    for (i, b) in bad.iter().enumerate() {
        s.behaviour_mut().kademlia.store_mut().put(Record::new(format!("bad{i}").into_bytes(), b.clone())).unwrap();
    }
    tokio::task::spawn_local(async move {
        loop {
            net::step(&mut h, &mut s).await
        }
    });
    for i in 0..bad.len() {
        same!(ActorRef::<A>::lookup(&format!("bad{i}")).await.map(|r| r.is_some()), Ok::<_, RegistryError>(false), "lookup of bad record {:?}", bad[i]);
        same!(RemoteActorRef::<A>::lookup(&format!("bad{i}")).await.map(|r| r.is_some()), Ok::<_, RegistryError>(false), "remote lookup of bad record {:?}", bad[i]);
    }
    Ok(())
}

async fn without_a_swarm() -> Res {
    let a = kameo::spawn(A);
    same!(a.register("a").await, Err::<(), _>(RegistryError::SwarmNotBootstrapped), "register");
    same!(ActorRef::<A>::lookup("a").await.map(|r| r.is_some()), Err::<(), _>(RegistryError::SwarmNotBootstrapped), "lookup");
    same!(RemoteActorRef::<A>::lookup("a").await.map(|r| r.is_some()), Err::<(), _>(RegistryError::SwarmNotBootstrapped), "remote lookup");
    Ok(())
}

crate::scenarios! {
    "C12" names_lead_to_their_actors;
    "C12" any_name;
    "C12" a_full_store_is_an_error;
    "C12" a_bad_record_is_no_actor;
    "C12" without_a_swarm;
}
