//! C23: what the macros generate, for the uses in /verif/uses.
use crate::{ensure, net, same, Res};
use kameo::{
    actor::{Actor, RemoteActorRef},
    error::{ActorStopReason, RemoteSendError, SendError},
    remote::{RemoteActor, SwarmRequest, SwarmResponse},
    Reply,
};
use uses::{actor_table::Door, derives::*, message_table, msgs, msgs::*, other_actor_table::Window, other_message_table};

async fn names_and_replies() -> Res {
    same!((Plain::name(), Named::name(), Generic::<u8, 2>::name(), Bounded::<u8>::name()), ("Plain", "named otherwise", "Generic", "generic otherwise"), "names");
    same!((Plain::REMOTE_ID, Named::REMOTE_ID, Door::REMOTE_ID, Window::REMOTE_ID), ("uses::derives::Plain", "reached otherwise", "uses::actor_table::Door", "the window"), "ids");
    let a = || Answer { yes: true, why: "so".into() };
    same!((a().to_result(), a().into_any_err().is_none(), a().into_value()), (Ok::<_, ()>(a()), true, a()), "a derived reply");
    let e = || Either::<u8, String>::Right("r".into());
    same!((e().to_result(), e().into_any_err().is_none(), e().into_value()), (Ok::<_, ()>(e()), true, e()), "a derived reply");
    let p = kameo::spawn(Plain);
    p.wait_for_startup().await;
    ensure!(p.is_alive(), "a derived actor runs");
    p.stop_gracefully().await.map_err(|e| e.to_string())?;
    p.wait_for_shutdown().await;
    Ok(())
}

async fn messages_are_calls() -> Res {
    let d = kameo::spawn(Desk::default());
    same!(d.ask(Ring).await, Ok::<_, SendError<Ring>>(()), "ring");
    same!(d.ask(Note { text: "t".into() }).await.map_err(|_| ()), Ok::<_, ()>(2), "note");
    same!(d.ask(Count).await.map_err(|_| ()), Ok::<_, ()>(2), "count");
    let w = Weigh { first: 1, second: 2, third: 3, fourth: 4 };
    same!(w, w.clone(), "attributes of a message");
    same!(d.ask(w).await.map_err(|_| ()), Ok::<_, ()>(1234), "weigh");
    same!(d.ask(Many { zulu: 1, yankee: 2, alpha: 3, mike: 4, lima: 5, bravo: 6, kilo: 7, tango: 8, delta: 9, xray: 10, echo: 11, papa: 12 }).await.map_err(|_| ()), Ok::<_, ()>([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]), "many");
    same!(d.ask(ManyLater { mike: 1, zulu: 2, alpha: 3, tango: 4, bravo: 5, lima: 6, kilo: 7 }).await.map_err(|_| ()), Ok::<_, ()>([1, 2, 3, 4, 5, 6, 7]), "many_later");
    same!(d.ask(Later { name: "x".into(), delay: 3 }.clone()).await.map_err(|_| ()), Ok::<_, ()>(("x".to_string(), 3)), "later");
    ensure!(matches!(d.ask(Later { name: "x".into(), delay: 30 }).await, Err(SendError::HandlerError(30))), "later that fails");
    same!(d.ask(Soon).await.map_err(|_| ()), Ok::<_, ()>(()), "soon");
    same!(msgs::own(&d, 10, 3).await, 13, "own");
    same!(msgs::within(&d, (1, 2), (3, 4)).await, Some((1, 4)), "within");
    same!(d.ask(Typed { one: 3u8, two: 4u8 }).await.map_err(|_| ()), Ok::<_, ()>(34), "typed");
    same!(d.ask(Bound { one: 5u8, two: 6 }).await.map_err(|_| ()), Ok::<_, ()>(56), "bound");
    same!(d.ask(LastOne { left: vec![1, 2], right: vec![3] }).await.map_err(|_| ()), Ok::<_, ()>(vec![1, 2, 3]), "last_one");
    same!(d.ask(Count).await.map_err(|_| ()), Ok::<_, ()>(4), "count");
    let s = kameo::spawn(Shelf::<u8, String> { a: vec![], b: vec![] });
    same!(s.ask(PutA { item: 1 }).await.map_err(|_| ()), Ok::<_, ()>(1), "put_a");
    same!(s.ask(PutBoth { b: "b".to_string(), a: 2u8 }).await.map_err(|_| ()), Ok::<_, ()>(3), "put_both");
    same!(s.ask(PutMany { two: "b".to_string(), one: 2u8, four: "b".into(), three: 3, six: 4, five: "b".into() }).await.map_err(|_| ()), Ok::<_, ()>(vec![5, 4]), "put_many");
    same!(s.ask(Size { of_a: true, of_b: false }).await.map_err(|_| ()), Ok::<_, ()>(5), "size");
    same!(s.ask(Size { of_a: false, of_b: true }).await.map_err(|_| ()), Ok::<_, ()>(4), "size");
    let e = kameo::spawn(Echo(7u8));
    same!(e.ask(Get).await.map_err(|_| ()), Ok::<_, ()>(7), "get");
    same!(e.ask(Pick { keep: false, other: 8 }).await.map_err(|_| ()), Ok::<_, ()>(8), "pick");
    same!(e.ask(Nth { n: 1, of: 2 }).await.map_err(|_| ()), Ok::<_, ()>(7), "nth");
    same!(e.ask(First { of: vec![9, 10], or: None }).await.map_err(|_| ()), Ok::<_, ()>(Some(2)), "first");
    same!(e.ask(Get).await.map_err(|_| ()), Ok::<_, ()>(9), "get");
    // an error that nobody asked for reaches on_panic of the derived actor, which stops with it
    d.tell(Later { name: "x".into(), delay: 30 }).await.map_err(|_| "tell")?;
    let r = d.wait_for_shutdown_result().await;
    ensure!(r.is_ok(), "stopped: {r:?}");
    let _ = ActorStopReason::Normal;
    Ok(())
}

async fn tables() -> Res {
    let (_, p) = net::with_peer(Box::new(|_| None)).await;
    let (d, w) = (kameo::spawn(Door(0)), kameo::spawn(Window(0)));
    d.register("d").await.map_err(|e| e.to_string())?;
    w.register("w").await.map_err(|e| e.to_string())?;
    let rd = RemoteActorRef::<Door>::lookup("d").await.map_err(|e| e.to_string())?.ok_or("not found")?;
    let rw = RemoteActorRef::<Window>::lookup("w").await.map_err(|e| e.to_string())?.ok_or("not found")?;
    same!(rd.ask(&message_table::Open { by: 1 }).await, Ok::<u64, RemoteSendError<kameo::error::Infallible>>(1), "ask");
    same!(rd.ask(&message_table::Open { by: 1 }).try_send().await, Ok::<u64, RemoteSendError<kameo::error::Infallible>>(2), "try ask");
    same!(rd.tell(&message_table::Open { by: 1 }).await, Ok::<(), RemoteSendError>(()), "tell");
    same!(rd.tell(&message_table::Open { by: 1 }).try_send().await, Ok::<(), RemoteSendError>(()), "try tell");
    same!(rw.ask(&other_message_table::Open(10)).await, Ok::<u64, RemoteSendError<String>>(10), "ask");
    same!(rw.tell(&other_message_table::Open(10)).await, Ok::<(), RemoteSendError>(()), "tell");
    same!(rd.ask(&message_table::Open { by: 0 }).await, Ok::<u64, RemoteSendError<kameo::error::Infallible>>(4), "all arrived");
    same!(rw.ask(&other_message_table::Open(0)).await, Ok::<u64, RemoteSendError<String>>(20), "all arrived");
    for (ty, msg, ok) in [("uses::actor_table::Door", "open the door", true), ("uses::actor_table::Door", "open the window", false), ("the window", "open the window", false), ("uses::other_actor_table::Window", "open the window", false)] {
        let r = p.request(SwarmRequest::Tell { actor_id: d.id(), actor_remote_id: ty.into(), message_remote_id: msg.into(), payload: vec![145, 0], mailbox_timeout: None, immediate: false }).await?;
        ensure!(matches!(r, SwarmResponse::Tell(Ok(()))) == ok, "{ty} / {msg}: {r:?}");
    }
    let d2 = kameo::spawn(Door(0));
    d2.register("d2").await.map_err(|e| e.to_string())?;
    let rd2 = RemoteActorRef::<Door>::lookup("d2").await.map_err(|e| e.to_string())?.ok_or("not found")?;
    same!(d.link_remote(&rw).await, Ok::<(), RemoteSendError>(()), "link d w");
    same!(d.link_remote(&rd2).await, Ok::<(), RemoteSendError>(()), "link d d2");
    same!(d.unlink_remote(&rw).await, Ok::<(), RemoteSendError>(()), "unlink d w");
    d.kill();
    d.wait_for_shutdown().await;
    let over = tokio::time::timeout(std::time::Duration::from_secs(2), d2.wait_for_shutdown()).await;
    ensure!(over.is_ok(), "a linked actor does not stop with the one it is linked with");
    tokio::time::sleep(std::time::Duration::from_millis(50)).await;
    ensure!(w.is_alive(), "an unlinked actor stopped");
    Ok(())
}

crate::scenarios! {
    "C23" names_and_replies;
    "C23" messages_are_calls;
    "C23" tables;
}
