use crate::{ensure, same, scenarios, util::*, Res};
use kameo::{
    actor::{ActorID, ActorRef},
    error::{ActorIDFromBytesError, Infallible, PanicError, SendError},
    mailbox,
    message::{Context, Message},
    reply::{DelegatedReply, ForwardedReply, ReplySender},
    Actor,
};
use std::time::Duration;

scenarios! {
    "C09" reply_direct;
    "C09" reply_delegated;
    "C09" reply_sender_taken;
    "C09" reply_sender_dropped;
    "C09" reply_error_to_asker_only;
    "C09" forward_ok_and_err;
    "C09" forward_nested;
    "C09" forward_undelivered;
    "C09" forward_full;
    "C09" forward_tell;
    "C10" error_maps;
    "C10" error_boxes;
    "C10" error_flatten;
    "C10" error_unwraps;
    "C10" error_from_channel;
    "C10" panic_payloads;
    "C11" id_round_trip;
    "C11" id_malformed;
    "C11" id_unique;
    "C11" id_eq_hash;
    "C12" registry_basic;
    "C12" registry_wrong_type;
    "C12" registry_occupied;
    "C12" registry_through_ref;
}

async fn settle() {
    tokio::time::sleep(Duration::from_millis(50)).await;
}

type Slots = std::sync::Arc<std::sync::Mutex<Vec<ReplySender<Result<u64, E>>>>>;

/// forwards, delegates and drops replies as told
#[derive(Clone)]
struct Mid {
    log: Log,
    next: Option<ActorRef<Probe>>,
    slots: Slots,
}
impl Actor for Mid {
    type Error = Infallible;
    async fn on_panic(&mut self, _: kameo::actor::WeakActorRef<Self>, err: PanicError) -> Result<std::ops::ControlFlow<kameo::error::ActorStopReason>, Infallible> {
        self.log.lock().unwrap().push(format!("mid.panic {}", err.with(|e| format!("{e:?}"))));
        Ok(std::ops::ControlFlow::Continue(()))
    }
}
fn mid(l: &Log, next: Option<&ActorRef<Probe>>) -> (Mid, ActorRef<Mid>) {
    let m = Mid { log: l.clone(), next: next.cloned(), slots: Default::default() };
    (m.clone(), kameo::spawn(m))
}

#[derive(Clone, Copy)]
enum Way {
    Wait,
    Try,
    Blocking,
}

struct Fwd(How, Way);
impl Message<Fwd> for Mid {
    type Reply = ForwardedReply<Fail, Result<u64, E>>;
    async fn handle(&mut self, m: Fwd, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        let n = self.next.clone().unwrap();
        match m.1 {
            Way::Wait => ctx.forward(&n, Fail(m.0)).await,
            Way::Try => ctx.try_forward(&n, Fail(m.0)),
            Way::Blocking => std::thread::scope(|s| s.spawn(|| ctx.blocking_forward(&n, Fail(m.0))).join().unwrap()),
        }
    }
}

/// in front of Mid: forwards what Mid forwards on
struct Front(ActorRef<Mid>);
impl Actor for Front {
    type Error = Infallible;
}
struct Fwd2(How);
impl Message<Fwd2> for Front {
    type Reply = ForwardedReply<Fwd, ForwardedReply<Fail, Result<u64, E>>>;
    async fn handle(&mut self, m: Fwd2, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        let n = self.0.clone();
        ctx.forward(&n, Fwd(m.0, Way::Wait)).await
    }
}

struct Now(Result<u64, E>);
impl Message<Now> for Mid {
    type Reply = DelegatedReply<Result<u64, E>>;
    async fn handle(&mut self, m: Now, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        ctx.reply(m.0)
    }
}
struct Later;
impl Message<Later> for Mid {
    type Reply = DelegatedReply<Result<u64, E>>;
    async fn handle(&mut self, _: Later, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        let (d, tx) = ctx.reply_sender();
        let had = tx.is_some();
        self.slots.lock().unwrap().extend(tx);
        let (d2, tx2) = ctx.reply_sender();
        let _ = d2;
        self.log.lock().unwrap().push(format!("mid.later {had} {}", tx2.is_some()));
        d
    }
}

async fn reply_direct() -> Res {
    let l = log();
    let a = kameo::spawn(Probe { on_panic: Some(true), ..Probe::new("a", &l) });
    same!(a.ask(Echo(5)).await.unwrap(), 5, "infallible reply");
    same!(a.ask(Fail(How::Ok)).await.unwrap(), 7, "Ok reply");
    match a.ask(Fail(How::Err)).await {
        Err(SendError::HandlerError(E("handler"))) => {}
        r => return Err(format!("Err reply: {r:?}")),
    }
    match a.ask(Fail(How::Panic)).await {
        Err(SendError::ActorStopped) => {}
        r => return Err(format!("no reply: {r:?}")),
    }
    Ok(())
}

async fn reply_delegated() -> Res {
    let l = log();
    let (_, a) = mid(&l, None);
    same!(a.ask(Now(Ok(3))).await.unwrap(), 3, "delegated Ok");
    match a.ask(Now(Err(E("x")))).await {
        Err(SendError::HandlerError(E("x"))) => {}
        r => return Err(format!("delegated Err: {r:?}")),
    }
    a.tell(Now(Ok(3))).await.unwrap();
    a.tell(Now(Err(E("y")))).await.unwrap();
    settle().await;
    same!(entries(&l), Vec::<String>::new(), "nobody asked");
    Ok(())
}

async fn reply_sender_taken() -> Res {
    let l = log();
    let (m, a) = mid(&l, None);
    let qs: Vec<_> = (0..3).map(|_| a.ask(Later).try_enqueue().unwrap()).collect();
    a.tell(Later).await.unwrap();
    settle().await;
    same!(entries(&l), vec!["mid.later true false", "mid.later true false", "mid.later true false", "mid.later false false"], "reply sender only when asked, and only once");
    let slots: Vec<_> = m.slots.lock().unwrap().drain(..).collect();
    for (i, s) in slots.into_iter().enumerate().rev() {
        s.send(if i == 1 { Err(E("one")) } else { Ok(i as u64) });
    }
    for (i, q) in qs.into_iter().enumerate() {
        match (i, q.await) {
            (1, Err(SendError::HandlerError(E("one")))) => {}
            (i, Ok(v)) if i as u64 == v => {}
            (i, r) => return Err(format!("asker {i}: {r:?}")),
        }
    }
    Ok(())
}

async fn reply_sender_dropped() -> Res {
    let l = log();
    let (m, a) = mid(&l, None);
    let q = a.ask(Later).try_enqueue().unwrap();
    settle().await;
    m.slots.lock().unwrap().clear();
    match q.await {
        Err(SendError::ActorStopped) => Ok(()),
        r => Err(format!("dropped reply sender: {r:?}")),
    }
}

async fn reply_error_to_asker_only() -> Res {
    let l = log();
    let a = kameo::spawn(Probe { on_panic: Some(true), ..Probe::new("a", &l) });
    let _ = a.ask(Fail(How::Err)).await;
    settle().await;
    same!(entries(&l).iter().filter(|e| e.contains("panic")).count(), 0, "an error somebody asked for went to on_panic");
    a.tell(Fail(How::Err)).await.unwrap();
    settle().await;
    same!(entries(&l).last().unwrap().to_string(), "a.panic err:handler", "an error nobody asked for");
    Ok(())
}

async fn forward_ok_and_err() -> Res {
    for w in [Way::Wait, Way::Try, Way::Blocking] {
        let l = log();
        let a = kameo::spawn(Probe { on_panic: Some(true), ..Probe::new("a", &l) });
        a.wait_for_startup().await;
        settle().await;
        let (_, m) = mid(&l, Some(&a));
        same!(m.ask(Fwd(How::Ok, w)).await.unwrap(), 7, "forwarded Ok");
        match m.ask(Fwd(How::Err, w)).await {
            Err(SendError::HandlerError(SendError::HandlerError(E("handler")))) => {}
            r => return Err(format!("forwarded Err: {r:?}")),
        }
        match m.ask(Fwd(How::Panic, w)).await {
            Err(SendError::ActorStopped) => {}
            r => return Err(format!("forwarded panic: {r:?}")),
        }
        same!(entries(&l).iter().filter(|e| e.starts_with("mid")).count(), 0, "forwarding actor");
    }
    Ok(())
}

async fn forward_nested() -> Res {
    let l = log();
    let a = kameo::spawn(Probe { on_panic: Some(true), ..Probe::new("a", &l) });
    let (_, m) = mid(&l, Some(&a));
    let f = kameo::spawn(Front(m));
    same!(f.ask(Fwd2(How::Ok)).await.unwrap(), 7, "twice forwarded Ok");
    match f.ask(Fwd2(How::Err)).await {
        Err(SendError::HandlerError(SendError::HandlerError(SendError::HandlerError(E("handler"))))) => {}
        r => return Err(format!("twice forwarded Err: {r:?}")),
    }
    a.kill();
    a.wait_for_shutdown().await;
    match f.ask(Fwd2(How::Ok)).await {
        Err(SendError::HandlerError(SendError::HandlerError(SendError::ActorNotRunning(Fail(How::Ok))))) => {}
        r => return Err(format!("second forward undelivered: {r:?}")),
    }
    Ok(())
}

async fn forward_undelivered() -> Res {
    for w in [Way::Wait, Way::Try, Way::Blocking] {
        let l = log();
        let a = kameo::spawn(Probe::new("a", &l));
        a.stop_gracefully().await.unwrap();
        a.wait_for_shutdown().await;
        let (_, m) = mid(&l, Some(&a));
        match m.ask(Fwd(How::Ok, w)).await {
            Err(SendError::HandlerError(SendError::ActorNotRunning(Fail(How::Ok)))) => {}
            r => return Err(format!("forwarded to a dead actor: {r:?}")),
        }
        m.tell(Fwd(How::Ok, w)).await.unwrap();
        settle().await;
        same!(entries(&l).iter().filter(|e| e.starts_with("mid.panic")).count(), 1, "an undelivered forward nobody asked for");
        same!(m.is_alive(), true, "alive");
    }
    Ok(())
}

async fn forward_full() -> Res {
    let l = log();
    let g = std::sync::Arc::new(tokio::sync::Notify::new());
    let a = kameo::actor::spawn_with_mailbox(Probe::new("a", &l), mailbox::bounded(1));
    a.wait_for_startup().await;
    settle().await;
    a.tell(Wait(g.clone())).await.unwrap();
    settle().await;
    a.tell(Echo(1)).await.unwrap();
    let (_, m) = mid(&l, Some(&a));
    match m.ask(Fwd(How::Ok, Way::Try)).await {
        Err(SendError::HandlerError(SendError::MailboxFull(Fail(How::Ok)))) => {}
        r => return Err(format!("forwarded to a full mailbox: {r:?}")),
    }
    let q = m.ask(Fwd(How::Ok, Way::Wait)).try_enqueue().unwrap();
    settle().await;
    g.notify_one();
    same!(q.await.unwrap(), 7, "forwarded once there is space");
    Ok(())
}

async fn forward_tell() -> Res {
    for w in [Way::Wait, Way::Try, Way::Blocking] {
        let l = log();
        let a = kameo::spawn(Probe { on_panic: Some(true), ..Probe::new("a", &l) });
        a.wait_for_startup().await;
        settle().await;
        let (_, m) = mid(&l, Some(&a));
        m.tell(Fwd(How::Ok, w)).await.unwrap();
        m.tell(Fwd(How::Err, w)).await.unwrap();
        settle().await;
        same!(entries(&l)[1..], ["a.fail Ok", "a.fail Err", "a.panic err:handler"], "told on");
    }
    Ok(())
}

// ---------------------------------------------------------------------------------- C10
type Er = SendError<u8, &'static str>;
fn all() -> Vec<Er> {
    vec![SendError::ActorNotRunning(1), SendError::ActorStopped, SendError::MailboxFull(2), SendError::HandlerError("e"), SendError::Timeout(Some(3)), SendError::Timeout(None)]
}

async fn error_maps() -> Res {
    let m: Vec<_> = all().into_iter().map(|e| e.map_msg(|m| m as u32 + 10)).collect();
    let want: Vec<SendError<u32, &str>> = vec![SendError::ActorNotRunning(11), SendError::ActorStopped, SendError::MailboxFull(12), SendError::HandlerError("e"), SendError::Timeout(Some(13)), SendError::Timeout(None)];
    ensure!(m == want, "map_msg");
    let m: Vec<_> = all().into_iter().map(|e| e.map_err(|e| e.len())).collect();
    let want: Vec<SendError<u8, usize>> = vec![SendError::ActorNotRunning(1), SendError::ActorStopped, SendError::MailboxFull(2), SendError::HandlerError(1), SendError::Timeout(Some(3)), SendError::Timeout(None)];
    ensure!(m == want, "map_err");
    Ok(())
}

async fn error_boxes() -> Res {
    for e in all() {
        ensure!(e.boxed().downcast::<u8, &'static str>() == e, "boxed and back");
        let bad = e.boxed().try_downcast::<u16, String>();
        match (e, bad) {
            (SendError::ActorStopped, Ok(SendError::ActorStopped)) | (SendError::Timeout(None), Ok(SendError::Timeout(None))) => {}
            (_, Err(b)) => ensure!(b.downcast::<u8, &'static str>() == e, "given back by a failed downcast"),
            (e, Ok(_)) => return Err(format!("{e:?} downcast to other types")),
        }
    }
    Ok(())
}

async fn error_flatten() -> Res {
    let inner = all();
    for e in inner {
        ensure!(SendError::<u8, Er>::HandlerError(e).flatten() == e, "flatten of an inner error");
    }
    let outer: Vec<SendError<u8, Er>> = vec![SendError::ActorNotRunning(1), SendError::ActorStopped, SendError::MailboxFull(2), SendError::Timeout(Some(3)), SendError::Timeout(None)];
    let want: Vec<Er> = vec![SendError::ActorNotRunning(1), SendError::ActorStopped, SendError::MailboxFull(2), SendError::Timeout(Some(3)), SendError::Timeout(None)];
    ensure!(outer.into_iter().map(|e| e.flatten()).collect::<Vec<_>>() == want, "flatten of an outer error");
    Ok(())
}

async fn error_unwraps() -> Res {
    for e in all() {
        let m = std::panic::catch_unwind(|| e.unwrap_msg()).ok();
        let x = std::panic::catch_unwind(|| e.unwrap_err()).ok();
        let (wm, wx) = match e {
            SendError::ActorNotRunning(m) | SendError::MailboxFull(m) | SendError::Timeout(Some(m)) => (Some(m), None),
            SendError::HandlerError(x) => (None, Some(x)),
            _ => (None, None),
        };
        same!((m, x), (wm, wx), "unwrap_msg, unwrap_err of {e:?}");
    }
    Ok(())
}

async fn error_from_channel() -> Res {
    let l = log();
    let a = kameo::actor::spawn_with_mailbox(Probe::new("a", &l), mailbox::bounded(1));
    a.wait_for_startup().await;
    settle().await;
    a.tell(Echo(1)).try_send().unwrap();
    ensure!(matches!(a.tell(Echo(2)).try_send(), Err(SendError::MailboxFull(Echo(2)))), "full");
    ensure!(matches!(a.ask(Echo(3)).try_send().await, Err(SendError::MailboxFull(Echo(3)))), "full");
    a.kill();
    a.wait_for_shutdown().await;
    ensure!(matches!(a.tell(Echo(2)).try_send(), Err(SendError::ActorNotRunning(Echo(2)))), "gone");
    ensure!(matches!(a.tell(Echo(2)).mailbox_timeout(Duration::from_secs(1)).await, Err(SendError::ActorNotRunning(Echo(2)))), "gone");
    Ok(())
}

struct Boom(u8);
impl Message<Boom> for Probe {
    type Reply = ();
    async fn handle(&mut self, m: Boom, _: &mut Context<Self, ()>) {
        match m.0 {
            0 => panic!("literal"),
            1 => panic!("formatted {}", m.0),
            2 => std::panic::panic_any(E("typed")),
            _ => std::panic::panic_any(17u32),
        }
    }
}

async fn panic_payloads() -> Res {
    for (i, want) in ["a.panic str:literal", "a.panic str:formatted 1"].iter().enumerate() {
        let l = log();
        let a = kameo::spawn(Probe { on_panic: Some(true), ..Probe::new("a", &l) });
        a.tell(Boom(i as u8)).await.unwrap();
        settle().await;
        same!(entries(&l)[1].clone(), want.to_string(), "panic payload");
    }
    let e = PanicError::new(Box::new(E("typed")));
    same!(e.with_downcast_ref(|e: &E| e.0), Some("typed"), "typed");
    same!(e.with_downcast_ref(|e: &u8| *e), None, "another type");
    same!(e.downcast::<E>(), Some(E("typed")), "cloned");
    same!(e.downcast::<String>(), None, "another type");
    same!(e.with_str(|s| s.to_string()), None, "not a string");
    same!(e.with(|e| format!("{e:?}")), "E(\"typed\")", "with");
    same!(PanicError::new(Box::new("s")).with_str(|s| s.to_string()), Some("s".to_string()), "str");
    same!(PanicError::new(Box::new("s".to_string())).with_str(|s| s.to_string()), Some("s".to_string()), "String");
    same!(e.clone().with_downcast_ref(|e: &E| e.0), Some("typed"), "clone");
    Ok(())
}

// ---------------------------------------------------------------------------------- C11
async fn id_round_trip() -> Res {
    for i in [0u64, 1, 255, 256, 1 << 32, u64::MAX - 1, u64::MAX] {
        let id = ActorID::new(i);
        same!(id.sequence_id(), i, "sequence id");
        same!(ActorID::from_bytes(&id.to_bytes()).unwrap(), id, "round trip");
    }
    let ids: Vec<_> = (0..200).map(|_| ActorID::generate()).collect();
    for id in ids {
        same!(ActorID::from_bytes(&id.to_bytes()).unwrap(), id, "round trip");
    }
    Ok(())
}

async fn id_malformed() -> Res {
    for n in 0..8usize {
        ensure!(matches!(ActorID::from_bytes(&vec![1; n]), Err(ActorIDFromBytesError::MissingSequenceID)), "{n} bytes");
    }
    ensure!(ActorID::from_bytes(&[9; 8]).is_ok(), "8 bytes");
    Ok(())
}

async fn id_unique() -> Res {
    let hs: Vec<_> = (0..8).map(|_| std::thread::spawn(|| (0..2000).map(|_| ActorID::generate().sequence_id()).collect::<Vec<_>>())).collect();
    let mut seen = std::collections::HashSet::new();
    for h in hs {
        let v = h.join().unwrap();
        ensure!(v.windows(2).all(|w| w[0] < w[1]), "ids of one thread do not grow");
        for i in v {
            ensure!(seen.insert(i), "id {i} generated twice");
        }
    }
    Ok(())
}

async fn id_eq_hash() -> Res {
    use std::hash::{BuildHasher, RandomState};
    let s = RandomState::new();
    for (a, b) in [(1, 1), (1, 2), (u64::MAX, u64::MAX), (0, u64::MAX)] {
        let (x, y) = (ActorID::new(a), ActorID::new(b));
        same!(x == y, a == b, "equality of {a} and {b}");
        if a == b {
            same!(s.hash_one(x), s.hash_one(y), "hash of {a}");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------- C12
use kameo::{error::RegistryError, registry::ActorRegistry};

async fn registry_basic() -> Res {
    let l = log();
    let (a, b) = (kameo::spawn(Probe::new("a", &l)), kameo::spawn(Probe::new("b", &l)));
    let mut r = ActorRegistry::with_capacity(8);
    ensure!(r.capacity() >= 8 && r.is_empty() && r.len() == 0, "new registry");
    ensure!(!r.insert("a", a.clone()), "insert under a free name");
    ensure!(!r.insert("b", b.clone()), "insert under a free name");
    same!((r.len(), r.is_empty(), r.contains_name("a"), r.contains_name("c")), (2, false, true, false), "queries");
    let mut names: Vec<_> = r.names().map(|n| n.to_string()).collect();
    names.sort();
    same!(names, vec!["a", "b"], "names");
    same!(r.get::<Probe, _>("a").unwrap().map(|x| x.id()), Some(a.id()), "get a");
    same!(r.get::<Probe, _>("b").unwrap().map(|x| x.id()), Some(b.id()), "get b");
    ensure!(r.get::<Probe, _>("c").unwrap().is_none(), "get of nothing");
    ensure!(r.remove("a") && !r.remove("a"), "remove");
    ensure!(r.get::<Probe, _>("a").unwrap().is_none(), "removed");
    same!(r.len(), 1, "length");
    r.clear();
    ensure!(r.is_empty(), "cleared");
    Ok(())
}

async fn registry_wrong_type() -> Res {
    let l = log();
    let a = kameo::spawn(Probe::new("a", &l));
    let mut r = ActorRegistry::new();
    r.insert("a", a.clone());
    ensure!(matches!(r.get::<Mid, _>("a"), Err(RegistryError::BadActorType)), "another actor type");
    same!(r.get::<Probe, _>("a").unwrap().map(|x| x.id()), Some(a.id()), "still there");
    Ok(())
}

async fn registry_occupied() -> Res {
    let l = log();
    let (a, b) = (kameo::spawn(Probe::new("a", &l)), kameo::spawn(Probe::new("b", &l)));
    let mut r = ActorRegistry::new();
    ensure!(!r.insert("x", a.clone()), "insert");
    ensure!(r.insert("x", b.clone()), "insert under a taken name");
    same!(r.get::<Probe, _>("x").unwrap().map(|x| x.id()), Some(b.id()), "the last one inserted");
    same!(r.len(), 1, "length");
    Ok(())
}

async fn registry_through_ref() -> Res {
    let l = log();
    let (a, b) = (kameo::spawn(Probe::new("a", &l)), kameo::spawn(Probe::new("b", &l)));
    ensure!(a.register("replay-x").is_ok(), "register");
    ensure!(b.register("replay-z").is_ok(), "register");
    same!(ActorRef::<Probe>::lookup("replay-z").unwrap().map(|x| x.id()), Some(b.id()), "lookup");
    same!(ActorRef::<Probe>::lookup("replay-x").unwrap().map(|x| x.id()), Some(a.id()), "lookup");
    ensure!(ActorRef::<Probe>::lookup("replay-y").unwrap().is_none(), "lookup of nothing");
    ensure!(matches!(ActorRef::<Mid>::lookup("replay-x"), Err(RegistryError::BadActorType)), "lookup of another type");
    Ok(())
}
