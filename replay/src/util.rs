//! A probe actor whose hooks record what happens and can be told how to behave.
use kameo::{
    actor::{ActorID, ActorRef, WeakActorRef},
    error::{ActorStopReason, PanicError},
    mailbox::{MailboxReceiver, Signal},
    message::{BoxMessage, Context, Message},
    reply::{BoxReplySender, ReplyError},
    Actor,
};
use std::{
    ops::ControlFlow,
    sync::{Arc, Mutex},
};
use tokio::sync::Notify;

pub type Log = Arc<Mutex<Vec<String>>>;

#[derive(Debug, Clone, PartialEq)]
pub struct E(pub &'static str);

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum How {
    Ok,
    Err,
    Panic,
}

#[derive(Clone)]
pub struct Probe {
    pub log: Log,
    pub name: &'static str,
    pub start: How,
    pub start_gate: Option<Arc<Notify>>,
    pub stop: How,
    pub on_panic: Option<bool>,  // Some(true): continue, Some(false): break(Normal)
    pub link_died: Option<How>,  // None: the default policy
    pub n: u64,
}

pub fn log() -> Log {
    Arc::new(Mutex::new(Vec::new()))
}

pub fn entries(l: &Log) -> Vec<String> {
    l.lock().unwrap().clone()
}

impl Probe {
    pub fn new(name: &'static str, log: &Log) -> Probe {
        Probe { log: log.clone(), name, start: How::Ok, start_gate: None, stop: How::Ok, on_panic: None, link_died: None, n: 0 }
    }
    pub fn say(&self, s: impl std::fmt::Display) {
        self.log.lock().unwrap().push(format!("{}.{}", self.name, s));
    }
}

pub fn reason(r: &ActorStopReason) -> String {
    match r {
        ActorStopReason::Normal => "normal".into(),
        ActorStopReason::Killed => "killed".into(),
        ActorStopReason::Panicked(e) => format!("panicked({})", perr(e)),
        ActorStopReason::LinkDied { reason: r, .. } => format!("link({})", reason(r)),
        #[allow(unreachable_patterns)]
        _ => "other".into(),
    }
}

pub fn perr(e: &PanicError) -> String {
    if let Some(s) = e.with_str(|s| s.to_string()) {
        return format!("str:{s}");
    }
    if let Some(s) = e.with_downcast_ref::<E, _, _>(|e| e.0.to_string()) {
        return format!("err:{s}");
    }
    e.with(|e| format!("any:{e:?}"))
}

impl Actor for Probe {
    type Error = E;

    async fn on_start(&mut self, r: ActorRef<Self>) -> Result<(), E> {
        self.say(format!("start {}", r.is_alive()));
        if let Some(g) = self.start_gate.clone() {
            g.notified().await;
        }
        self.n += 1000;
        match self.start {
            How::Ok => Ok(()),
            How::Err => Err(E("start")),
            How::Panic => panic!("start panics"),
        }
    }

    async fn on_message(&mut self, msg: BoxMessage<Self>, actor_ref: ActorRef<Self>, tx: Option<BoxReplySender>) -> Result<(), Box<dyn ReplyError>> {
        self.n += 1;
        msg.handle_dyn(self, actor_ref, tx).await
    }

    async fn on_panic(&mut self, _: WeakActorRef<Self>, err: PanicError) -> Result<ControlFlow<ActorStopReason>, E> {
        self.say(format!("panic {}", perr(&err)));
        match self.on_panic {
            Some(true) => Ok(ControlFlow::Continue(())),
            Some(false) => Ok(ControlFlow::Break(ActorStopReason::Normal)),
            None => Ok(ControlFlow::Break(ActorStopReason::Panicked(err))),
        }
    }

    async fn on_link_died(&mut self, _: WeakActorRef<Self>, id: ActorID, r: ActorStopReason) -> Result<ControlFlow<ActorStopReason>, E> {
        self.say(format!("link {} {}", id.sequence_id(), reason(&r)));
        match self.link_died {
            Some(How::Ok) => Ok(ControlFlow::Continue(())),
            Some(How::Err) => Err(E("link")),
            Some(How::Panic) => panic!("link panics"),
            None => match r {
                ActorStopReason::Normal => Ok(ControlFlow::Continue(())),
                r => Ok(ControlFlow::Break(ActorStopReason::LinkDied { id, reason: Box::new(r) })),
            },
        }
    }

    async fn on_stop(&mut self, _: WeakActorRef<Self>, r: ActorStopReason) -> Result<(), E> {
        self.say(format!("stop {} n={}", reason(&r), self.n));
        match self.stop {
            How::Ok => Ok(()),
            _ => Err(E("stop")),
        }
    }

    async fn next(&mut self, _: WeakActorRef<Self>, rx: &mut MailboxReceiver<Self>) -> Option<Signal<Self>> {
        rx.recv().await
    }
}

/// logs its value and replies with it
#[derive(Debug, Clone, PartialEq)]
pub struct Echo(pub u64);
impl Message<Echo> for Probe {
    type Reply = u64;
    async fn handle(&mut self, m: Echo, _: &mut Context<Self, u64>) -> u64 {
        self.say(format!("echo {}", m.0));
        m.0
    }
}

/// replies with an error, or panics
#[derive(Debug, Clone, PartialEq)]
pub struct Fail(pub How);
impl Message<Fail> for Probe {
    type Reply = Result<u64, E>;
    async fn handle(&mut self, m: Fail, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
        self.say(format!("fail {:?}", m.0));
        match m.0 {
            How::Ok => Ok(7),
            How::Err => Err(E("handler")),
            How::Panic => panic!("handler panics"),
        }
    }
}

/// waits until the gate opens
pub struct Wait(pub Arc<Notify>);
impl Message<Wait> for Probe {
    type Reply = ();
    async fn handle(&mut self, m: Wait, _: &mut Context<Self, ()>) {
        self.say("wait");
        m.0.notified().await;
        self.say("waited");
    }
}

/// sleeps for some (virtual) milliseconds, then replies
#[derive(Debug, Clone, PartialEq)]
pub struct Sleep(pub u64);
impl Message<Sleep> for Probe {
    type Reply = u64;
    async fn handle(&mut self, m: Sleep, _: &mut Context<Self, u64>) -> u64 {
        self.say(format!("sleep {}", m.0));
        tokio::time::sleep(std::time::Duration::from_millis(m.0)).await;
        m.0
    }
}

/// is this handler's own actor current (seen through a reference and a recipient), and is another one?
pub struct AmI(pub ActorRef<Probe>);
impl Message<AmI> for Probe {
    type Reply = kameo::reply::DelegatedReply<(bool, bool, bool, bool)>;
    async fn handle(&mut self, m: AmI, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        let a = ctx.actor_ref();
        let v = (a.is_current(), m.0.is_current(), a.clone().recipient::<Echo>().is_current(), m.0.clone().recipient::<Echo>().is_current());
        ctx.reply(v)
    }
}
