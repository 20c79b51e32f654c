//! Forwards with their reply slot, in every form and to every kind of mailbox; texts of panics; forms that do not wait.
use crate::{ensure, same, scenarios, util::*, Res};
use kameo::{
    actor::{spawn_with_mailbox, ActorRef},
    error::{Infallible, PanicError, SendError},
    mailbox,
    message::{Context, Message},
    reply::{DelegatedReply, ReplySender},
    Actor,
};
use kameo_actors::pubsub;
use std::{sync::Arc, time::Duration};
use tokio::{sync::Notify, time::Instant};

async fn settle() {
    tokio::time::sleep(Duration::from_millis(50)).await;
}

/// Takes the reply sender out and gives it to the test.
struct Slot(tokio::sync::mpsc::UnboundedSender<ReplySender<u64>>);
impl Actor for Slot {
    type Error = Infallible;
}
struct Take;
impl Message<Take> for Slot {
    type Reply = DelegatedReply<u64>;
    async fn handle(&mut self, _: Take, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        let (d, tx) = ctx.reply_sender();
        let _ = self.0.send(tx.unwrap());
        d
    }
}

type Asked = tokio::task::JoinHandle<Result<u64, SendError<Take>>>;

/// somebody who asked, and his reply slot
async fn asked() -> (Asked, ReplySender<u64>) {
    let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel();
    let s = kameo::spawn(Slot(tx));
    let h = tokio::spawn(async move { s.ask(Take).await });
    (h, rx.recv().await.unwrap())
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum State {
    Free,
    Full,
    Dead,
}

const FORMS: [&str; 5] = ["forward", "forward with a timeout", "try_forward", "blocking_forward", "blocking_forward in a thread"];

async fn forward_all_forms() -> Res {
    for cap in [Some(1), None] {
        for state in [State::Free, State::Full, State::Dead] {
            for form in 0..FORMS.len() {
                if state == State::Full && cap.is_none() {
                    continue;
                }
                let what = format!("{} to a mailbox of {cap:?} which is {state:?}", FORMS[form]);
                let l = log();
                let a = spawn_with_mailbox(Probe::new("a", &l), match cap { Some(c) => mailbox::bounded(c), None => mailbox::unbounded() });
                a.wait_for_startup().await;
                let g = Arc::new(Notify::new());
                match state {
                    State::Free => {}
                    State::Full => {
                        a.tell(Wait(g.clone())).await.unwrap();
                        settle().await;
                        a.tell(Echo(0)).await.unwrap();
                    }
                    State::Dead => {
                        a.kill();
                        a.wait_for_shutdown().await;
                    }
                }
                let (h, tx) = asked().await;
                let waits = state == State::Full && [0, 3, 4].contains(&form);
                if waits {
                    let g = g.clone();
                    if form == 0 {
                        tokio::spawn(async move {
                            settle().await;
                            g.notify_one();
                        });
                    } else {
                        // virtual time stands still while a thread waits
                        std::thread::spawn(move || {
                            std::thread::sleep(Duration::from_millis(30));
                            g.notify_one();
                        });
                    }
                }
                let t0 = Instant::now();
                let r = match form {
                    0 => a.ask(Echo(7)).forward(tx).await,
                    1 => a.ask(Echo(7)).mailbox_timeout(Duration::from_secs(9)).forward(tx).await,
                    2 => a.ask(Echo(7)).try_forward(tx),
                    _ => {
                        let a = a.clone();
                        let f = move || a.ask(Echo(7)).blocking_forward(tx);
                        tokio::task::spawn_blocking(move || if form == 3 { f() } else { std::thread::spawn(f).join().unwrap() }).await.unwrap()
                    }
                };
                let took = t0.elapsed();
                let back = match (r, state, form) {
                    (Ok(()), State::Free, _) => None,
                    (Ok(()), State::Full, _) if waits => None,
                    (Err(SendError::MailboxFull(b)), State::Full, 2) => Some(b),
                    (Err(SendError::Timeout(Some(b))), State::Full, 1) => {
                        same!(took >= Duration::from_secs(9), true, "{what}: waited {took:?}");
                        Some(b)
                    }
                    (Err(SendError::ActorNotRunning(b)), State::Dead, _) => Some(b),
                    (Ok(()), _, _) => return Err(format!("{what}: Ok")),
                    (Err(e), _, _) => return Err(format!("{what}: {e}")),
                };
                if form == 2 {
                    same!(took, Duration::ZERO, "{what} took time");
                }
                match back {
                    None => same!(h.await.unwrap().map_err(|e| e.to_string()), Ok(7), "{what}: the answer to the one who asked"),
                    Some((m, tx)) => {
                        same!(m, Echo(7), "{what}: the message handed back");
                        tx.send(99);
                        same!(h.await.unwrap().map_err(|e| e.to_string()), Ok(99), "{what}: through the reply slot handed back");
                    }
                }
                g.notify_one();
                settle().await;
                let n = entries(&l).iter().filter(|s| *s == "a.echo 7").count();
                same!(n, usize::from(state == State::Free || waits), "{what}: how often it was handled");
            }
        }
    }
    Ok(())
}

async fn trying_does_not_wait() -> Res {
    let l = log();
    let a = spawn_with_mailbox(Probe::new("a", &l), mailbox::bounded(1));
    a.wait_for_startup().await;
    for round in 0..2 {
        a.tell(Sleep(2)).await.unwrap();
        tokio::time::sleep(Duration::from_millis(1)).await;
        a.tell(Echo(0)).await.unwrap();
        // the mailbox is full for another millisecond
        let t0 = Instant::now();
        let r = match round {
            0 => a.ask(Echo(1)).try_send().await.map(|_| ()).map_err(|e| e.map_err(|_| ())),
            _ => a.tell(Echo(1)).try_send().map_err(|e| e.map_err(|_| ())),
        };
        ensure!(matches!(r, Err(SendError::MailboxFull(Echo(1)))), "try_send to a mailbox that is full right now: {r:?}");
        same!(t0.elapsed(), Duration::ZERO, "try_send waited");
        settle().await;
    }
    same!(entries(&l).iter().filter(|s| *s == "a.echo 1").count(), 0, "messages refused but handled");
    Ok(())
}

fn texts() -> Vec<String> {
    let mut v: Vec<String> = ["", " ", "  padded\t", "line one\nline two\n", "\r\n", "caf\u{e9} \u{1F980}", "quote \" and \\ and {braces}", "panic: x: y", "nul \0 in it"].iter().map(|s| s.to_string()).collect();
    v.push("x".repeat(100_000));
    v.push("\u{1F980}".repeat(3_000));
    v
}

struct Say(String, bool);
impl Message<Say> for Probe {
    type Reply = ();
    async fn handle(&mut self, m: Say, _: &mut Context<Self, ()>) {
        if m.1 {
            std::panic::panic_any(&*Box::leak(m.0.into_boxed_str()))
        } else {
            std::panic::panic_any(m.0)
        }
    }
}

async fn panic_texts() -> Res {
    for t in texts() {
        for lit in [true, false] {
            let l = log();
            let a = kameo::spawn(Probe { on_panic: Some(true), ..Probe::new("a", &l) });
            a.tell(Say(t.clone(), lit)).await.unwrap();
            same!(a.ask(Echo(1)).await.map_err(|e| e.to_string())?, 1, "reply after a panic");
            let e = entries(&l);
            ensure!(e[1] == format!("a.panic str:{t}"), "the text of a panic ({} bytes: {:?}..) reached on_panic as {:?}..", t.len(), t.chars().take(20).collect::<String>(), e[1].chars().take(40).collect::<String>());
        }
        let p = PanicError::new(Box::new(t.clone()));
        for _ in 0..3 {
            same!(p.with_str(|s| s == t), Some(true), "with_str of a panic error ({} bytes)", t.len());
            same!(p.with_downcast_ref(|s: &String| *s == t), Some(true), "with_downcast_ref of a panic error ({} bytes)", t.len());
            same!(p.clone().downcast::<String>().as_ref() == Some(&t), true, "downcast of a clone");
        }
        let s: &'static str = Box::leak(t.clone().into_boxed_str());
        let p = PanicError::new(Box::new(s));
        same!(p.with_str(|x| x == s), Some(true), "with_str of a panic error ({} bytes, literal)", s.len());
    }
    Ok(())
}

async fn a_filter_that_counts() -> Res {
    let l = log();
    let mut ps = pubsub::PubSub::<Echo>::new();
    let mut refs: Vec<ActorRef<Probe>> = vec![];
    for (i, name) in ["a", "b", "c"].into_iter().enumerate() {
        let a = kameo::spawn(Probe::new(name, &l));
        let mut seen = 0;
        ps.subscribe_filter(a.clone(), move |_| {
            seen += 1;
            seen % (i + 2) == 0
        });
        refs.push(a);
    }
    for n in 1..=12 {
        ps.publish(Echo(n)).await;
    }
    settle().await;
    for (i, name) in ["a", "b", "c"].into_iter().enumerate() {
        let want: Vec<String> = (1..=12).filter(|n| n % (i as u64 + 2) == 0).map(|n| format!("{name}.echo {n}")).collect();
        let got: Vec<String> = entries(&l).into_iter().filter(|s| s.starts_with(&format!("{name}.echo"))).collect();
        same!(got, want, "what passed a filter that takes every {}th", i + 2);
    }
    Ok(())
}

async fn dropped_exactly_once() -> Res {
    // a message that could not be delivered, or never was handled, is dropped once and not kept
    struct D(Arc<std::sync::atomic::AtomicUsize>);
    impl Drop for D {
        fn drop(&mut self) {
            self.0.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        }
    }
    struct M(#[allow(dead_code)] D);
    impl Message<M> for Probe {
        type Reply = ();
        async fn handle(&mut self, _: M, _: &mut Context<Self, ()>) {}
    }
    let n = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let count = || n.load(std::sync::atomic::Ordering::SeqCst);
    let l = log();
    let a = kameo::spawn(Probe::new("a", &l));
    a.wait_for_startup().await;
    for i in 0..5 {
        a.tell(M(D(n.clone()))).await.map_err(|_| "tell")?;
        a.ask(M(D(n.clone()))).await.map_err(|_| "ask")?;
        same!(count(), 2 * (i + 1), "messages dropped after they were handled");
    }
    let g = Arc::new(Notify::new());
    a.tell(Wait(g.clone())).await.unwrap();
    for _ in 0..5 {
        a.tell(M(D(n.clone()))).await.map_err(|_| "tell")?;
    }
    same!(count(), 10, "messages dropped while they wait");
    a.kill();
    a.wait_for_shutdown().await;
    settle().await;
    same!(count(), 15, "messages dropped when the actor was killed");
    let r = a.tell(M(D(n.clone()))).await;
    same!(count(), 15, "a message handed back");
    drop(r);
    same!(count(), 16, "a message handed back, and dropped");
    Ok(())
}

scenarios! {
    "C08" forward_all_forms;
    "C09" forward_all_forms;
    "C07" trying_does_not_wait;
    "C08" trying_does_not_wait;
    "C03" panic_texts;
    "C10" panic_texts;
    "C16" a_filter_that_counts;
    "C02" dropped_exactly_once;
    "C08" dropped_exactly_once;
}
