use crate::{ensure, same, scenarios, util::*, Res};
use kameo::{
    actor::{spawn_link, spawn_with_mailbox, ActorRef, PreparedActor},
    error::SendError,
    mailbox,
};
use std::{sync::Arc, time::Duration};
use tokio::sync::Notify;

scenarios! {
    "C01" lifecycle_normal;
    "C01" lifecycle_start_err;
    "C01" lifecycle_start_panic;
    "C01" lifecycle_start_err_policy;
    "C01" lifecycle_killed;
    "C01" lifecycle_killed_while_handling;
    "C01" lifecycle_panicked;
    "C01" lifecycle_stop_err;
    "C01" lifecycle_last_ref;
    "C01" lifecycle_full_mailbox;
    "C01" lifecycle_no_references_left;
    "C01" lifecycle_stop_err_whatever_the_end;
    "C01" lifecycle_killed_while_starting;
    "C01" lifecycle_every_end;
    "C02" startup_buffer_order;
    "C02" startup_full_mailbox;
    "C02" startup_stop_waits;
    "C02" startup_failing_message;
    "C02" mailbox_order;
    "C02" one_at_a_time;
    "C02" stop_behind_messages;
    "C02" startup_many;
    "C02" startup_asks;
    "C02" busy_queue;
    "C03" contained_panic_continue;
    "C03" contained_error_continue;
    "C03" contained_error_break;
    "C03" contained_ask_error_is_reply;
    "C03" contained_panic_stops;
    "C03" contained_ask_panic;
    "C03" contained_link_hook;
    "C03" contained_link_hook_err;
    "C03" contained_payloads;
    "C03" contained_queue_intact;
    "C03" contained_on_panic_err;
    "C03" error_hook;
    "C05" links_notified_all;
    "C05" links_reasons;
    "C05" links_default_policy;
    "C05" links_start_failure;
    "C05" links_removed_after_death;
    "C05" links_both_dying_full;
    "C05" links_full_mailbox;
    "C05" links_many;
}

async fn settle() {
    tokio::time::sleep(Duration::from_millis(50)).await;
}

async fn run(p: Probe, script: impl FnOnce(&ActorRef<Probe>)) -> (Probe, String) {
    let prep = PreparedActor::new(mailbox::unbounded());
    script(prep.actor_ref());
    let (p, r) = prep.run(p).await;
    (p, reason(&r))
}

async fn lifecycle_normal() -> Res {
    let l = log();
    let (p, r) = run(Probe::new("a", &l), |a| {
        let _ = a.tell(Echo(1)).try_send();
        let _ = a.tell(Echo(2)).try_send();
    })
    .await;
    same!(entries(&l), vec!["a.start true", "a.echo 1", "a.echo 2", "a.stop normal n=1002"], "hooks");
    same!(r, "normal", "returned reason");
    same!(p.n, 1002, "returned state");
    Ok(())
}

async fn lifecycle_start_err() -> Res {
    let l = log();
    let a = kameo::spawn(Probe { start: How::Err, ..Probe::new("a", &l) });
    same!(a.wait_for_startup_result().await.is_err(), true, "startup result");
    let _ = a.tell(Echo(1)).try_send();
    a.wait_for_shutdown().await;
    settle().await;
    same!(entries(&l), vec!["a.start true", "a.panic err:start", "a.stop panicked(err:start) n=1000"], "hooks");
    Ok(())
}

async fn lifecycle_start_panic() -> Res {
    let l = log();
    let a = kameo::spawn(Probe { start: How::Panic, ..Probe::new("a", &l) });
    a.wait_for_startup().await;
    a.wait_for_shutdown().await;
    settle().await;
    same!(entries(&l), vec!["a.start true", "a.panic str:start panics", "a.stop panicked(str:start panics) n=1000"], "hooks");
    Ok(())
}

async fn lifecycle_start_err_policy() -> Res {
    for (pol, want) in [(Some(true), "panicked(err:start)"), (Some(false), "normal")] {
        let l = log();
        let (_, r) = run(Probe { start: How::Err, on_panic: pol, ..Probe::new("a", &l) }, |a| {
            let _ = a.tell(Echo(1)).try_send();
        })
        .await;
        same!(r, want, "returned reason for {pol:?}");
        same!(entries(&l)[2], format!("a.stop {want} n=1000"), "on_stop");
    }
    Ok(())
}

async fn lifecycle_killed() -> Res {
    let l = log();
    let a = kameo::spawn(Probe::new("a", &l));
    a.wait_for_startup().await;
    settle().await;
    a.kill();
    a.wait_for_shutdown().await;
    settle().await;
    same!(entries(&l), vec!["a.start true", "a.stop killed n=1000"], "hooks");
    ensure!(!a.is_alive(), "alive after kill");
    Ok(())
}

async fn lifecycle_killed_while_handling() -> Res {
    let l = log();
    let a = kameo::spawn(Probe::new("a", &l));
    let gate = Arc::new(Notify::new());
    a.tell(Wait(gate)).await.map_err(|e| e.to_string())?;
    a.tell(Echo(1)).await.map_err(|e| e.to_string())?;
    settle().await;
    a.kill();
    a.wait_for_shutdown().await;
    settle().await;
    same!(entries(&l), vec!["a.start true", "a.wait", "a.stop killed n=1001"], "hooks");
    Ok(())
}

async fn lifecycle_panicked() -> Res {
    let l = log();
    let (_, r) = run(Probe::new("a", &l), |a| {
        let _ = a.tell(Fail(How::Panic)).try_send();
        let _ = a.tell(Echo(2)).try_send();
    })
    .await;
    same!(r, "panicked(str:handler panics)", "returned reason");
    same!(entries(&l), vec!["a.start true", "a.fail Panic", "a.panic str:handler panics", "a.stop panicked(str:handler panics) n=1001"], "hooks");
    Ok(())
}

async fn lifecycle_stop_err() -> Res {
    let l = log();
    let a = kameo::spawn(Probe { stop: How::Err, ..Probe::new("a", &l) });
    a.stop_gracefully().await.map_err(|e| e.to_string())?;
    let r = a.wait_for_shutdown_result().await;
    same!(r, Err(E("stop")), "shutdown result");
    let b = kameo::spawn(Probe::new("b", &l));
    b.stop_gracefully().await.map_err(|e| e.to_string())?;
    same!(b.wait_for_shutdown_result().await, Ok(()), "shutdown result");
    same!(b.wait_for_startup_result().await, Ok(()), "startup result");
    Ok(())
}

async fn lifecycle_last_ref() -> Res {
    let l = log();
    let a = kameo::spawn(Probe::new("a", &l));
    a.tell(Echo(1)).await.map_err(|e| e.to_string())?;
    let w = a.downgrade();
    drop(a);
    settle().await;
    same!(entries(&l), vec!["a.start true", "a.echo 1", "a.stop normal n=1001"], "hooks");
    ensure!(w.upgrade().is_none(), "upgraded after the end");
    Ok(())
}

async fn lifecycle_full_mailbox() -> Res {
    let l = log();
    let prep = PreparedActor::new(mailbox::bounded(1));
    let _ = prep.actor_ref().tell(Echo(1)).try_send();
    let a = prep.actor_ref().clone();
    prep.spawn(Probe::new("a", &l));
    a.wait_for_startup().await;
    same!(a.ask(Echo(2)).await.map_err(|e| e.to_string())?, 2, "reply");
    same!(entries(&l), vec!["a.start true", "a.echo 1", "a.echo 2"], "hooks");
    Ok(())
}

async fn lifecycle_no_references_left() -> Res {
    let l = log();
    drop(kameo::spawn(Probe { start: How::Err, ..Probe::new("a", &l) }));
    drop(kameo::spawn(Probe { stop: How::Err, ..Probe::new("b", &l) }));
    settle().await;
    let mut e = entries(&l);
    e.sort();
    same!(e, vec!["a.panic err:start", "a.start true", "a.stop panicked(err:start) n=1000", "b.start true", "b.stop normal n=1000"], "hooks");
    Ok(())
}

async fn startup_buffer_order() -> Res {
    let l = log();
    let g = Arc::new(Notify::new());
    let a = kameo::spawn(Probe { start_gate: Some(g.clone()), ..Probe::new("a", &l) });
    for i in 0..20 {
        a.tell(Echo(i)).await.map_err(|e| e.to_string())?;
    }
    settle().await;
    same!(entries(&l).len(), 1, "events before on_start finished");
    g.notify_one();
    for i in 20..30 {
        a.tell(Echo(i)).await.map_err(|e| e.to_string())?;
    }
    settle().await;
    let want: Vec<String> = std::iter::once("a.start true".into()).chain((0..30).map(|i| format!("a.echo {i}"))).collect();
    same!(entries(&l), want, "messages");
    Ok(())
}

async fn startup_full_mailbox() -> Res {
    for cap in 1..6u64 {
        let l = log();
        let g = Arc::new(Notify::new());
        let a = spawn_with_mailbox(Probe { start_gate: Some(g.clone()), ..Probe::new("a", &l) }, mailbox::bounded(cap as usize));
        for i in 0..cap {
            a.tell(Echo(i)).try_send().map_err(|e| e.to_string())?;
        }
        settle().await;
        g.notify_one();
        for i in cap..10 {
            a.tell(Echo(i)).await.map_err(|e| e.to_string())?;
        }
        a.wait_for_startup().await;
        settle().await;
        let want: Vec<String> = std::iter::once("a.start true".into()).chain((0..10).map(|i| format!("a.echo {i}"))).collect();
        same!(entries(&l), want, "messages with capacity {cap}");
    }
    Ok(())
}

async fn startup_stop_waits() -> Res {
    let l = log();
    let g = Arc::new(Notify::new());
    let a = kameo::spawn(Probe { start_gate: Some(g.clone()), ..Probe::new("a", &l) });
    for i in 0..5 {
        a.tell(Echo(i)).await.map_err(|e| e.to_string())?;
    }
    a.stop_gracefully().await.map_err(|e| e.to_string())?;
    settle().await;
    g.notify_one();
    a.wait_for_shutdown().await;
    settle().await;
    let mut want: Vec<String> = std::iter::once("a.start true".into()).chain((0..5).map(|i| format!("a.echo {i}"))).collect();
    want.push("a.stop normal n=1005".into());
    same!(entries(&l), want, "messages");
    Ok(())
}

async fn startup_failing_message() -> Res {
    for how in [How::Err, How::Panic] {
        let l = log();
        let g = Arc::new(Notify::new());
        let a = kameo::spawn(Probe { start_gate: Some(g.clone()), on_panic: Some(true), ..Probe::new("a", &l) });
        a.tell(Echo(0)).await.map_err(|e| e.to_string())?;
        a.tell(Fail(how)).await.map_err(|e| e.to_string())?;
        a.tell(Echo(1)).await.map_err(|e| e.to_string())?;
        a.stop_gracefully().await.map_err(|e| e.to_string())?;
        settle().await;
        g.notify_one();
        a.wait_for_shutdown().await;
        settle().await;
        let e = entries(&l);
        same!(e.len(), 6, "events {e:?}");
        same!(e[4], "a.echo 1", "the message behind the failing one");
        same!(e[5], "a.stop normal n=1003", "the end");
    }
    Ok(())
}

async fn mailbox_order() -> Res {
    let l = log();
    let a = kameo::spawn(Probe::new("a", &l));
    a.wait_for_startup().await;
    for i in 0..200 {
        match i % 3 {
            0 => a.tell(Echo(i)).await.map_err(|e| e.to_string())?,
            1 => {
                a.ask(Echo(i)).await.map_err(|e| e.to_string())?;
            }
            _ => a.tell(Echo(i)).try_send().map_err(|e| e.to_string())?,
        }
    }
    settle().await;
    let want: Vec<String> = std::iter::once("a.start true".into()).chain((0..200).map(|i| format!("a.echo {i}"))).collect();
    same!(entries(&l), want, "messages");
    Ok(())
}

async fn one_at_a_time() -> Res {
    let l = log();
    let a = kameo::spawn(Probe::new("a", &l));
    let g = Arc::new(Notify::new());
    a.tell(Wait(g.clone())).await.map_err(|e| e.to_string())?;
    a.tell(Echo(1)).await.map_err(|e| e.to_string())?;
    a.tell(Wait(g.clone())).await.map_err(|e| e.to_string())?;
    settle().await;
    g.notify_one();
    settle().await;
    g.notify_one();
    settle().await;
    same!(entries(&l), vec!["a.start true", "a.wait", "a.waited", "a.echo 1", "a.wait", "a.waited"], "messages");
    Ok(())
}

async fn stop_behind_messages() -> Res {
    let l = log();
    let a = kameo::spawn(Probe::new("a", &l));
    a.wait_for_startup().await;
    for i in 0..10 {
        a.tell(Echo(i)).await.map_err(|e| e.to_string())?;
    }
    a.stop_gracefully().await.map_err(|e| e.to_string())?;
    let late = a.tell(Echo(99)).try_send();
    a.wait_for_shutdown().await;
    settle().await;
    let mut want: Vec<String> = std::iter::once("a.start true".into()).chain((0..10).map(|i| format!("a.echo {i}"))).collect();
    want.push("a.stop normal n=1010".into());
    same!(entries(&l), want, "messages (late send: {late:?})");
    match a.tell(Echo(5)).await {
        Err(SendError::ActorNotRunning(Echo(5))) => Ok(()),
        r => Err(format!("tell after the end: {r:?}")),
    }
}

async fn contained_panic_continue() -> Res {
    let l = log();
    let a = kameo::spawn(Probe { on_panic: Some(true), ..Probe::new("a", &l) });
    a.tell(Fail(How::Panic)).await.map_err(|e| e.to_string())?;
    same!(a.ask(Echo(1)).await.map_err(|e| e.to_string())?, 1, "reply after a panic");
    same!(entries(&l), vec!["a.start true", "a.fail Panic", "a.panic str:handler panics", "a.echo 1"], "hooks");
    Ok(())
}

async fn contained_error_continue() -> Res {
    let l = log();
    let a = kameo::spawn(Probe { on_panic: Some(true), ..Probe::new("a", &l) });
    a.tell(Fail(How::Err)).await.map_err(|e| e.to_string())?;
    a.tell(Fail(How::Ok)).await.map_err(|e| e.to_string())?;
    same!(a.ask(Echo(1)).await.map_err(|e| e.to_string())?, 1, "reply after an error");
    same!(entries(&l), vec!["a.start true", "a.fail Err", "a.panic err:handler", "a.fail Ok", "a.echo 1"], "hooks");
    Ok(())
}

async fn contained_error_break() -> Res {
    let l = log();
    let a = kameo::spawn(Probe { on_panic: Some(false), ..Probe::new("a", &l) });
    a.tell(Fail(How::Err)).await.map_err(|e| e.to_string())?;
    a.wait_for_shutdown().await;
    settle().await;
    same!(entries(&l), vec!["a.start true", "a.fail Err", "a.panic err:handler", "a.stop normal n=1001"], "hooks");
    Ok(())
}

async fn contained_ask_error_is_reply() -> Res {
    let l = log();
    let a = kameo::spawn(Probe::new("a", &l));
    match a.ask(Fail(How::Err)).await {
        Err(SendError::HandlerError(E("handler"))) => {}
        r => return Err(format!("ask: {r:?}")),
    }
    same!(a.ask(Fail(How::Ok)).await.map_err(|e| format!("{e:?}"))?, 7, "reply");
    same!(entries(&l), vec!["a.start true", "a.fail Err", "a.fail Ok"], "an error replied to an ask is not a panic");
    Ok(())
}

async fn contained_panic_stops() -> Res {
    let l = log();
    let a = kameo::spawn(Probe::new("a", &l));
    a.tell(Fail(How::Panic)).await.map_err(|e| e.to_string())?;
    a.wait_for_shutdown().await;
    settle().await;
    same!(entries(&l), vec!["a.start true", "a.fail Panic", "a.panic str:handler panics", "a.stop panicked(str:handler panics) n=1001"], "hooks");
    Ok(())
}

async fn contained_ask_panic() -> Res {
    let l = log();
    let a = kameo::spawn(Probe { on_panic: Some(true), ..Probe::new("a", &l) });
    match a.ask(Fail(How::Panic)).await {
        Err(SendError::ActorStopped) => {}
        r => return Err(format!("ask of a panicking handler: {r:?}")),
    }
    same!(a.ask(Echo(1)).await.map_err(|e| e.to_string())?, 1, "reply after a panic");
    Ok(())
}

async fn contained_link_hook() -> Res {
    let l = log();
    let a = kameo::spawn(Probe { on_panic: Some(true), link_died: Some(How::Panic), ..Probe::new("a", &l) });
    let b = spawn_link(&a, Probe::new("b", &l)).await;
    b.wait_for_startup().await;
    b.kill();
    b.wait_for_shutdown().await;
    settle().await;
    same!(a.ask(Echo(1)).await.map_err(|e| e.to_string())?, 1, "reply after a panicking link hook");
    ensure!(entries(&l).iter().any(|x| x == "a.panic str:link panics"), "on_panic: {:?}", entries(&l));
    Ok(())
}

async fn contained_link_hook_err() -> Res {
    let l = log();
    let a = kameo::spawn(Probe { link_died: Some(How::Err), ..Probe::new("a", &l) });
    let b = spawn_link(&a, Probe::new("b", &l)).await;
    b.wait_for_startup().await;
    b.stop_gracefully().await.map_err(|e| e.to_string())?;
    a.wait_for_shutdown().await;
    settle().await;
    let e = entries(&l);
    ensure!(e.iter().any(|x| x == "a.panic err:link"), "on_panic: {e:?}");
    ensure!(e.iter().any(|x| x.starts_with("a.stop panicked(err:link)")), "on_stop: {e:?}");
    Ok(())
}

async fn links_notified_all() -> Res {
    let l = log();
    let hub = kameo::spawn(Probe::new("h", &l));
    let mut v = vec![];
    for n in ["a", "b", "c", "d"] {
        let x = kameo::spawn(Probe { link_died: Some(How::Ok), ..Probe::new(n, &l) });
        x.link(&hub).await;
        v.push(x);
    }
    hub.wait_for_startup().await;
    hub.kill();
    hub.wait_for_shutdown().await;
    settle().await;
    let mut e: Vec<String> = entries(&l).into_iter().filter(|x| x.contains(".link ")).collect();
    e.sort();
    let id = hub.id().sequence_id();
    let want: Vec<String> = ["a", "b", "c", "d"].iter().map(|n| format!("{n}.link {id} killed")).collect();
    same!(e, want, "notifications");
    Ok(())
}

async fn links_reasons() -> Res {
    let l = log();
    let a = kameo::spawn(Probe { link_died: Some(How::Ok), ..Probe::new("a", &l) });
    let mut want = vec![];
    for i in 0..4 {
        let b = spawn_link(&a, Probe::new("b", &l)).await;
        b.wait_for_startup().await;
        let id = b.id().sequence_id();
        match i {
            0 => {
                b.stop_gracefully().await.map_err(|e| e.to_string())?;
                want.push(format!("a.link {id} normal"));
            }
            1 => {
                b.kill();
                want.push(format!("a.link {id} killed"));
            }
            2 => {
                b.tell(Fail(How::Panic)).await.map_err(|e| e.to_string())?;
                want.push(format!("a.link {id} panicked(str:handler panics)"));
            }
            _ => {
                let c = spawn_link(&b, Probe::new("c", &l)).await;
                c.wait_for_startup().await;
                c.kill();
                want.push(format!("a.link {id} link(killed)"));
            }
        }
        b.wait_for_shutdown().await;
        settle().await;
    }
    let e: Vec<String> = entries(&l).into_iter().filter(|x| x.starts_with("a.link ")).collect();
    same!(e, want, "notifications");
    Ok(())
}

#[derive(kameo::Actor)]
struct Plain;

async fn links_default_policy() -> Res {
    for kill in [false, true] {
        let l = log();
        let a = kameo::spawn(Plain);
        let b = spawn_link(&a, Probe::new("b", &l)).await;
        b.wait_for_startup().await;
        if kill {
            b.kill()
        } else {
            b.stop_gracefully().await.map_err(|e| e.to_string())?
        }
        b.wait_for_shutdown().await;
        settle().await;
        same!(a.is_alive(), !kill, "the linked actor after a {} end", if kill { "killed" } else { "normal" });
    }
    Ok(())
}

async fn links_start_failure() -> Res {
    let l = log();
    let a = kameo::spawn(Probe { link_died: Some(How::Ok), ..Probe::new("a", &l) });
    let b = spawn_link(&a, Probe { start: How::Err, ..Probe::new("b", &l) }).await;
    b.wait_for_shutdown().await;
    settle().await;
    let e: Vec<String> = entries(&l).into_iter().filter(|x| x.starts_with("a.link ")).collect();
    same!(e, vec![format!("a.link {} panicked(err:start)", b.id().sequence_id())], "notifications");
    Ok(())
}

async fn links_removed_after_death() -> Res {
    let l = log();
    let a = kameo::spawn(Probe { link_died: Some(How::Ok), ..Probe::new("a", &l) });
    let b = spawn_link(&a, Probe { link_died: Some(How::Ok), ..Probe::new("b", &l) }).await;
    let c = spawn_link(&a, Probe { link_died: Some(How::Ok), ..Probe::new("c", &l) }).await;
    b.wait_for_startup().await;
    b.kill();
    b.wait_for_shutdown().await;
    settle().await;
    a.kill();
    a.wait_for_shutdown().await;
    settle().await;
    let e: Vec<String> = entries(&l).into_iter().filter(|x| x.contains(".link ")).collect();
    same!(e, vec![format!("a.link {} killed", b.id().sequence_id()), format!("c.link {} killed", a.id().sequence_id())], "notifications");
    let _ = c;
    Ok(())
}

/// two linked actors die at once while both mailboxes are full
async fn links_both_dying_full() -> Res {
    let l = log();
    let a = spawn_with_mailbox(Probe::new("a", &l), mailbox::bounded(1));
    let b = spawn_with_mailbox(Probe::new("b", &l), mailbox::bounded(1));
    a.link(&b).await;
    a.wait_for_startup().await;
    b.wait_for_startup().await;
    let g = Arc::new(Notify::new());
    for x in [&a, &b] {
        x.tell(Wait(g.clone())).await.map_err(|e| e.to_string())?;
        settle().await;
        x.tell(Echo(1)).try_send().map_err(|e| e.to_string())?;
    }
    a.kill();
    b.kill();
    for x in [&a, &b] {
        ensure!(tokio::time::timeout(Duration::from_secs(10), x.wait_for_shutdown()).await.is_ok(), "an actor never finishes shutting down");
    }
    Ok(())
}

async fn end(a: &ActorRef<Probe>, how: &str) -> Res {
    match how {
        "normal" => a.stop_gracefully().await.map_err(|e| e.to_string())?,
        "killed" => a.kill(),
        "panicked(str:handler panics)" => a.tell(Fail(How::Panic)).await.map_err(|e| e.to_string())?,
        "panicked(err:handler)" => a.tell(Fail(How::Err)).await.map_err(|e| e.to_string())?,
        "link(killed)" => {
            let c = spawn_link(a, Probe::new("c", &log())).await;
            c.wait_for_startup().await;
            c.kill();
        }
        _ => {}
    }
    Ok(())
}
const ENDS: [&str; 5] = ["normal", "killed", "panicked(str:handler panics)", "panicked(err:handler)", "link(killed)"];

/// the outcome of on_stop is published whatever the actor stopped for
async fn lifecycle_stop_err_whatever_the_end() -> Res {
    for how in ENDS {
        for stop in [How::Ok, How::Err] {
            let l = log();
            let a = kameo::spawn(Probe { stop, ..Probe::new("a", &l) });
            a.wait_for_startup().await;
            end(&a, how).await?;
            let r = tokio::time::timeout(Duration::from_secs(10), a.wait_for_shutdown_result()).await.map_err(|_| format!("no shutdown result after {how}"))?;
            same!(r, if stop == How::Ok { Ok(()) } else { Err(E("stop")) }, "shutdown result after {how}");
        }
    }
    let l = log();
    let a = kameo::spawn(Probe { start: How::Err, stop: How::Err, ..Probe::new("a", &l) });
    same!(a.wait_for_shutdown_result().await, Err(E("stop")), "shutdown result after a failed start");
    same!(a.wait_for_startup_result().await, Err(E("start")), "startup result");
    Ok(())
}

async fn lifecycle_killed_while_starting() -> Res {
    let l = log();
    let g = Arc::new(Notify::new());
    let a = kameo::spawn(Probe { start_gate: Some(g.clone()), ..Probe::new("a", &l) });
    a.tell(Echo(1)).await.map_err(|e| e.to_string())?;
    settle().await;
    a.kill();
    settle().await;
    g.notify_one();
    ensure!(tokio::time::timeout(Duration::from_secs(10), a.wait_for_shutdown()).await.is_ok(), "never shut down");
    settle().await;
    same!(entries(&l), vec!["a.start true", "a.stop killed n=1000"], "hooks");
    same!(a.wait_for_startup_result().await, Ok(()), "startup result");
    Ok(())
}

/// on_stop hears the reason the actor stopped for, on the final state, after everything else
async fn lifecycle_every_end() -> Res {
    for how in ENDS {
        for bounded in [false, true] {
            let l = log();
            let a = spawn_with_mailbox(Probe::new("a", &l), if bounded { mailbox::bounded(2) } else { mailbox::unbounded() });
            a.ask(Echo(1)).await.map_err(|e| e.to_string())?;
            end(&a, how).await?;
            a.wait_for_shutdown().await;
            settle().await;
            let e = entries(&l);
            let stops: Vec<&String> = e.iter().filter(|x| x.starts_with("a.stop")).collect();
            same!(stops.len(), 1, "on_stop runs after {how}: {e:?}");
            let n = if how.starts_with("panicked") { 1002 } else { 1001 };
            same!(e.last().cloned().unwrap(), format!("a.stop {how} n={n}"), "the end");
        }
    }
    Ok(())
}

/// more messages than any buffer of fixed size holds
async fn startup_many() -> Res {
    let l = log();
    let g = Arc::new(Notify::new());
    let a = spawn_with_mailbox(Probe { start_gate: Some(g.clone()), ..Probe::new("a", &l) }, mailbox::unbounded());
    for i in 0..3000 {
        a.tell(Echo(i)).try_send().map_err(|e| e.to_string())?;
    }
    settle().await;
    g.notify_one();
    a.stop_gracefully().await.map_err(|e| e.to_string())?;
    a.wait_for_shutdown().await;
    settle().await;
    let e = entries(&l);
    same!(e.len(), 3002, "hooks and messages");
    for i in 0..3000 {
        same!(e[i + 1], format!("a.echo {i}"), "message {i}");
    }
    Ok(())
}

async fn startup_asks() -> Res {
    let l = log();
    let g = Arc::new(Notify::new());
    let a = kameo::spawn(Probe { start_gate: Some(g.clone()), ..Probe::new("a", &l) });
    let mut hs = vec![];
    for i in 0..10u64 {
        let a = a.clone();
        hs.push(tokio::spawn(async move {
            match i % 3 {
                0 => a.ask(Echo(i)).await.map_err(|e| e.to_string()),
                1 => a.tell(Echo(i)).await.map(|_| i).map_err(|e| e.to_string()),
                _ => a.ask(Echo(i)).enqueue().await.map_err(|e| e.to_string())?.await.map_err(|e| e.to_string()),
            }
        }));
        settle().await;
    }
    g.notify_one();
    for (i, h) in hs.into_iter().enumerate() {
        same!(h.await.map_err(|e| e.to_string())?, Ok(i as u64), "reply {i}");
    }
    let want: Vec<String> = std::iter::once("a.start true".into()).chain((0..10).map(|i| format!("a.echo {i}"))).collect();
    same!(entries(&l), want, "messages");
    Ok(())
}

/// a long queue behind failing messages stays whole and in order
async fn busy_queue() -> Res {
    let l = log();
    let a = spawn_with_mailbox(Probe { on_panic: Some(true), link_died: Some(How::Ok), ..Probe::new("a", &l) }, mailbox::unbounded());
    let g = Arc::new(Notify::new());
    a.tell(Wait(g.clone())).await.map_err(|e| e.to_string())?;
    settle().await;
    let mut want = vec!["a.start true".to_string(), "a.wait".into(), "a.waited".into()];
    let b = spawn_link(&a, Probe::new("b", &log())).await;
    for i in 0..400u64 {
        if i == 200 {
            b.kill();
            b.wait_for_shutdown().await;
            want.push(format!("a.link {} killed", b.id().sequence_id()));
        }
        match i % 50 {
            7 => {
                a.tell(Fail(How::Panic)).await.map_err(|e| e.to_string())?;
                want.push("a.fail Panic".into());
                want.push("a.panic str:handler panics".into());
            }
            9 => {
                a.tell(Fail(How::Err)).await.map_err(|e| e.to_string())?;
                want.push("a.fail Err".into());
                want.push("a.panic err:handler".into());
            }
            _ => {
                a.tell(Echo(i)).await.map_err(|e| e.to_string())?;
                want.push(format!("a.echo {i}"));
            }
        }
    }
    g.notify_one();
    a.stop_gracefully().await.map_err(|e| e.to_string())?;
    a.wait_for_shutdown().await;
    settle().await;
    want.push("a.stop normal n=1401".into());
    same!(entries(&l), want, "messages");
    Ok(())
}

/// panics with a payload of some kind
#[derive(Debug, Clone)]
struct Throw(u8);
impl kameo::message::Message<Throw> for Probe {
    type Reply = ();
    async fn handle(&mut self, m: Throw, _: &mut kameo::message::Context<Self, ()>) {
        match m.0 {
            0 => panic!("literal"),
            1 => panic!("formatted {}", self.n),
            2 => std::panic::panic_any(E("value")),
            3 => std::panic::panic_any(Box::new(5u8)),
            _ => {
                tokio::task::yield_now().await;
                panic!("after {}", "await")
            }
        }
    }
}

async fn contained_payloads() -> Res {
    for (k, want) in [(0, "str:literal"), (1, "str:formatted 1001"), (2, "any:Any { .. }"), (4, "str:after await")] {
        for ask in [false, true] {
            let l = log();
            let a = kameo::spawn(Probe { on_panic: Some(true), ..Probe::new("a", &l) });
            if ask {
                ensure!(matches!(a.ask(Throw(k)).await, Err(SendError::ActorStopped)), "ask of a panicking handler");
            } else {
                a.tell(Throw(k)).await.map_err(|e| e.to_string())?;
            }
            same!(a.ask(Echo(1)).await.map_err(|e| e.to_string())?, 1, "reply after a panic");
            same!(entries(&l), vec!["a.start true".to_string(), format!("a.panic {want}"), "a.echo 1".into()], "hooks");
        }
    }
    let l = log();
    let a = kameo::spawn(Probe { on_panic: Some(true), ..Probe::new("a", &l) });
    a.tell(Throw(3)).await.map_err(|e| e.to_string())?;
    same!(a.ask(Echo(1)).await.map_err(|e| e.to_string())?, 1, "reply after a panic");
    same!(entries(&l).iter().filter(|x| x.starts_with("a.panic")).count(), 1, "on_panic");
    Ok(())
}

async fn contained_queue_intact() -> Res {
    let l = log();
    let a = spawn_with_mailbox(Probe { on_panic: Some(true), ..Probe::new("a", &l) }, mailbox::unbounded());
    a.tell(Throw(0)).await.map_err(|e| e.to_string())?;
    for i in 0..150 {
        a.tell(Echo(i)).try_send().map_err(|e| e.to_string())?;
    }
    same!(a.ask(Echo(150)).await.map_err(|e| e.to_string())?, 150, "reply");
    let e = entries(&l);
    same!(e[2..].to_vec(), (0..151).map(|i| format!("a.echo {i}")).collect::<Vec<_>>(), "the queue behind a panic");
    Ok(())
}

struct Bad(bool);
impl kameo::Actor for Bad {
    type Error = E;
    async fn on_panic(&mut self, _: kameo::actor::WeakActorRef<Self>, _: kameo::error::PanicError) -> Result<std::ops::ControlFlow<kameo::error::ActorStopReason>, E> {
        Err(E("on_panic"))
    }
    async fn on_start(&mut self, _: ActorRef<Self>) -> Result<(), E> {
        if self.0 { Ok(()) } else { Err(E("start")) }
    }
}
impl kameo::message::Message<Echo> for Bad {
    type Reply = ();
    async fn handle(&mut self, _: Echo, _: &mut kameo::message::Context<Self, ()>) {
        panic!("handler")
    }
}

async fn contained_on_panic_err() -> Res {
    let prep = PreparedActor::new(mailbox::unbounded());
    let _ = prep.actor_ref().tell(Echo(0)).try_send();
    let (_, r) = prep.run(Bad(true)).await;
    same!(reason(&r), "panicked(err:on_panic)", "the reason after on_panic failed");
    let (_, r) = PreparedActor::new(mailbox::unbounded()).run(Bad(false)).await;
    same!(reason(&r), "panicked(err:on_panic)", "the reason after on_panic failed about a failed start");
    Ok(())
}

static HOOKED: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
fn hook(e: &kameo::error::PanicError) {
    HOOKED.lock().unwrap().push(perr(e));
}

async fn error_hook() -> Res {
    kameo::error::set_actor_error_hook(hook);
    let took = || std::mem::take(&mut *HOOKED.lock().unwrap());
    took();
    let a = kameo::spawn(Probe { start: How::Err, ..Probe::new("a", &log()) });
    a.wait_for_shutdown().await;
    same!(took(), vec!["err:start"], "the error hook after a failed on_start");
    let a = kameo::spawn(Probe { start: How::Panic, ..Probe::new("a", &log()) });
    a.wait_for_shutdown().await;
    same!(took(), vec!["str:start panics"], "the error hook after a panicking on_start");
    for how in ENDS {
        let a = kameo::spawn(Probe { stop: How::Err, ..Probe::new("a", &log()) });
        a.wait_for_startup().await;
        end(&a, how).await?;
        a.wait_for_shutdown().await;
        same!(took(), vec!["err:stop"], "the error hook after a failed on_stop ({how})");
        let a = kameo::spawn(Probe::new("a", &log()));
        a.wait_for_startup().await;
        end(&a, how).await?;
        a.wait_for_shutdown().await;
        same!(took(), Vec::<String>::new(), "the error hook after on_stop succeeded ({how})");
    }
    Ok(())
}

/// the linked actor is busy and its mailbox full when the other one dies
async fn links_full_mailbox() -> Res {
    for cap in [1, 2] {
        for how in ENDS {
            let l = log();
            let a = spawn_with_mailbox(Probe { link_died: Some(How::Ok), ..Probe::new("a", &l) }, mailbox::bounded(cap));
            let b = kameo::spawn(Probe::new("b", &log()));
            a.wait_for_startup().await;
            b.wait_for_startup().await;
            a.link(&b).await;
            let g = Arc::new(Notify::new());
            a.tell(Wait(g.clone())).await.map_err(|e| e.to_string())?;
            settle().await;
            for i in 0..cap {
                a.tell(Echo(i as u64)).try_send().map_err(|e| e.to_string())?;
            }
            end(&b, how).await?;
            tokio::time::sleep(Duration::from_secs(5)).await;
            g.notify_one();
            ensure!(tokio::time::timeout(Duration::from_secs(10), b.wait_for_shutdown()).await.is_ok(), "the dying actor hangs");
            settle().await;
            let e: Vec<String> = entries(&l).into_iter().filter(|x| x.starts_with("a.link ")).collect();
            same!(e, vec![format!("a.link {} {how}", b.id().sequence_id())], "notifications");
        }
    }
    Ok(())
}

async fn links_many() -> Res {
    let l = log();
    let hub = kameo::spawn(Probe { link_died: Some(How::Ok), ..Probe::new("h", &l) });
    let mut v = vec![];
    for i in 0..150 {
        let x = spawn_with_mailbox(Probe { link_died: Some(How::Ok), ..Probe::new("x", &l) }, if i % 2 == 0 { mailbox::bounded(1) } else { mailbox::unbounded() });
        if i % 3 == 0 { x.link(&hub).await } else { hub.link(&x).await }
        v.push(x);
    }
    for (i, x) in v.iter().enumerate() {
        x.wait_for_startup().await;
        if i % 10 == 0 {
            x.kill();
            x.wait_for_shutdown().await;
        }
        if i % 10 == 1 {
            hub.unlink(x).await;
        }
    }
    settle().await;
    hub.kill();
    hub.wait_for_shutdown().await;
    settle().await;
    let n = entries(&l).into_iter().filter(|x| x.starts_with("x.link ")).count();
    same!(n, 150 - 15 - 15, "notifications of the hub's death: to all but the dead and the ones unlinked before");
    same!(entries(&l).into_iter().filter(|x| x.starts_with("h.link ")).count(), 15, "notifications to the hub");
    Ok(())
}
