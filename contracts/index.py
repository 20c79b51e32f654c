"""The properties: what they say, which contracts decide them, which native scenarios replay them."""

LIB = ['rustc (nightly) MIR construction', 'kmir extractor (/verif/kmir)', 'kmv symbolic executor (/verif/kmv)', 'z3']
COMMON = [
    'contracts assumed on std, tokio, futures, once_cell (kmv/lib.py): each is listed in coverage.trusted_base when a run uses it',
    'every pending future is eventually woken or dropped with its scope (liveness of the runtime); polls are taken to completion',
    'machine integers are mathematical integers with their type bounds; overflow checks are proof obligations where the MIR has them',
    'generic code is verified once for an arbitrary actor/message/reply type; user hooks may return anything, panic, and change what they borrow mutably',
]


def p(title, statement, over, text, why, files, mech, jobs, replay=None, assumptions=(), level='proof', note='', na=None):
    return dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, jobs=jobs, replay=replay,
                assumptions=list(assumptions) + COMMON, trusted=LIB, level=level, note=note, na=na)


S, A, G, K, T = 'src/actor/spawn.rs', 'src/actor/actor_ref.rs', 'src/actor/kind.rs', 'src/request/ask.rs', 'src/request/tell.rs'
PROPS = {
    'C01': p('Lifecycle hooks run in order, exactly once, with the right arguments',
             'For every actor, on_start runs exactly once before any message is processed and on_stop runs exactly once after the last one, on the final actor state and with the reason the actor '
             'really stopped for. A failed or panicking on_start means no message is ever handled, the failure goes to on_panic and decides the stop reason. The startup and shutdown results that '
             'others wait for are published exactly once, match what the hooks returned, and a running actor holds no strong reference to itself.',
             ['programs', 'schedules', 'histories'], 'every actor type, hook outcome (Ok, Err, panic), kill point and mailbox state',
             'tests run a few actors on one schedule each; they cannot enumerate hook outcomes, cancellation at every await, or full mailboxes',
             [S, 'src/actor.rs'], [('run_actor_lifecycle', S), ('PreparedActor', S)],
             [('lifecycle', ['run_actor_lifecycle']), ('spawning', ['*']), ('behaviour', ['default on_start', 'default on_stop', 'new_from_actor', 'shutdown', 'handle_startup_finished', 'on_shutdown', 'next']),
              ('mailbox', ['signal_startup_finished', 'weak signal_startup_finished']), ('refs', ['wait_for_startup', 'wait_startup', 'wait_for_shutdown', 'wait_for_stop', 'wait_for_shutdown_result', 'wait_stop_result', 'downgrade', 'WeakActorRef::upgrade'])], ('replay', ['C01']),
             ['on_stop does not panic and the error hook does not panic']),
    'C02': p('Every signal is handled once, in mailbox order; startup loses nothing',
             'An actor takes signals one at a time in mailbox order, gives each to the one handler for its kind exactly once, and takes the next only after that handler finished. Messages sent from '
             'outside before on_start finished are kept in order and handled before anything received later; none is lost, also not when one of them fails or the actor is asked to stop meanwhile.',
             ['histories', 'schedules', 'inputs'], 'every finite history of signals, every buffer content, every handler outcome',
             'tests send a handful of messages after startup; the order and loss claims quantify over all histories and over the race between startup and sends',
             [G, S], [('recv_mailbox_loop', S), ('ActorBehaviour', G)],
             [('lifecycle', ['recv_mailbox_loop', 'abortable_actor_loop', 'run_actor_lifecycle']), ('behaviour', ['handle_message', 'handle_link_died', 'next', 'handle_startup_finished', 'handle_stop', 'new_from_actor', 'default next', 'default on_message']),
              ('mailbox', ['MailboxReceiver::recv', 'MailboxSender::send', 'bounded', 'unbounded', '*signal_startup_finished', '*signal_stop']), ('refs', ['is_current']), ('replies', ['handle_dyn']),
              ('requests', ['tell send', 'tell try_send', 'tell blocking_send', 'ask send', 'ask try_send', 'ask blocking_send', 'ask *enqueue', '*forward', 'handler: *'])],
             ('replay', ['C02'])),
    'C03': p('Errors and panics are contained and reach on_panic',
             'A handler or link hook that panics, an error reply nobody asked for, and a failing on_start never unwind into the runtime: each reaches on_panic exactly once with that error or panic '
             'payload. What on_panic returns decides: Continue keeps the actor running with its state and queue intact, Break stops it with that reason, and an error from on_panic stops it with that error; '
             'the error hook hears of a failed on_start or on_stop once.',
             ['programs', 'histories'], 'every hook outcome at every point of an actor life',
             'tests cover one panicking handler; containment must hold for every hook, outcome and position in the history',
             [G, S, 'src/error.rs'], [('handle_message', G), ('on_shutdown', G)],
             [('behaviour', ['handle_message', 'handle_link_died', 'on_shutdown', 'default on_panic', 'default on_message', 'handle_startup_finished', 'handle_stop']), ('lifecycle', ['*_loop', 'run_actor_lifecycle']),
              ('replies', ['handle_dyn', '*into_any_err']),
              ('errors', ['PanicError::*', '*_actor_error_hook'])],
             ('replay', ['C03']), ['on_panic and on_stop do not panic themselves (their panics are not contained, as documented)']),
    'C04': p('Stop, kill and wait calls do what they say and report the truth',
             'A graceful stop queues behind what was sent before it; kill interrupts at the next await point and nothing of the actor runs after it but its shutdown; either one on an actor already gone is '
             'harmless. is_alive is false exactly once the mailbox is closed. Waiting for startup or shutdown returns only when that point was reached, also when it lies in the past, and the result '
             'variants return the very result the hook gave.',
             ['schedules', 'histories'], 'every actor state, caller, mailbox kind and interleaving of stop, kill and the waits',
             'tests stop one actor at one moment; the claims are about every moment, including before startup finished and after death',
             [A, S, 'src/mailbox.rs'], [('ActorRef::stop_gracefully', A), ('ActorRef::kill', A), ('ActorRef::wait_for_shutdown', A)],
             [('refs', ['stop_gracefully', 'kill', 'is_alive', 'wait*', '*handler: stop_gracefully', '*handler: kill', '*handler: is_alive', '*handler: wait*',
                        'Recipient::is_alive', 'Recipient::stop_gracefully', 'Recipient::kill', 'Recipient::wait*']),
              ('lifecycle', ['abortable_actor_loop', 'recv_mailbox_loop', 'run_actor_lifecycle']), ('mailbox', ['signal_stop', 'weak signal_stop', '*is_closed', '*closed', 'MailboxReceiver::close']),
              ('behaviour', ['handle_stop', 'next', 'default next', 'handle_startup_finished', 'on_shutdown', 'shutdown']), ('spawning', ['*'])], ('replay', ['C04'])),
    'C05': p('A dying actor tells every link exactly once, with its id and the reason',
             'When an actor ends for whatever reason, each actor linked to it at that moment gets exactly one link-died signal carrying its id and its real stop reason, even when it died in on_start, the '
             'links are full or dying themselves. The signal reaches on_link_died, whose outcome (by default: continue after a normal death, otherwise stop because of the link) decides; a dead actor is '
             'in nobody\'s way: it leaves no link and no registry entry behind.',
             ['histories', 'schedules', 'programs'], 'every set of links, stop reason, mailbox state and hook outcome',
             'tests link a few actors and kill one; loss or duplication shows only with full mailboxes, failing starts or deaths at once',
             [S, G, 'src/actor.rs', 'src/mailbox.rs'], [('run_actor_lifecycle', S), ('handle_link_died', G), ('signal_link_died', 'src/mailbox.rs')],
             [('values', ['Link::clone', 'Links::clone', 'ActorStopReason::clone', 'PanicError::clone']), ('lifecycle', ['links of a dead actor*', 'run_actor_lifecycle', '*_loop']), ('behaviour', ['handle_link_died', 'default on_link_died', 'next', 'on_shutdown', 'default on_panic']),
              ('refs', ['link', 'blocking_link', 'unlink', 'blocking_unlink']), ('spawning', ['*']),
              ('mailbox', ['signal_link_died', 'weak signal_link_died'])], ('replay', ['C05'])),
    'C06': p('Linking and unlinking are symmetric, idempotent and free of deadlock',
             'After link returns, each of the two actors is in the other\'s link set under its own id with a weak mailbox of the right actor; after unlink neither is. Linking or unlinking an actor with '
             'itself does nothing, repeating either changes nothing, and any number of actors linking each other from both sides at once never wait for each other in a circle.',
             ['histories', 'schedules'], 'every pair of actors, every prior link state and every interleaving of link operations',
             'a lock order cycle needs two calls to meet in a window of a few instructions, which no test schedules',
             [A, S], [('ActorRef::link', A), ('ActorRef::unlink', A)],
             [('refs', ['link', 'blocking_link', 'unlink', 'blocking_unlink', 'downgrade']), ('spawning', ['*']), ('mailbox', ['*downgrade', '*upgrade', '*clone']), ('lifecycle', ['links of a dead actor', 'run_actor_lifecycle'])], ('replay', ['C06'])),
    'C13': p('References count right, and weak ones keep no actor alive',
             'Clones and recipients refer to the same actor and keep it alive; weak references and weak recipients do not, and upgrade exactly while the actor has a strong reference left. Ids, liveness, '
             'equality with the current actor, stop, kill and counts mean the same through a reference, a recipient and their weak forms, for every message type.',
             ['histories', 'inputs'], 'every kind of reference to every actor in every state',
             'each conversion is one more hop through a type erased handler; tests touch few of the combinations',
             [A, 'src/request/tell.rs'], [('Recipient', A), ('WeakActorRef::upgrade', A)],
             [('values', ['Recipient::clone', 'WeakRecipient::clone']), ('refs', ['is_current', 'id', 'link', 'blocking_link', 'downgrade', 'recipient', 'strong_count', 'weak_count', 'ActorRef::clone', 'WeakActorRef::*', 'handler: *', 'weak handler: *', 'Recipient::*', 'WeakRecipient::*']),
              ('mailbox', ['*strong_count', '*weak_count', '*downgrade', '*clone', '*upgrade', '*same_channel', '*is_closed']), ('requests', ['handler: *', 'recipient tell *', 'Recipient::tell']), ('lifecycle', ['run_actor_lifecycle'])], ('replay', ['C13'])),
    'C14': p('A mailbox is the channel it wraps: bounded or not, nothing lost or changed',
             'A bounded mailbox holds at most its capacity and makes senders wait, an unbounded one never does; receivers get every signal sent, unchanged and in order, then nothing once all senders are '
             'gone or the mailbox was closed and emptied. Every query (closed, empty, length, counts, same channel) answers for that very channel, through strong and weak senders alike.',
             ['inputs', 'histories'], 'every capacity, signal, and state of either kind of mailbox',
             'one forgotten arm of a two-way match is enough; tests exercise a few operations on one kind',
             ['src/mailbox.rs'], [('MailboxSender', 'src/mailbox.rs'), ('MailboxReceiver', 'src/mailbox.rs')],
             [('mailbox', ['*'])], ('replay', ['C14']), ['tokio mpsc channels do what their documentation says (the contracts of kmv/lib.py)']),
    'C07': p('An ask returns the reply to its own message, or says truly why not',
             'Every form of ask puts its message into the mailbox of the right actor at most once, with a reply slot of its own, and returns what the handler put into that slot. Otherwise the error is the '
             'true one: mailbox full, actor not running or mailbox timeout mean the message was never delivered, and it comes back with the error; stopped or reply timeout mean it was delivered and no '
             'answer came in time. Timeouts apply exactly where they were asked for.',
             ['schedules', 'inputs', 'histories'], 'every form of ask, timeout, mailbox state, reply and moment of death of the actor',
             'tests pin down one outcome per form; that an error never hides a delivered message needs all paths',
             [K, 'src/error.rs', 'src/request.rs'], [('AskRequest', K), ('ActorRef::ask', A)],
             [('values', ['*RequestTimeout::clone']), ('requests', ['ask *', 'ActorRef::ask', 'no timeout', 'timeout', 'maybe timeout', 'to maybe timeout', 'PendingReply::poll', 'BlockingPendingReply::recv']),
              ('replies', ['ReplySender::*', 'handle_dyn', 'Result *', 'values *', 'default downcast*', 'Context::reply*']), ('errors', ['map_*', 'boxed', 'unwrap_*', 'reset*', 'from_*', 'From<*', 'flatten', 'try_downcast', 'downcast']),
              ('mailbox', ['MailboxSender::send', 'bounded', 'unbounded'])], ('replay', ['C07'])),
    'C08': p('A tell or forward delivers once or hands the message back',
             'Every form of tell, through a reference or a recipient, and every forward puts its message into the mailbox of the right actor exactly once and returns Ok, or does not deliver it, hands it back (a '
             'forward also the reply slot) and says truly why: full only for the trying forms, timeout only after the mailbox timeout asked for, not running only when the actor is gone. Waiting forms wait for space '
             'and never drop a message.',
             ['schedules', 'inputs', 'histories'], 'every form of tell and forward, mailbox kind and state, and timeout',
             'loss under a full mailbox or at death is a matter of the schedule; tests see one',
             [T, K, A], [('TellRequest', T), ('AskRequest::forward', K), ('MessageHandler', A)],
             [('values', ['*RequestTimeout::clone']), ('requests', ['tell *', 'ActorRef::tell', 'recipient tell *', 'Recipient::tell', 'handler: *', 'forward', 'try_forward', 'blocking_forward', 'no timeout', 'timeout', 'maybe timeout', 'to maybe timeout']),
              ('errors', ['map_*', 'boxed', 'unwrap_*', 'reset*', 'from_*', 'From<*', 'flatten', 'try_downcast', 'downcast']), ('replies', ['Context::*forward', 'ForwardedReply *']),
              ('mailbox', ['MailboxSender::send', 'bounded', 'unbounded']), ('refs', ['recipient', 'Recipient::*'])], ('replay', ['C08'])),
    'C09': p('A handler\'s result becomes the reply, or the error, exactly once',
             'What a handler returns reaches the asker unchanged and once: a Result as its Ok or Err, any other reply type as itself, a forwarded reply as what the other actor answered or, when forwarding failed, that '
             'failure, a delegated reply by its reply sender alone. If nobody asked, nothing is sent and an error goes to the actor\'s on_panic instead. No reply, of whatever kind or origin, ever makes the asker or the '
             'actor panic.',
             ['programs', 'inputs', 'histories'], 'every reply type, handler outcome, and way of asking, delegating or forwarding',
             'each reply type has its own conversions through Any; a test covers a type or two and rarely the nested or forwarded ones',
             ['src/reply.rs', 'src/message.rs'], [('ReplySender', 'src/reply.rs'), ('DynMessage::handle_dyn', 'src/message.rs'), ('Context', 'src/message.rs')],
             [('replies', ['*']), ('behaviour', ['handle_message']), ('requests', ['ask *', '*forward', 'PendingReply::poll', 'BlockingPendingReply::recv']), ('errors', ['PanicError::new', 'boxed', 'downcast', 'try_downcast', 'map_*', 'flatten'])], ('replay', ['C09'])),
    'C10': p('Errors keep their kind, their payload and their type through every conversion',
             'Mapping, flattening, boxing, unboxing or converting an error changes exactly what its name says and nothing else: the kind stays, a payload (the undelivered message, the handler\'s error) comes out as it went '
             'in, and downcasting to a wrong type hands the boxed value back unharmed. A panic error reports its panic string, type and reason faithfully, whatever the payload was and however often it is looked at.',
             ['inputs', 'programs'], 'every error kind, payload type and chain of conversions',
             'there are dozens of near identical arms; a swapped one is only seen by the test that happens to use it',
             ['src/error.rs'], [('SendError', 'src/error.rs'), ('PanicError', 'src/error.rs')],
             [('values', ['SendError::clone', 'RegistryError::clone', 'PanicError::clone']), ('errors', ['*'])], ('replay', ['C10'])),
    'C11': p('Actor ids are unique, comparable, and survive every encoding',
             'Every generated id is new, and ids are equal, and hash equally, exactly when they name the same actor on the same node, before and after the swarm is bootstrapped. Encoding an id or a registration record '
             'and decoding it gives the same id and record back, for every peer and every sequence number. Bytes that are no such encoding, of whatever length and from whatever peer, give an error or nothing, never a '
             'panic.',
             ['inputs', 'histories'], 'every sequence number, peer, byte string and moment of the bootstrap',
             'tests encode a handful of ids; the id space, the arbitrary bytes of other peers and the change of meaning at bootstrap cannot be sampled',
             ['src/actor/id.rs', 'src/remote/swarm.rs'], [('ActorID', 'src/actor/id.rs'), ('ActorRegistration', 'src/remote/swarm.rs')],
             [('values', ['ActorID*', 'PeerIdKind::clone']), ('ids', ['*']), ('spawning', ['PreparedActor::new'])], ('replay', ['C11']), ['PeerId encodings round trip as libp2p documents; fewer than 2^64 actors are spawned']),
    'C12': p('A name leads to the actor registered under it, with the right type',
             'Looking up a name gives the very actor last registered under it, or nothing if there is none, or an error if the actor is of another type: never a wrong actor and never a panic, whatever record a peer '
             'stored under the name. Registering, removing and clearing change the names they are given and no other. In a swarm the record that is stored, the answer waited for and the error reported belong to that '
             'name.',
             ['histories', 'inputs'], 'every registry content, name, actor type, and record found in the swarm',
             'the registry is process global and the swarm records come from others; tests use one name and a well formed record',
             ['src/registry.rs', 'src/actor/actor_ref.rs', 'src/remote/swarm.rs'], [('ActorRegistry', 'src/registry.rs'), ('ActorSwarm::lookup', 'src/remote/swarm.rs')],
             [('registry', ['*']), ('swarm', ['*']), ('swarmtask', ['command Lookup', 'command LookupLocal', 'command Register', 'command Unregister', 'event Kademlia query']), ('behav', ['network kademlia_*']), ('ids', ['ActorRegistration*'])], [('replay', ['C12']), ('replay-remote', ['C12'])], ['the swarm task itself is running (its absence is a panic by design)']),
    'C15': p('A pool hands every dispatch to one live worker and replaces dead ones',
             'Every message dispatched to a pool reaches exactly one worker, the least loaded of those running, and the asker gets that worker\'s very answer or error, or its message back when no worker runs. A '
             'broadcast reaches every worker once and reports each outcome in order. The pool keeps as many workers as it was made with: one that dies, and only that one, is replaced by a new linked worker with a '
             'mailbox as large as its actor\'s.',
             ['histories', 'schedules', 'programs'], 'every pool size, load, pattern of worker deaths and mailbox kind',
             'tests dispatch to healthy idle workers; the claims concern dying workers, uneven load and full mailboxes',
             ['actors/src/pool.rs'], [('ActorPool', 'actors/src/pool.rs'), ('Message<Dispatch>', 'actors/src/pool.rs'), ('on_link_died', 'actors/src/pool.rs')],
             [('values', ['Dispatch::clone', 'Broadcast::clone']), ('pool', ['*'])], ('replay', ['C15']), ['what ask, tell, forward and link promise is C06 to C10']),
    'C16': p('PubSub gives each message once to every subscriber whose filter accepts it',
             'Publishing gives the message once to each subscriber whose filter accepts it and to no one else, a copy equal to what was published, in the way the delivery strategy says. Subscribing replaces the filter of an '
             'actor which is already subscribed and leaves the others alone. Only a subscriber found dead is dropped from the subscribers: a slow, full or failing one stays and keeps no other from getting the message.',
             ['histories', 'inputs', 'schedules'], 'every set of subscribers, filter, delivery strategy and subscriber failure',
             'tests have one or two healthy subscribers; the claims are about the dead, slow and full ones among many',
             ['actors/src/pubsub.rs'], [('PubSub::publish', 'actors/src/pubsub.rs'), ('PubSub::subscribe_filter', 'actors/src/pubsub.rs')],
             [('values', ['PubSub::default']), ('pubsub', ['*'])], ('replay', ['C16']), ['filters return', 'what a recipient\'s tell promises is C07']),
    'C17': p('A broker delivers by topic pattern, and only to current subscribers',
             'A published message goes once per matching subscription to the subscribers whose pattern matches the topic, and to nobody else, in the way the delivery strategy says. Subscribing under a pattern adds to that '
             'pattern only; unsubscribing removes that actor from the pattern named, or from all, and no other actor. Only subscribers found dead are dropped; a pattern without subscribers is forgotten and the others '
             'remain.',
             ['histories', 'inputs', 'schedules'], 'every set of patterns and subscribers, topic, delivery strategy and subscriber failure',
             'tests use a pattern or two with live subscribers; wrong removals show only with several actors and patterns',
             ['actors/src/broker.rs'], [('Broker', 'actors/src/broker.rs'), ('Broker::unsubscribe', 'actors/src/broker.rs')],
             [('values', ['broker *', 'Broker::default', 'DeliveryStrategy::default']), ('broker', ['*'])], ('replay', ['C17']), ['the glob crate decides what matches (uninterpreted)']),
    'C18': p('A message bus routes by message type, and only to registered actors',
             'A message published on a bus goes once to every actor registered for its type, and to none registered only for other types, in the way the delivery strategy says. Registering adds one actor for one type; '
             'unregistering removes that actor from that type and nothing else. Only actors found dead are dropped, the failure of one does not keep the message from the others, and no sequence of these makes the bus panic.',
             ['histories', 'inputs', 'programs'], 'every set of registrations over every message type, delivery strategy and recipient failure',
             'the routing goes through Any and TypeId for types unknown to the bus; tests try one or two types',
             ['actors/src/message_bus.rs'], [('MessageBus', 'actors/src/message_bus.rs'), ('Register', 'actors/src/message_bus.rs')],
             [('values', ['MessageBus::default', 'DeliveryStrategy::default']), ('bus', ['*'])], ('replay', ['C18']), ['the list kept for a type holds recipients of that type: established by Register, kept by the others']),
    'C20': p('A remote message runs on the named actor once; its answer finds its asker',
             'A message sent to an actor of another node, or of this one through the swarm, is decoded and delivered once to the very actor of that id, with the timeouts and the waiting asked for, and never to an actor of another '
             'type or message. The answer, handler error, delivery failure or network failure that the sender gets is that of its own request, and no other request gets it. Whatever bytes, ids and events '
             'arrive, requests of other nodes are answered with an error instead of a panic, and none is left waiting.',
             ['inputs', 'histories', 'schedules'], 'every message, payload, id, actor type, network event and order of answers',
             'two-node tests have one request under way and well formed messages; mixing up requests, types or nodes shows only with many under way or hostile input',
             ['src/remote/swarm.rs', 'src/remote/_internal.rs', 'src/remote.rs', K, T], [('remote_ask', K), ('remote_tell', T), ('SwarmActor', 'src/remote/swarm.rs'), ('_internal', 'src/remote/_internal.rs')],
             [('values', ['RemoteMessageFns::clone', 'RemoteActorFns::clone', 'RemoteActorRef::clone', 'ActorStopReason (remote)::clone']), ('remotes', ['remote*', 'RemoteActorRef::ask', 'RemoteActorRef::tell']), ('dispatch', ['remote::ask', 'remote::tell', '_internal::*']),
              ('wire', ['wire: a re*', 'wire: an error*']),
              ('swarmtask', ['command Ask', 'command Tell', 'command SendAskResponse', 'command SendTellResponse', 'event Ask request', 'event Tell request', 'event response', 'event outbound failure', 'event inbound failure',
                             'event response sent']), ('behav', ['network ask', 'network tell', 'network send_ask_response', 'network send_tell_response']), ('ids', ['*(remote)']), ('errors', ['RemoteSendError::*', 'PanicError::*serialize']),
              ('swarmrun', ['ActorSwarmHandler::*', 'ActorSwarmBehaviour::new'])],
             ('replay-remote', ['C20']), ['peers answer a request with the kind of response it asks for; the swarm task is running', 'formats: what is written under a name or in a place is read under that name or in that place, as an equal value']),
    'C21': p('Links between nodes are kept on both sides and tell every death across',
             'Linking with an actor of another node enters each into the other\'s links, under its id and with the type it is reached by, on the node it lives on, and unlinking takes both out. When an actor dies, every '
             'actor of another node linked with it is told once, by id and with the real reason, and gets it as a link-died signal in its own mailbox. When the last connection to a node closes, every actor linked with '
             'actors of that node, and no other, is told that each of them disconnected.',
             ['histories', 'schedules'], 'every set of links, node of either actor, network event and reason',
             'no test runs two nodes with links: which side, actor and connection is meant only shows there',
             ['src/remote/swarm.rs', 'src/remote/_internal.rs', A, S], [('link_remote', A), ('_internal::link', 'src/remote/_internal.rs'), ('handle_connection_closed', 'src/remote/swarm.rs')],
             [('values', ['Link (remote)::clone', 'ActorStopReason (remote)::clone', 'ActorID (remote)::clone']), ('rlinks', ['*']), ('remotes', ['ActorSwarm::*']), ('wire', ['*']), ('errors', ['PanicError::serialize*', 'PanicError::deserialize*']), ('dispatch', ['remote::link', 'remote::unlink', 'remote::signal_link_died']),
              ('swarmtask', ['command Link', 'command Unlink', 'command SignalLinkDied', 'command SendLinkResponse', 'command SendUnlinkResponse', 'command SendSignalLinkDiedResponse', 'event Link request', 'event Unlink request',
                             'event SignalLinkDied request', 'event connection closed']), ('behav', ['network link', 'network unlink', 'network signal_link_died', 'network send_link_response', 'network send_unlink_response', 'network send_signal_link_died_response']),
              ('lifecycle', ['links of a dead actor (remote)']), ('behaviour', ['handle_link_died']), ('swarmrun', ['ActorSwarmHandler::*', 'ActorSwarmBehaviour::new']), ('mailbox', ['signal_link_died', 'weak signal_link_died'])],
             ('replay-remote', ['C21']), ['peers answer a request with the kind of response it asks for; the swarm task is running']),
    'C19': p('An attached stream is told to its actor whole, in order, framed by start and end',
             'A stream attached to an actor is told to it as messages: the start value first, then every item once, unchanged and in order, then the finish value once the stream has ended. An item is taken only when the '
             'one before is in the mailbox, a full mailbox is waited for, and none is lost: when the actor stops the stream is given back as far as it got, and a send that fails ends it with the undelivered message.',
             ['histories', 'schedules', 'inputs'], 'every stream, mailbox kind and state, and moment of death of the actor',
             'there is no test of streams; what happens to the item in hand when the actor dies or its mailbox is full depends on the schedule',
             [A, 'src/message.rs'], [('ActorRef::attach_stream', A), ('StreamMessage', 'src/message.rs')],
             [('values', ['StreamMessage::clone']), ('stream', ['*']), ('requests', ['tell send', 'tell await'])], ('replay', ['C19']), ['what tell and wait_for_shutdown promise is C08 and C04', 'a stream polled and left pending has not given an item up (documented by futures::Stream)']),
    'C22': p('A process has one swarm, which acts on every command and event once',
             'Starting a swarm succeeds once per process; every later start is an error that names the first, gives the new one back and disturbs nothing. The one task that serves it takes every command of this process and '
             'every event of the network, acts on each exactly once and as what it is, and never ends. Listening, dialing, disconnecting and adding addresses do what was asked and give the caller the answer to his own call; '
             'discovered peers are all made known.',
             ['histories', 'schedules', 'programs'], 'every order of starts, commands and network events',
             'a process can start its swarm only once, so no test sees the second start; a lost or doubled command needs the two queues to race',
             ['src/remote/swarm.rs'], [('ActorSwarm::bootstrap_with_swarm', 'src/remote/swarm.rs'), ('ActorSwarmHandler::run', 'src/remote/swarm.rs'), ('ActorSwarm::dial', 'src/remote/swarm.rs')],
             [('values', ['ActorSwarm::clone', 'SwarmSender::clone']), ('swarmrun', ['*']), ('swarmtask', ['*']), ('behav', ['*']), ('swarm', ['ActorSwarm::*']), ('remotes', ['ActorSwarm::*'])], ('replay-remote', ['C22']),
             ["libp2p's Swarm never ends its stream of events", 'a process panics on use of a swarm whose task has ended (by design)']),
    'C23': p('What the macros generate is what was written',
             'Handling a message generated by #[messages] calls the method it was made from once, on the actor, with every field as the argument of its name, awaits it when it is async, and replies with what it returned. '
             'Derived actors and remote actors are named as asked, or else after their type, and a derived reply is itself and never an error. What derive(RemoteActor) and #[remote_message] register under the two ids runs '
             'the function of that kind for this actor and message, with the arguments of the request each in its place.',
             ['programs', 'inputs'], 'every impl block, type and attribute the macros accept, and every value of the generated code\'s inputs',
             'tests use each macro on an actor or two, with one or two arguments; arguments mixed up, a forgotten await or a crossed table entry show only on other uses',
             ['macros/src/messages.rs', 'macros/src/remote_message.rs', 'macros/src/derive_remote_actor.rs', 'macros/src/derive_actor.rs', 'macros/src/derive_reply.rs'],
             [('Messages', 'macros/src/messages.rs'), ('RemoteMessage', 'macros/src/remote_message.rs'), ('DeriveRemoteActor', 'macros/src/derive_remote_actor.rs')],
             [('generated', ['*'])], ('replay-remote', ['C23']), ['what the macros do for the uses in /verif/uses they do for others'], level='other',
             note='Obligations on the code that the macros of the working tree generate for the uses in /verif/uses, discharged for every value of its inputs. The uses are a sample (21 messages of three kinds of impl '
                  'block, 4 actors, 2 replies, 4 tables): bounded in that, and not counted as a proof about the macros.'),
}
MANIFEST_NOTES = 'No hooks in /repo: the checks read the MIR of the unmodified crate. See DESIGN.md.'
