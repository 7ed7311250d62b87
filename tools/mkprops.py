#!/usr/bin/env python3
"""Writes properties.jsonl (run from /verif)."""
import json
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a["observe_at"] = observe or ["POST /_matrix/client/unstable/org.matrix.msc3575/sync responses"]
    a["hook_needed"] = None
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}
H = ["schedules", "histories", "fault_sequences"]
HC = H + ["crash_points"]
rows = [
p("C01", "A user is never shown room content or private data they may not see",
  "A response only ever contains timeline events, state, room names, member details and ephemeral data of a room that the user was entitled to see: what was sent while they were a joined member, the room's state as of then, or, for a room they are merely invited to, the stripped invite. After a user leaves, is kicked or is banned, nothing that happens in the room afterwards reaches any of their connections until they rejoin, and nothing from the time of their absence is shown as timeline after they rejoin. Private data of one user or device (account data, private receipts, unread counts, to-device messages, transaction IDs) is never delivered to another.",
  H, "every interleaving of several users' sync streams with requests, membership changes and connection starts, with homeserver, database and client network faults and restarts",
  "The integration tests walk a few fixed membership sequences with one poller at a time; leaks need a request, snapshot or list operation racing with a membership change seen through another user's poller.",
  ["sync3/dispatcher.go", "sync3/tracker.go", "sync3/handler/connstate.go", "sync3/handler/connstate_live.go", "sync3/caches/user.go", "sync3/caches/global.go", "state/storage.go", "sync3/extensions"],
  [("joined-room tracker decides who is notified", "sync3/tracker.go, sync3/dispatcher.go"), ("per-user timeline bounded by membership", "state/storage.go visibleEventNIDs…, sync3/caches/user.go LazyLoadTimelines"), ("invite rooms use stripped state", "sync3/caches/user.go OnInvite, handler/connstate.go getInitialRoomData")]),
p("C02", "Room timelines arrive complete, in order and without duplicates",
  "On one connection the timeline a client accumulates for a room in view never repeats an event, never goes backwards, and never skips an event which the proxy received from the homeserver and which the client may see, unless the room is sent afresh as an initial snapshot or the homeserver itself left a gap. Once the homeserver falls silent and faults stop, the last event of every visible room has reached every connection that has the room in view, and a new connection sees the same end of the timeline.",
  HC, "every sequence of homeserver sync chunks (overlapping, repeated, limited, delivered through several users' pollers), request schedule, fault sequence and crash point",
  "Tests feed hand-written chunks through one poller and look at the next response; duplication and loss depend on how snapshots, live updates, retries and overlapping pollers interleave.",
  ["state/accumulator.go", "state/event_table.go", "sync3/handler/connstate_live.go", "sync3/handler/connstate.go", "sync2/handler2/handler.go", "sync3/handler/handler.go", "pubsub"],
  [("de-duplication when accumulating a chunk", "state/accumulator.go Accumulate"), ("per-room load positions on a connection", "sync3/handler/connstate_live.go processLiveUpdate"), ("atomic event and snapshot insertion", "state/accumulator.go, sqlutil")]),
p("C03", "List operations always reconstruct the true sorted, filtered room list",
  "A client which applies the list operations it is sent, in order, always holds a consistent window: operations only touch positions inside the requested ranges, never leave holes or the same room twice, and refer only to rooms whose data has been or is being sent. Once things settle, the window and the count equal the list of the user's joined and invited rooms which match the filters, in the requested sort order.",
  H, "every history of room changes, membership changes, range, sort and filter changes, and every batching of updates into responses",
  "Tests and the existing list unit tests check single operations on small fixed lists; the property is about the composition of every operation over a connection's lifetime.",
  ["sync3/ops.go", "sync3/lists.go", "sync3/filteredlist.go", "sync3/sortable.go", "sync3/list.go", "sync3/request.go", "sync3/handler/connstate_live.go"],
  [("list delta computation", "sync3/lists.go SetRoom"), ("window operations", "sync3/ops.go CalculateListOps"), ("filters", "sync3/filters.go")]),
p("C04", "Room metadata and state converge to the homeserver's truth",
  "Once the homeserver falls silent and faults stop, every room a connection has in view shows the homeserver's current name, avatar, joined and invited counts, direct-chat flag and every piece of current room state the client asked for, both on connections which followed along and on new connections, before and after a restart. A piece of state never goes back to an older value.",
  HC, "every history of state changes and state blocks, processed through several pollers in any order, with faults, crashes and restarts",
  "Tests check metadata after single state events; stale metadata comes from races between the in-memory caches, snapshots and the live stream, and from reloading after a restart.",
  ["sync3/caches/global.go", "internal/metadata.go", "state/storage.go", "state/accumulator.go", "state/snapshot_table.go", "sync3/handler/connstate.go", "sync3/handler/connstate_live.go", "internal/roomname.go"],
  [("global room metadata cache", "sync3/caches/global.go OnNewEvent"), ("metadata rebuilt at start-up", "state/storage.go GlobalSnapshot / MetadataForAllRooms"), ("state snapshots", "state/accumulator.go calculateNewSnapshot")]),
p("C05", "A crash at any point loses nothing and corrupts nothing",
  "If the process dies at any instant, including between or inside database transactions, then after it restarts and the homeserver is reachable, new connections show exactly what they would have shown without the crash: same rooms, same timelines up to the newest event, same state and counts, same account data, receipts, unread counts, invites, and every to-device message not yet acknowledged. Start-up never fails because of what a crash left behind.",
  ["crash_points", "schedules", "histories", "fault_sequences"], "a crash before or after every database write, repeatedly, in every history",
  "The tests restart a proxy cleanly a handful of times and never kill it between two writes.",
  ["sync2/poller.go", "sync2/handler2/handler.go", "sync2/storage.go", "state/accumulator.go", "state/storage.go", "sqlutil/sql.go", "v3.go"],
  [("since token persisted only after the data", "sync2/poller.go poll"), ("one transaction per chunk", "state/accumulator.go"), ("start-up reload", "v3.go Setup, sync3/handler/handler.go Startup")]),
p("C06", "To-device messages are delivered in order, at least until acknowledged",
  "Every to-device message the homeserver hands over for a device is delivered to that device, in order, and is delivered again on every request until the client acknowledges it by presenting the position it came with; after that it is never delivered again. No message is lost, reordered, duplicated within a response or given to another device, whatever is retried, aborted or restarted.",
  HC, "every interleaving of arriving messages, acknowledgements, lost or repeated requests and responses, database errors and crashes",
  "Tests cover a few orderly request sequences; loss and duplication need lost responses, crashes between storing the message and the since token, or paging limits.",
  ["state/to_device_table.go", "sync3/extensions/todevice.go", "sync2/poller.go", "sync2/handler2/handler.go"],
  [("messages deleted only up to the acknowledged position", "sync3/extensions/todevice.go ProcessInitial"), ("to-device forces the since token to be persisted", "sync2/poller.go"), ("insert order", "state/to_device_table.go InsertMessages")]),
p("C07", "Device-list changes and key counts are not lost",
  "Every device-list change (changed or left) which the homeserver reports for a device is delivered to that device's encryption-enabled connection at least once before the client moves past it, and is repeated if the response carrying it may not have arrived. One-time-key counts and fallback key types, once things settle, equal what the homeserver last reported.",
  HC, "every interleaving of reported changes with requests, lost responses, retries, database errors and crashes",
  "Tests deliver one change and read it once; loss occurs when a response is dropped or the process dies between handing over and acknowledgement.",
  ["state/device_data_table.go", "state/device_list_table.go", "sync3/extensions/e2ee.go", "sync2/poller.go", "sync2/handler2/handler.go"],
  [("new/sent device list buckets", "state/device_list_table.go, state/device_data_table.go Select"), ("swap on acknowledged request", "sync3/extensions/e2ee.go")]),
p("C08", "Retrying a request is safe: positions behave as an exactly-once stream",
  "A repeated request for the same position and body gets exactly the same response again; each request takes effect once; the responses a client sees in order, despite lost requests, lost responses, aborts, duplicates and parameter changes on retries, form one consistent stream in which every response answers a request of that connection and nothing is skipped. A position the proxy does not know is refused with an expired-session error instead of being answered with wrong data.",
  ["schedules", "histories", "fault_sequences"], "every sequence of lost, duplicated, aborted, overlapping and changed requests",
  "Tests retry once at quiet moments; the buffering of unacknowledged responses matters when retries overlap new data and cancelled requests.",
  ["sync3/conn.go", "sync3/connmap.go", "sync3/handler/handler.go", "sync3/handler/connstate.go"],
  [("response buffer per connection", "sync3/conn.go OnIncomingRequest, tryRequest"), ("connection lookup and expiry", "sync3/connmap.go")]),
p("C09", "Account data converges to the newest value and stays private",
  "Once things settle, a client with the account data extension has, for the user and for each room in view, the newest value of every account data type the homeserver sent, whether it followed along, reconnected or the proxy was restarted. Older values never replace newer ones and account data is never shown to another user.",
  HC, "every history of global and per-room account data and of rooms entering and leaving view, with faults and crashes",
  "Tests set account data once per type; the property is about rooms coming into view, failures while storing and restarts.",
  ["state/account_data_table.go", "sync3/extensions/account_data.go", "sync2/handler2/handler.go", "sync2/poller.go", "sync3/caches/user.go"],
  [("upsert and notify", "sync2/handler2/handler.go OnAccountData"), ("initial and live delivery", "sync3/extensions/account_data.go")]),
p("C10", "Read receipts and unread counts converge; private receipts stay private",
  "Once things settle, notification and highlight counts on every connection equal what the homeserver last sent for that user, and a client with the receipts extension has every user's latest receipt which arrived while the room was in view. Private read receipts are only ever sent to the user they belong to.",
  HC, "every interleaving of receipts, unread counts, events and rooms entering view, with faults and restarts",
  "Tests send single receipts and counts; stale counts come from updates which overtake each other on their way to a connection.",
  ["state/receipt_table.go", "state/unread_table.go", "sync3/extensions/receipts.go", "sync3/caches/user.go", "sync3/handler/connstate_live.go", "sync2/handler2/handler.go"],
  [("receipt storage, private split", "state/receipt_table.go"), ("unread updates", "sync3/caches/user.go OnUnreadCounts")]),
p("C11", "Valid tokens are served, revoked ones refused and no longer polled with",
  "A request with an access token which the homeserver does not know is refused with 401 and never gets data. After the homeserver revokes a token, the proxy stops polling with it after the homeserver's first refusal, and within a bounded time no connection is served with it any more. A token which the homeserver accepts is never refused, whatever older tokens and other devices of the same user were revoked, rotated or logged out in the meantime; its user gets their rooms and unread counts.",
  HC, "every order of logins, token rotations, logouts, connections, polls, faults and restarts, over several devices of the same users",
  "Tests revoke one token of one device at a moment when nothing else happens; the failures need a poller started with an older token of the device, or a device which relies on the poller of another one.",
  ["sync2/poller.go", "sync2/handler2/handler.go", "sync2/tokens_table.go", "sync2/devices_table.go", "sync3/handler/ensure_polling.go", "sync3/handler/handler.go", "sync3/connmap.go"],
  [("expiry of tokens", "sync2/poller.go poll, sync2/handler2/handler.go OnExpiredToken"), ("starting pollers", "sync3/handler/ensure_polling.go"), ("identification of tokens", "sync3/handler/handler.go setupConnection, identifyUnknownAccessToken")]),
p("C12", "Every request is answered in time and the proxy never wedges or crashes",
  "Every request is answered within its timeout plus a small bound while nothing is failing, and within a bounded time once faults stop; new events reach a waiting long-poll promptly. No sequence of requests, homeserver responses and faults makes the process panic, deadlock or stop polling, and pollers resume by themselves after homeserver or database outages.",
  HC, "every schedule, with outages of the homeserver and the database, slow and failing statements, aborts and crashes",
  "Tests only run the happy path with real timers; deadlocks and lost wake-ups need particular interleavings or an error at a particular statement.",
  ["sync3/conn.go", "sync3/handler/connstate_live.go", "sync3/handler/ensure_polling.go", "sync2/poller.go", "sync2/handler2/handler.go", "pubsub/pubsub.go", "sync3/dispatcher.go", "sync3/handler/txn_id_waiter.go"],
  [("ensure polling handshake", "sync3/handler/ensure_polling.go"), ("poll loop with retry", "sync2/poller.go PollerMap, poller.Poll"), ("live update wait loop", "sync3/handler/connstate_live.go liveUpdate")]),
p("C13", "Transaction IDs reach the sending device, and only it",
  "An event sent with a transaction ID shows that ID in the sending device's timeline when the homeserver reported it to that device's sync stream before or soon after another stream delivered the event, and an event is never held back more than the configured delay for it. No other device or user ever sees the transaction ID.",
  H, "every order in which the sender's and other users' pollers deliver the same event, including delays around the waiting limit",
  "Tests check two fixed orders; the waiting queue must also keep order and drop nothing when other updates of the same room are queued behind a held event.",
  ["sync3/handler/txn_id_waiter.go", "state/txn_table.go", "sync3/caches/user.go", "sync2/handler2/handler.go", "sync2/poller.go"],
  [("hold back own events", "sync3/handler/txn_id_waiter.go"), ("annotation just before sending", "sync3/caches/user.go AnnotateWithTransactionIDs")]),
p("C14", "Invites appear, disappear and turn into joins correctly",
  "Once things settle, an invite which the homeserver shows as pending is in the user's lists with its stripped state, and one which was accepted, rejected, retracted or ended by a ban is not shown as an invite any more on any connection, before or after a restart. An invited user sees nothing of the room beyond the stripped state, and accepting the invite delivers the room afresh with its full state.",
  HC, "every order of invite, join, leave, kick and ban as seen through the inviter's, invitee's and other members' streams, with faults and restarts",
  "Tests cover accept and reject at quiet moments with one stream; the same change arrives through several pollers in any order.",
  ["state/invites_table.go", "sync3/caches/user.go", "sync3/dispatcher.go", "sync3/handler/connstate.go", "sync2/handler2/handler.go", "sync2/poller.go"],
  [("invite table", "state/invites_table.go"), ("retiring invites", "sync3/handler/handler.go OnLeftRoom, OnInvite, state/accumulator")]),
p("C15", "Typing notifications reflect who is typing now",
  "Once things settle, a client with the typing extension which has a room in view was last told exactly the set of users the homeserver last reported as typing there. Typing is never shown for rooms the user is not in.",
  H, "every interleaving of typing changes through several pollers with requests and rooms entering view",
  "Tests send single typing events through one poller; only one poller per room may report typing and responsibility must pass on when it goes away.",
  ["sync2/handler2/handler.go", "sync3/extensions/typing.go", "sync3/caches/global.go"],
  [("one typing device per room", "sync2/handler2/handler.go SetTyping"), ("typing in room metadata", "sync3/caches/global.go OnEphemeralEvent")]),
p("C16", "Housekeeping forgets only what nobody needs, and forgetting loses nothing",
  "A device which made a request within the last 29 days keeps being polled, whatever older access tokens it had; one unused for more than 30 days is no longer polled once the hourly clean-up has run, and when it comes back it catches up with everything, including to-device messages. A connection used at least every 30 minutes is never forgotten; one idle for longer may be refused only with the expired-session error, after which a new connection gets the current truth. The periodic removal of old snapshots and transaction IDs never changes what a client is shown: timelines, state and the transaction IDs of recent events survive it, before and after a restart.",
  H, "every interleaving of the hourly and periodic clean-ups, connection expiry, devices ageing, clients pausing for minutes or an hour, restarts and traffic",
  "It takes hours or weeks of clock time with traffic, pauses and restarts; tests call the clean-up functions directly on hand-made rows.",
  ["sync2/poller.go", "sync2/devices_table.go", "sync2/handler2/handler.go", "sync3/connmap.go", "state/storage.go", "sync2/transaction_id.go"],
  [("devices which stop being polled", "sync2/poller.go ExpirePollers, sync2/handler2/handler.go ExpireOldPollers, sync2/devices_table.go FindOldDevices"), ("connection expiry", "sync3/connmap.go ttlcache"), ("snapshot clean-up", "state/storage.go Cleaner, RemoveInaccessibleStateSnapshots")]),
]
with open("properties.jsonl", "w") as f:
    for r in rows:
        assert len(r["title"]) <= 80, r["title"]
        f.write(json.dumps(r) + "\n")
